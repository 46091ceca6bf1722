// the whole-diagram contract of the Monte Carlo updates, executable: random chains on the
// compiled code; after every update the global invariants, the transition's acceptance
// threshold, the counters and the reverse move are checked
#ifndef VC_MARKOV_H
#define VC_MARKOV_H
#include "weights.h"
#include "rngctl.h"
#include "module/diagram/diagram.h"
#include "module/markov/markov.h"
#include "module/parameter/parameter.h"
#include "module/weight/weight.h"
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <map>
#include <set>
#include <exception>
using namespace mc;
using namespace diag;
enum { P4 = 1, P5 = 2, P6 = 4, P7 = 8, P8 = 16, P9 = 32, P10 = 64 };
enum Op { CREATE, DELETE_, MOVEG, MOVEW, RECON, ADD, DEL, ADDD, DELD, CTAU, RVER, RLOOP, G2W, W2G, D2C, C2D, SPINV, TO0, BACK, TOGG, FROMGG, TOWW, FROMWW, NOPS };
typedef void (Markov::*OpFn)();
static const OpFn OPF[NOPS] = {&Markov::CreateWorm, &Markov::DeleteWorm, &Markov::MoveWormOnG, &Markov::MoveWormOnW, &Markov::Reconnect, &Markov::AddInteraction, &Markov::DeleteInteraction, &Markov::AddDeltaInteraction, &Markov::DeleteDeltaInteraction, &Markov::ChangeTauOnVertex, nullptr, &Markov::ChangeRLoop, &Markov::ChangeMeasureFromGToW, &Markov::ChangeMeasureFromWToG, &Markov::ChangeDeltaToContinuous, &Markov::ChangeContinuousToDelta, nullptr, &Markov::JumpToOrder0, &Markov::JumpBackToOrder1, &Markov::JumpToGGGammaG, &Markov::JumpFromGGGammaGToG, &Markov::JumpToWWGammaW, &Markov::JumpFromWWGammaWToW};
static const int REV[NOPS] = {DELETE_, CREATE, MOVEG, MOVEW, RECON, DEL, ADD, DELD, ADDD, CTAU, -1, RLOOP, W2G, G2W, C2D, D2C, -1, BACK, TO0, FROMGG, TOGG, FROMWW, TOWW};
struct Rn { unsigned long long s; unsigned long long next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1DULL; } unsigned u32() { return (unsigned)(next() >> 32); } int n(int k) { return (int)(u32() % (unsigned)k); } double u() { return (next() >> 11) / 9007199254740992.0; } };
static const unsigned U0 = 0x80000000u, U1 = 0x7fffffffu;      // accept draw 0 / just below 1
static double urn_of(unsigned r) { return (int)r * 2.32830643653869628906e-010 + 0.5; }
static unsigned of_urn(double u) { double x = (u - 0.5) * 4294967296.0; if (x < -2147483648.0) x = -2147483648.0; if (x > 2147483647.0) x = 2147483647.0; return (unsigned)(int)x; }
static int near(double a, double b, double t = 1e-7) { double s = std::fabs(a) > std::fabs(b) ? std::fabs(a) : std::fabs(b); return std::fabs(a - b) <= t * s + 1e-13; }
static int cnear(const Complex& a, const Complex& b) { double s = std::hypot(a.Re, a.Im) + std::hypot(b.Re, b.Im); return std::hypot(a.Re - b.Re, a.Im - b.Im) <= 1e-7 * s + 1e-13; }
static int mod20001(long long k) { long long m = ((k + 10000) % 20001 + 20001) % 20001; return (int)(m - 10000); }

struct Chain {
    int mask; Rn rn; Q q; Lattice lat; GBox g; WBox w; GammaGBox gg; GammaWBox ww; para::ParaMC para; Box<weight::Weight> wt; Diagram* d; Markov* m;
    void (*each)(void*) = nullptr; void* ctx = nullptr;   // called after every update
    static const int NS = 16; unsigned scr[NS]; int used;
    struct Snap { std::vector<char> d, m; long long c; };
    Chain(int mask_, Q q_, unsigned long long seed) : mask(mask_), q(q_), lat(V(q_.lx, q_.ly), q_.s), g(q_, lat, TauAntiSymmetric), w(q_, lat), gg(q_, lat), ww(q_, lat) {
        rn.s = seed * 0x9E3779B97F4A7C15ULL + 77; for (int i = 0; i < 5; i++) rn.next();
        fill(g->_SmoothTWeight); fill(g->_MeasureWeight); fill(w->_SmoothTWeight); fill(w->_MeasureWeight); fill(w->_DeltaTWeight); fill(gg->_Weight); fill(ww->_Weight);
        g->GGGammaGWeight = gg.p; w->WWGammaWWeight = ww.p;
        para.Beta = q.beta; para.Order = 1 + rn.n(6); para.runGamma3 = rn.n(2); para.Counter = rn.n(100); para.Lat = lat; para.NSublat = q.s;
        para.OrderReWeight.clear(); for (int i = 0; i <= para.Order; i++) para.OrderReWeight.push_back(0.3 + 2 * rn.u());
        para.WormSpaceReweight = 0.2 + rn.u(); para.PolarReweight = 0.4 + 2 * rn.u(); para.GammaGReweight = 0.3 + rn.u(); para.GammaWReweight = 0.3 + rn.u();
        memset(wt.raw, 0, sizeof wt.raw); wt->G = g.p; wt->W = w.p; wt->GammaG = gg.p; wt->GammaW = ww.p;
        d = new Diagram(); m = new Markov();
        if (!m->BuildNew(para, *d, *wt)) vc_assume(0);
        double tot = 0; int n = para.runGamma3 ? NOPS : 19;
        m->RNG = &para.RNG;
        for (int i = 0; i < NOPS; i++) pc[i] = m->ProbofCall[i];
        if (mask & (P9 | P10)) { chk(P10, "call-probabilities-uniform-and-cumulative", uniform(n)); }
        chk(P10 | P9 | P8, "chain-uses-the-configured-parameters-and-tables", m->Counter == &para.Counter && m->WormSpaceReweight == &para.WormSpaceReweight && m->PolarReweight == &para.PolarReweight && m->GammaGReweight == &para.GammaGReweight && m->GammaWReweight == &para.GammaWReweight && m->OrderReWeight == para.OrderReWeight.data() && m->Lat == &para.Lat && m->RNG == &para.RNG && m->Diag == d && m->Worm == &d->Worm && m->UExt == &d->UExt && m->Beta == para.Beta && m->Order == para.Order && m->runGamma3 == para.runGamma3 && m->G == g.p && m->W == w.p);
        for (int i = 0; i < n; i++) { pc[i] = 0.3 + rn.u(); tot += pc[i]; }
        double acc = 0; for (int i = 0; i < n; i++) { pc[i] /= tot; acc += pc[i]; m->ProbofCall[i] = pc[i]; m->SumofProbofCall[i] = i == n - 1 ? 1.0 : acc; }
        build();
    }
    ~Chain() { delete d; delete m; }
    int uniform(int n) { double s = 0; for (int i = 0; i < n; i++) { s += m->ProbofCall[i]; if (!near(m->ProbofCall[i], 1.0 / n) || !near(m->SumofProbofCall[i], s)) return 0; } return near(s, 1); }
    double pc[NOPS];
    template <class A> void fill(A& a) { for (unsigned i = 0; i < a._Size; i++) { double r = std::exp((rn.u() - 0.5) * 2), t = rn.u() * 6.283185307179586; if (rn.n(4) == 0) t = rn.n(2) * 3.141592653589793; a._Data[i] = Complex(r * std::cos(t), r * std::sin(t)); } }
    void chk(int bit, const char* name, int c) { if (mask & bit) vc_assert(name, c); else if (!c) vc_assume(0); }
    void build() {
        d->ClearDiagram(); d->Lat = &para.Lat; d->GWeight = g.p; d->WWeight = w.p;
        vertex a = d->Ver.Add(), b = d->Ver.Add(); gLine x = d->G.Add(), y = d->G.Add(); wLine u = d->W.Add();
        spin s1 = rn.n(2) ? UP : DOWN, s2 = rn.n(2) ? UP : DOWN; spin sa[2] = {s2, s1}, sb[2] = {s1, s2};
        Site r(rn.n(q.s), V(rn.n(q.lx), rn.n(q.ly)));
        a->SetVertex(r, rn.u() * q.beta, sa, IN); b->SetVertex(r, rn.u() * q.beta, sb, OUT);
        a->nG[OUT] = x; a->nG[IN] = y; b->nG[IN] = x; b->nG[OUT] = y; a->nW = u; b->nW = u;
        x->nVer[IN] = a; x->nVer[OUT] = b; y->nVer[IN] = b; y->nVer[OUT] = a; u->nVer[IN] = a; u->nVer[OUT] = b;
        x->SetGLine(Momentum(1), Complex(1, 0), true, false); y->SetGLine(Momentum(2), Complex(1, 0), false, false); u->SetWLine(Momentum(1), Complex(1, 0), false, false, false, false);
        d->AddGHash(x->K); d->AddGHash(y->K); d->AddWHash(u->K);
        d->Worm.Exist = false; d->MeasureGLine = true; d->GMeasure = x; d->WMeasure = nullptr; d->HasGammaGW = 0; d->SignFermiLoop = 1; d->Vin = d->Vout = nullptr; d->Worm.Weight = 1;
        d->FixDiagram();
    }
    void save(Snap& s) { s.d.assign((char*)d, (char*)d + sizeof(Diagram)); s.m.assign((char*)m, (char*)m + sizeof(Markov)); s.c = para.Counter; }
    void load(const Snap& s) { memcpy((void*)d, s.d.data(), sizeof(Diagram)); memcpy((void*)m, s.m.data(), sizeof(Markov)); para.Counter = s.c; }
    const Diagram* D(const Snap& s) { return (const Diagram*)s.d.data(); }
    const Markov* M(const Snap& s) { return (const Markov*)s.m.data(); }
    void script(const unsigned* v) { para.RNG._eng.seed(7); for (int i = 0; i < NS; i++) para.RNG._eng._M_x[i] = untemper(v[i]); para.RNG._eng._M_p = 0; }
    bool aborted;
    void run(int op, const unsigned* v) { script(v); aborted = false; try { (m->*OPF[op])(); } catch (std::exception&) { aborted = true; } used = (int)para.RNG._eng._M_p; chk(P4, "no-update-aborts", !aborted); }
    // ---------------------------------------------------------------- invariants
    int nG() { return d->G.HowMany(); } int nW() { return d->W.HowMany(); } int nV() { return d->Ver.HowMany(); }
    bool lv(vertex v) { return v >= d->Ver._component_bundle && v < d->Ver._component_bundle + MAX_BUNDLE && d->Ver.Exist(v); }
    bool lg(gLine v) { return v >= d->G._component_bundle && v < d->G._component_bundle + MAX_BUNDLE && d->G.Exist(v); }
    bool lw(wLine v) { return v >= d->W._component_bundle && v < d->W._component_bundle + MAX_BUNDLE && d->W.Exist(v); }
    int loops() { std::set<vertex> s; int n = 0; for (int i = 0; i < nV(); i++) { vertex v = d->Ver(i); if (s.count(v)) continue; n++; while (!s.count(v)) { s.insert(v); v = v->nG[OUT]->nVer[OUT]; } } return n; }
    Complex gw(gLine x) { vertex a = x->nVer[IN], b = x->nVer[OUT]; return g->Weight(a->R, b->R, a->Tau, b->Tau, a->_spin[OUT], b->_spin[IN], x->IsMeasure, x->IsGGGammaG, &d->UExt); }
    Complex wwt(wLine x) { vertex a = x->nVer[IN], b = x->nVer[OUT]; bool worm = d->Worm.Exist && (d->Worm.Ira == a || d->Worm.Ira == b || d->Worm.Masha == a || d->Worm.Masha == b); return w->Weight(a->R, b->R, a->Tau, b->Tau, a->_spin, b->_spin, worm, x->IsMeasure, x->IsDelta, x->IsWWGammaW, &d->UExt); }
    Complex total() { if (d->Order == 0) return Complex(weight::Norm::Weight(), 0); Complex t(1, 0); for (int i = 0; i < nG(); i++) t *= gw(d->G(i)); for (int i = 0; i < nW(); i++) t *= wwt(d->W(i)); double s = loops() % 2 ? 1 : -1; if (d->Order % 2) s = -s; return t * s; }
    void inv() {
        int o = d->Order, e = o > 0 ? o : 1;
        chk(P5, "order-in-range", (o >= 0) & (o <= para.Order));
        chk(P5 | P8, "object-counts-match-order", (nG() == 2 * e) & (nW() == e) & (nV() == 2 * e));
        int mg = 0, mw = 0, fg = 0, fw = 0;
        for (int i = 0; i < nV(); i++) { vertex v = d->Ver(i);
            chk(P5, "vertex-lines-live", lg(v->nG[IN]) && lg(v->nG[OUT]) && lw(v->nW));
            chk(P5, "vertex-and-lines-agree", v->nG[IN]->nVer[OUT] == v && v->nG[OUT]->nVer[IN] == v && (v->Dir == IN || v->Dir == OUT) && v->nW->nVer[v->Dir] == v);
            if (o) chk(P5, "time-in-range", v->Tau >= 0 && v->Tau < q.beta);
            chk(P5, "site-in-lattice", v->R.Sublattice >= 0 && v->R.Sublattice < q.s && v->R.Coordinate[0] >= 0 && v->R.Coordinate[0] < q.lx && v->R.Coordinate[1] >= 0 && v->R.Coordinate[1] < q.ly); }
        for (int i = 0; i < nG(); i++) { gLine x = d->G(i); chk(P5, "line-ends-live", lv(x->nVer[IN]) && lv(x->nVer[OUT])); chk(P5, "line-and-vertices-agree", x->nVer[IN]->nG[OUT] == x && x->nVer[OUT]->nG[IN] == x);
            chk(P5, "fermion-line-on-one-site", x->nVer[IN]->R == x->nVer[OUT]->R); if (x->IsMeasure) mg++; if (x->IsGGGammaG) { fg++; chk(P5, "vertex-function-line-is-not-measuring", !x->IsMeasure); } }
        for (int i = 0; i < nW(); i++) { wLine x = d->W(i); chk(P5, "line-ends-live", lv(x->nVer[IN]) && lv(x->nVer[OUT]) && x->nVer[IN] != x->nVer[OUT]); chk(P5, "line-and-vertices-agree", x->nVer[IN]->nW == x && x->nVer[OUT]->nW == x && x->nVer[IN]->Dir == IN && x->nVer[OUT]->Dir == OUT);
            if (x->IsDelta) chk(P5, "local-line-joins-equal-times-and-is-not-measuring", x->nVer[IN]->Tau == x->nVer[OUT]->Tau && !x->IsMeasure && !x->IsWWGammaW); if (x->IsMeasure) mw++; if (x->IsWWGammaW) { fw++; chk(P5, "vertex-function-line-is-not-measuring", !x->IsMeasure); } }
        chk(P5, "exactly-one-measuring-line", mg + mw == 1); chk(P5, "measuring-line-bookkeeping", d->MeasureGLine ? mg == 1 && lg(d->GMeasure) && d->GMeasure->IsMeasure : mw == 1 && lw(d->WMeasure) && d->WMeasure->IsMeasure);
        chk(P5, "vertex-function-bookkeeping", d->HasGammaGW == 0 ? fg + fw == 0 : d->HasGammaGW == 1 ? fg == 1 && fw == 0 : d->HasGammaGW == 2 && fw == 1 && fg == 0);
        for (int i = 0; i < nG(); i++) if (d->G(i)->IsGGGammaG) chk(P5, "vertex-function-handles", d->Vin == &d->G(i)->nVer[IN] && d->Vout == &d->G(i)->nVer[OUT]);
        for (int i = 0; i < nW(); i++) if (d->W(i)->IsWWGammaW) chk(P5, "vertex-function-handles", d->Vin == &d->W(i)->nVer[IN] && d->Vout == &d->W(i)->nVer[OUT]);
        bool we = d->Worm.Exist; vertex I = d->Worm.Ira, Ma = d->Worm.Masha; int dS = d->Worm.dSpin;
        if (we) chk(P5, "worm-ends-are-two-live-vertices", o > 0 && lv(I) && lv(Ma) && I != Ma);
        // C04
        { std::set<int> gk, wk; for (int i = 0; i < nG(); i++) { int k = d->G(i)->K.K; chk(P4, "fermion-momentum-in-range", k >= -10000 && k <= 10000); chk(P4, "fermion-momenta-distinct", gk.insert(k).second); }
          for (int i = 0; i < nW(); i++) { int k = d->W(i)->K.K; chk(P4, "interaction-momentum-in-range", k >= -10000 && k <= 10000 && k != 0); chk(P4, "interaction-momenta-distinct", wk.insert(k < 0 ? -k : k).second); }
          int bg = 0, bw = 0; for (int k = -10000; k <= 10000; k++) if (d->GHash[k + 10000]) { bg++; } for (int k = 0; k <= 10000; k++) if (d->WHash[k]) bw++;
          for (int k : gk) chk(P4, "fermion-table-has-live-momenta", d->GHash[k + 10000]); for (int k : wk) chk(P4, "interaction-table-has-live-momenta", d->WHash[k]);
          chk(P4, "fermion-table-exact", bg == (int)gk.size()); chk(P4, "interaction-table-exact", bw == (int)wk.size()); }
        for (int i = 0; i < nV(); i++) { vertex v = d->Ver(i); long long k = v->nG[IN]->K.K - v->nG[OUT]->K.K; k += v->Dir == IN ? -v->nW->K.K : v->nW->K.K; if (we && v == I) k -= d->Worm.K.K; if (we && v == Ma) k += d->Worm.K.K; chk(P6, "momentum-conserved-at-vertex", mod20001(k) == 0); }
        if (we) chk(P6, "worm-momentum-in-range", d->Worm.K.K >= -10000 && d->Worm.K.K <= 10000);
        for (int i = 0; i < nV(); i++) { vertex v = d->Ver(i); chk(P7, "spin-values", (v->_spin[0] == UP || v->_spin[0] == DOWN) && (v->_spin[1] == UP || v->_spin[1] == DOWN)); }
        for (int i = 0; i < nG(); i++) { gLine x = d->G(i); chk(P7, "one-spin-per-fermion-line", x->nVer[IN]->_spin[OUT] == x->nVer[OUT]->_spin[IN]); }
        for (int i = 0; i < nW(); i++) { wLine x = d->W(i); vertex a = x->nVer[IN], b = x->nVer[OUT]; int s = 0; for (vertex v : {a, b}) s += (int)v->_spin[IN] - (int)v->_spin[OUT]; if (we) { int t = 0; for (vertex v : {a, b}) { if (v == I) t += dS; if (v == Ma) t -= dS; } chk(P7, "spin-balance-of-interaction-line", s == t); } else chk(P7, "spin-balance-of-interaction-line", s == 0);
            chk(P7, "worm-flag", x->IsWorm == (we && (a == I || b == I || a == Ma || b == Ma))); }
        if (we) chk(P7, "worm-spin", dS == 1 || dS == -1);
        if (o == 0) { chk(P8, "order-zero-weight", cnear(d->Weight, Complex(weight::Norm::Weight(), 0))); }
        else { for (int i = 0; i < nG(); i++) chk(P8, "fermion-line-weight-cached", cnear(d->G(i)->Weight, gw(d->G(i)))); for (int i = 0; i < nW(); i++) chk(P8, "interaction-line-weight-cached", cnear(d->W(i)->Weight, wwt(d->W(i)))); chk(P8, "total-weight", cnear(d->Weight, total())); }
        { Complex t = d->Weight; double a = std::hypot(t.Re, t.Im); chk(P8, "phase-of-the-weight", cnear(d->Phase, Complex(t.Re / a, t.Im / a))); }
        chk(P8, "fermion-loop-sign", d->SignFermiLoop == (loops() % 2 ? 1 : -1));
        if (we) chk(P8, "worm-weight-cached", near(d->Worm.Weight, weight::Worm::Weight(I->R, Ma->R, I->Tau, Ma->Tau)));
    }
    // ---------------------------------------------------------------- spec of the transition
    double reweight() { int o = d->Order; double r = para.OrderReWeight[o]; if (d->Worm.Exist) r *= para.WormSpaceReweight * weight::Worm::Weight(d->Worm.Ira->R, d->Worm.Masha->R, d->Worm.Ira->Tau, d->Worm.Masha->Tau); if (!d->MeasureGLine) r *= para.PolarReweight; if (d->HasGammaGW) r *= d->MeasureGLine ? para.GammaGReweight : para.GammaWReweight; return r; }
    double target() { Complex t = total(); return std::hypot(t.Re, t.Im) * reweight(); }
    double density(int op, int o) { double b = q.beta, v = (double)lat.Vol * lat.SublatVol; switch (op) { case CREATE: return 2.0 * o; case DELETE_: return 0.5 / o; case ADD: return b * b; case ADDD: return b; case DEL: return 1 / (b * b); case DELD: return 1 / b; case G2W: return 0.5; case W2G: return 2; case D2C: return b; case C2D: return 1 / b; case TO0: return 0.25 / (b * b * v); case BACK: return 4 * b * b * v; case TOGG: return 2 * o * b; case FROMGG: return 1 / (2 * o * b); case TOWW: return o * b * v; case FROMWW: return 1 / (o * b * v); } return 1; }
    // logical content of a diagram, names and line-momentum labels of the table left out
    struct Log { std::map<const void*, std::vector<double> > o; std::vector<double> h; };
    static double pn(const void* p) { return (double)(size_t)p; }
    Log logi() { Log l; for (int i = 0; i < nV(); i++) { vertex v = d->Ver(i); l.o[v] = {1, pn(v->nG[0]), pn(v->nG[1]), pn(v->nW), (double)v->R.Sublattice, (double)v->R.Coordinate[0], (double)v->R.Coordinate[1], (double)v->_spin[0], (double)v->_spin[1], d->Order ? v->Tau : 0, (double)v->Dir}; }
        for (int i = 0; i < nG(); i++) { gLine x = d->G(i); l.o[x] = {2, pn(x->nVer[0]), pn(x->nVer[1]), (double)x->K.K, (double)x->IsMeasure, (double)x->IsGGGammaG}; }
        for (int i = 0; i < nW(); i++) { wLine x = d->W(i); l.o[x] = {3, pn(x->nVer[0]), pn(x->nVer[1]), (double)x->K.K, (double)x->IsMeasure, (double)x->IsDelta, (double)x->IsWWGammaW, (double)x->IsWorm}; }
        bool e = d->Worm.Exist; l.h = {(double)d->Order, (double)e, e ? pn(d->Worm.Ira) : 0, e ? pn(d->Worm.Masha) : 0, e ? (double)d->Worm.K.K : 0, e ? (double)d->Worm.dSpin : 0, (double)d->MeasureGLine, d->MeasureGLine ? pn(d->GMeasure) : pn(d->WMeasure), (double)d->HasGammaGW}; return l; }
    static bool same(const Log& a, const Log& b) { return a.o == b.o && a.h == b.h; }
    bool quiet(const Snap& s, int op, bool counters) {   // nothing changed but (optionally) the attempt counter
        Snap n; save(n);
        Diagram* a = (Diagram*)n.d.data(); const Diagram* b = D(s);
        if (op == TOGG || op == TOWW) memcpy((void*)&a->UExt, &b->UExt, sizeof a->UExt);
        if (memcmp(n.d.data(), s.d.data(), n.d.size())) return false;
        Markov* x = (Markov*)n.m.data(); const Markov* y = M(s);
        if (counters) memcpy(x->Proposed, y->Proposed, sizeof x->Proposed);
        return !memcmp(n.m.data(), s.m.data(), n.m.size()) && para.Counter == s.c;
    }
    bool counted(const Snap& s, int op, int o, bool acc) { const Markov* y = M(s); for (int i = 0; i < NOPS; i++) for (int j = 0; j < MAX_ORDER; j++) { double p = y->Proposed[i][j] + (i == op && j == o), a = y->Accepted[i][j] + (acc && i == op && j == o); if (m->Proposed[i][j] != p || m->Accepted[i][j] != a) return false; } return para.Counter == s.c; }
    bool drawn_tau(double t) { for (int i = 0; i < used && i < NS; i++) if (near(t, urn_of(scr[i]) * q.beta, 1e-9)) return true; return false; }
    bool drawn_int(int v, int lo, int n) { for (int i = 0; i < used && i < NS; i++) if (v == (int)(scr[i] % (unsigned)n) + lo) return true; return false; }
    // what the accepted update may and must change
    void effect(int op, const Log& a, const Log& b) {
        int ntau = 0, nr = 0, nsp = 0, nlink = 0, ngk = 0, nwk = 0, nmg = 0, nmw = 0, ndl = 0, ngam = 0, added = 0, removed = 0, ndir = 0; double nt = 0; int nr0 = 0; int wk = 0;
        for (auto& x : b.o) { auto it = a.o.find(x.first); if (it == a.o.end()) { added++; if (x.second[0] == 1 && (op == ADD || op == ADDD)) chk(P9, "new-time-is-drawn", drawn_tau(x.second[9])); if (x.second[0] == 3) wk = (int)x.second[3]; continue; }
            const std::vector<double>&p = it->second, &n = x.second; if (n[0] == 1) { if (p[1] != n[1] || p[2] != n[2] || p[3] != n[3]) nlink++; if (p[4] != n[4] || p[5] != n[5] || p[6] != n[6]) nr++; if (p[7] != n[7]) nsp++; if (p[8] != n[8]) nsp++; if (p[9] != n[9]) { ntau++; nt = n[9]; } if (p[10] != n[10]) ndir++; }
            else { if (p[1] != n[1] || p[2] != n[2]) nlink++; if (n[0] == 2) { if (p[3] != n[3]) ngk++; if (p[4] != n[4]) nmg++; if (p[5] != n[5]) ngam++; } else { if (p[3] != n[3]) { nwk++; } if (p[4] != n[4]) nmw++; if (p[5] != n[5]) ndl++; if (p[6] != n[6]) ngam++; } } }
        for (auto& x : a.o) if (!b.o.count(x.first)) removed++;
        int jump = op == TO0 || op == BACK;
        chk(P9, "order-step", b.h[0] - a.h[0] == (op == ADD || op == ADDD || op == BACK ? 1 : op == DEL || op == DELD || op == TO0 ? -1 : 0));
        chk(P9, "objects-added-and-removed", added == (op == ADD || op == ADDD ? 5 : 0) && removed == (op == DEL || op == DELD ? 5 : 0));
        chk(P9, "directions-kept", ndir == 0);
        if (!jump) chk(P9, "times-changed", ntau <= (op == CTAU || op == D2C || op == C2D ? 1 : 0));
        if (op == CTAU || op == D2C) { if (ntau) chk(P9, "new-time-is-drawn", drawn_tau(nt)); }
        if (!jump && op != RLOOP) chk(P9, "sites-changed", nr == 0);
        if (!jump) chk(P9, "spins-changed", nsp == (op == MOVEG ? 2 : 0));
        chk(P9, "connections-changed", (nlink > 0) == (op == RECON || op == ADD || op == ADDD || op == DEL || op == DELD));
        chk(P9, "fermion-momenta-changed", ngk <= (op == MOVEG ? 1 : 0)); chk(P9, "interaction-momenta-changed", nwk <= (op == CREATE || op == DELETE_ || op == MOVEW ? 1 : 0));
        chk(P9, "measuring-line-moved", nmg == (op == G2W || op == W2G) && nmw == (op == G2W || op == W2G)); chk(P9, "locality-changed", ndl == (op == D2C || op == C2D)); chk(P9, "vertex-function-flag-changed", ngam == (op >= TOGG));
        chk(P9, "worm-appears-or-vanishes", b.h[1] - a.h[1] == (op == CREATE ? 1 : op == DELETE_ ? -1 : 0));
        if (a.h[1] && b.h[1]) { chk(P9, "worm-spin-kept", a.h[5] == b.h[5]); chk(P9, "masha-stays", a.h[3] == b.h[3]); chk(P9, "ira-moves", (a.h[2] != b.h[2]) == (op == MOVEG || op == MOVEW)); if (op == MOVEG || op == MOVEW) chk(P9, "worm-momentum-kept", a.h[4] == b.h[4]); }
        if (op == CREATE) { chk(P9, "worm-momentum-is-drawn", drawn_int((int)b.h[4], -10000, 20001)); chk(P9, "worm-spin-is-drawn", drawn_int((int)(b.h[5] + 1) / 2, 0, 2)); }
        if (op == ADD || op == ADDD) chk(P9, "interaction-momentum-is-drawn", drawn_int(wk, -10000, 20001));
        if (op == TOGG) chk(P9, "external-point-is-proposed", drawn_tau(d->UExt.Tau) && d->UExt.Spin == UP && d->Vin && d->UExt.R == (*d->Vin)->R);
        if (op == TOWW) chk(P9, "external-point-is-proposed", drawn_tau(d->UExt.Tau) && d->UExt.Spin == UP && drawn_int(d->UExt.R.Sublattice, 0, q.s) && drawn_int(d->UExt.R.Coordinate[0], 0, q.lx) && drawn_int(d->UExt.R.Coordinate[1], 0, q.ly));
        if (op == BACK) { for (int i = 0; i < nV(); i++) chk(P9, "new-time-is-drawn", drawn_tau(d->Ver(i)->Tau)); }
    }
    int interesting() { int c = rn.n(6); if (c == 0) return rn.n(5) - 2; int k; if (c < 4 && nG()) { k = d->G(rn.n(nG()))->K.K; if (rn.n(2) && nW()) k -= d->W(rn.n(nW()))->K.K; if (rn.n(2)) k -= d->G(rn.n(nG()))->K.K; } else k = d->W(rn.n(nW()))->K.K; if (rn.n(2)) k = -k; if (c == 5 && d->Worm.Exist) k += d->Worm.K.K; return mod20001(k); }
    unsigned draw() { int c = rn.n(8); if (c < 3) return (unsigned)(interesting() + 10000) + 20001u * (rn.u32() % 200000u); if (c == 3) return rn.n(8); if (c == 4) return rn.n(2) ? U0 + rn.n(3) : U1 - rn.n(3); return rn.u32(); }
    // the part of the applicability conditions that does not depend on the draws
    bool may(int op) {
        int o = d->Order; bool e = d->Worm.Exist; int hg = d->HasGammaGW;
        switch (op) { case CREATE: return o > 0 && !e; case DELETE_: return o > 0 && e && d->Worm.Ira->nW == d->Worm.Masha->nW; case MOVEG: case MOVEW: return o > 0 && e; case RECON: return o > 0 && e && d->Worm.Ira->R == d->Worm.Masha->R;
        case ADD: case ADDD: return e && o > 0 && o < para.Order; case DEL: case DELD: return e && o > 1; case CTAU: case RLOOP: return o > 0 && !e;
        case G2W: return o > 0 && !e && d->MeasureGLine && hg == 0; case W2G: return o > 0 && !e && !d->MeasureGLine && hg == 0; case D2C: case C2D: return o > 1 && !e;
        case TO0: return o == 1 && !e && hg == 0 && !d->W(0)->IsDelta && d->Ver(0)->R == d->Ver(1)->R; case BACK: return o == 0 && !e && hg == 0;
        case TOGG: case TOWW: return o > 0 && !e && hg == 0; case FROMGG: return o > 0 && !e && hg == 1 && (*d->Vin)->R == (*d->Vout)->R && (*d->Vin)->R == d->UExt.R && d->UExt.Spin == UP; case FROMWW: return o > 0 && !e && hg == 2 && d->UExt.Spin == UP; }
        return true;
    }
    // one update with every obligation on the transition
    void step(int op) {
        Snap s; save(s); Log la = logi(); double ta = target(); int o = d->Order; bool ok = may(op);
        for (int i = 0; i < NS; i++) scr[i] = draw();
        unsigned sc[NS]; memcpy(sc, scr, sizeof sc);
        run(op, sc);
        double dp = 0; for (int i = 0; i < NOPS; i++) for (int j = 0; j < MAX_ORDER; j++) dp += m->Proposed[i][j] - M(s)->Proposed[i][j];
        if (dp == 0) { Snap n; save(n); if ((mask & P10) || rn.n(8) == 0) chk(P10, "refused-changes-nothing", quiet(s, op, false)); applicable(op, s, la, sc); return; }
        chk(P9, "not-applicable-is-refused", ok);
        bool acc = m->Accepted[op][o < MAX_ORDER ? o : 0] != M(s)->Accepted[op][o < MAX_ORDER ? o : 0];
        chk(P10, "counters-of-the-update", counted(s, op, o, acc));
        int u = used;
        if (!acc) { chk(P10, "rejected-changes-only-the-attempt-counter", quiet(s, op, true)); chk(P9, "rejected-keeps-the-state", same(la, logi()));
            chk(P9, "rejection-needs-a-draw", u > 0); double ur = urn_of(sc[u - 1]);
            load(s); sc[u - 1] = U0; run(op, sc); bool acc2 = m->Accepted[op][o] != M(s)->Accepted[op][o];
            chk(P9, "accepted-at-zero-draw", acc2 && used == u); if (!acc2) { load(s); return; }
            double p = threshold(op, ta, o); memcpy(scr, sc, sizeof sc); effect(op, la, logi()); inv();
            chk(P9, "rejected-only-above-the-ratio", ur > p * (1 - 1e-6) - 1e-9);
            Snap y; save(y); around(op, s, sc, u, p); load(y); reverse(op, la); load(y); if (rn.n(4) == 0) load(s);
            return; }
        double p = threshold(op, ta, o); effect(op, la, logi()); inv(); Snap y; save(y);
        around(op, s, sc, u, p); load(y); reverse(op, la); load(y);
    }
    double threshold(int op, double ta, int o) { double tb = target(); double den = density(op, o > 0 ? o : 1); double r = tb / ta * den * pc[REV[op]] / pc[op]; return r; }
    void around(int op, const Snap& s, unsigned* sc, int u, double p) {
        if (!(mask & (P9 | P10)) || u == 0) { if (u == 0) chk(P9, "sure-acceptance-needs-ratio-at-least-one", p > 1 - 1e-6); return; }
        int o = D(s)->Order; unsigned keep = sc[u - 1];
        if (p < 1 - 1e-6) {
            for (int k = 0; k < 2; k++) { double t = k ? p * (1 + 1e-6) + 2e-9 : p * (1 - 1e-6) - 2e-9; if (t < 0 || t >= 1) continue; load(s); sc[u - 1] = of_urn(t); run(op, sc);
                double dp = m->Proposed[op][o] - M(s)->Proposed[op][o]; bool acc = m->Accepted[op][o] != M(s)->Accepted[op][o];
                chk(P9, k ? "rejected-just-above-the-ratio" : "accepted-just-below-the-ratio", dp == 1 && used == u && acc == (k == 0)); if (k) chk(P10, "rejected-changes-only-the-attempt-counter", quiet(s, op, true)); }
        } else if (p > 1 + 1e-6) { load(s); sc[u - 1] = U1; run(op, sc); bool acc = m->Accepted[op][o] != M(s)->Accepted[op][o]; double dp = m->Proposed[op][o] - M(s)->Proposed[op][o]; chk(P9, "always-accepted-when-ratio-at-least-one", !(dp == 1 && !acc && used == u)); }
        sc[u - 1] = keep;
    }
    // the reverse update must be able to lead back (for reverses with at most one discrete choice)
    bool discrete(int r) { return r == DELETE_ || r == MOVEG || r == MOVEW || r == RECON || r == DEL || r == DELD || r == TO0 || r == FROMGG || r == FROMWW || r == W2G || r == G2W || r == C2D; }
    void reverse(int op, const Log& la) {
        if (!(mask & P9) || !discrete(REV[op])) return; if (op == BACK) { run_rev(op, nullptr); return; } run_rev(op, &la); }
    void run_rev(int op, const Log* la) { Snap y; save(y); int r = REV[op]; unsigned v[NS]; bool ok = false; int N = 2 * (d->Order > 0 ? d->Order : 1);
        for (int i = 0; i < N && !ok; i++) { for (int k = 0; k < NS; k++) v[k] = U0; for (int t = 0; t < 2 && !ok; t++) { v[0] = t ? U0 : (unsigned)i; load(y); script(v); try { (m->*OPF[r])(); } catch (std::exception&) { } ok = la ? same(*la, logi()) : d->Order == 0; } }
        chk(P9, "reverse-update-leads-back", ok); load(y); }
    // C09/C10: an update that applies is not refused (choices with at most one discrete draw are tried out)
    void applicable(int op, const Snap& s, const Log& la, const unsigned* sc) {
        int o = d->Order; bool e = d->Worm.Exist; bool must = false;
        if (op == TO0) { vertex a = d->Ver(0), b = d->Ver(1); must = !e && o == 1 && d->HasGammaGW == 0 && a->R == b->R && !a->nW->IsDelta; }
        if (op == BACK) must = !e && o == 0 && d->HasGammaGW == 0;
        if (op == FROMGG) must = o > 0 && !e && d->HasGammaGW == 1 && (*d->Vin)->R == d->UExt.R;
        if (op == FROMWW) must = o > 0 && !e && d->HasGammaGW == 2;
        if (op == W2G) must = o > 0 && !e && !d->MeasureGLine && d->HasGammaGW == 0;
        if (op == DELETE_ && e && o > 0 && d->Worm.Ira->nW == d->Worm.Masha->nW) { int k = mod20001((long long)d->Worm.Ira->nW->K.K + (d->Worm.Ira->Dir == IN ? 1 : -1) * d->Worm.K.K); must = k != 0 && !d->WHash[k < 0 ? -k : k]; }
        if (op == MOVEW && e && o > 0) { vertex v2 = d->Worm.Ira->nW->nVer[1 - d->Worm.Ira->Dir]; int k = mod20001((long long)d->Worm.Ira->nW->K.K + (d->Worm.Ira->Dir == IN ? 1 : -1) * d->Worm.K.K); must = v2 != d->Worm.Masha && k != 0 && !d->WHash[k < 0 ? -k : k]; }
        chk(P9, "applicable-update-is-proposed", !must);
        chk(P10, "applicable-update-is-proposed", !must);
    }
    // C10: one step of the chain runs exactly the selected update and advances the counter
    void hop() {
        int n = para.runGamma3 ? NOPS : 19; Snap s; save(s); unsigned v[NS], t[NS]; for (int i = 0; i < NS; i++) v[i] = draw(); if (rn.n(2)) { int i = rn.n(n); double c = 0; for (int j = 0; j <= i; j++) c += pc[j]; v[0] = of_urn(c + (rn.n(2) ? 1e-8 : -1e-8)); } else v[0] = rn.u32();
        double x = urn_of(v[0]); int op = -1; double c = 0; for (int i = 0; i < n; i++) { c += pc[i]; if (near(x, c, 1e-10)) return; if (op < 0 && x < c) op = i; } if (op < 0) op = n - 1;
        script(v); bool ab = false; try { m->Hop(1); } catch (std::exception&) { ab = true; } chk(P4, "no-update-aborts", !ab); int hu = (int)para.RNG._eng._M_p; Snap h; save(h);
        load(s); for (int i = 0; i + 1 < NS; i++) t[i] = v[i + 1]; t[NS - 1] = 5; int du = 0; if (OPF[op]) { script(t); try { (m->*OPF[op])(); } catch (std::exception&) { } du = (int)para.RNG._eng._M_p; }
        Snap k; save(k); if (du < NS - 1) { chk(P10, "step-runs-the-selected-update", h.d == k.d && h.m == k.m && hu == du + 1); chk(P10, "step-counter-advances-by-one", h.c == s.c + 1); }
        load(h); inv();
    }
    // what rebuilding must restore
    void spoil() {
        for (int i = 0; i < nV(); i++) { vertex v = d->Ver(i); v->nG[IN] = v->nG[OUT] = nullptr; v->nW = nullptr; v->Dir = rn.n(2); }
        for (int i = 0; i < nG(); i++) { d->G(i)->Weight = Complex(rn.u(), rn.u()); d->G(i)->IsGGGammaG = rn.n(2); }
        for (int i = 0; i < nW(); i++) { d->W(i)->Weight = Complex(rn.u(), rn.u()); d->W(i)->IsWWGammaW = rn.n(2); d->W(i)->IsWorm = rn.n(2); }
        d->Weight = Complex(rn.u(), rn.u()); d->Phase = Complex(0, 1); d->Worm.Weight = rn.u(); d->Order = rn.n(9); d->Lat = nullptr; d->GWeight = nullptr; d->WWeight = nullptr;
    }
    void clear() {
        for (int i = 0; i < 20; i++) { d->GHash[rn.n(2) ? rn.n(20001) : rn.n(2) * 20000] = true; d->WHash[rn.n(2) ? rn.n(10001) : rn.n(2) * 10000] = true; }
        d->ClearDiagram(); int on = 0; for (int k = 0; k <= 20000; k++) on += d->GHash[k]; for (int k = 0; k <= 10000; k++) on += d->WHash[k];
        chk(P4, "clearing-forgets-every-momentum", on == 0); chk(P4, "clearing-leaves-no-object", nG() == 0 && nW() == 0 && nV() == 0);
    }
    void chain(int steps) {
        inv();
        int pref[NOPS]; for (int i = 0; i < NOPS; i++) { int z = rn.n(6); pref[i] = z == 0 ? 1 : z < 4 ? 6 : 30; }
        std::vector<int> focus; if (const char* f = getenv("VC_FOCUS")) for (const char* c = f; *c; c++) if (*c > ' ' && *c - 'A' < NOPS && OPF[*c - 'A'] && (*c - 'A' < TOGG || para.runGamma3)) { focus.push_back(*c - 'A'); pref[*c - 'A'] = 30; if (REV[*c - 'A'] >= 0) pref[REV[*c - 'A']] = 20; }
        for (int i = 0; i < steps; i++) {
            int op;
            do op = rn.n(NOPS); while (!OPF[op] || (op >= TOGG && !para.runGamma3) || rn.n(30) >= pref[op]);
            if (!focus.empty() && rn.n(3) == 0) op = focus[rn.n((int)focus.size())];
            bool dl = false; for (int j = 0; j < nW(); j++) dl |= d->W(j)->IsDelta;
            if (dl && d->Order <= 2 && rn.n(2)) { static const int lead[] = {DEL, MOVEG, MOVEW, DELETE_, TO0, BACK, CREATE}; op = lead[rn.n(7)]; if (d->Order == 1 && rn.n(2)) op = d->Worm.Exist ? DELETE_ : TO0; }
            if (rn.n(3) == 0 && (mask & P10)) { hop(); continue; }
            if (rn.n(25) == 0 && d->HasGammaGW == 0 && d->Order > 0) { spoil(); d->Reset(para.Lat, *g.p, *w.p); chk(P5 | P8, "rebuild-uses-the-given-tables", d->Lat == &para.Lat && d->GWeight == g.p && d->WWeight == w.p); inv(); continue; }
            step(op); if (each) each(ctx);
        }
        // a chain of several steps advances the counter by as many
        if (mask & P10) { long long c = para.Counter; int k = rn.n(20); unsigned v[NS]; for (int i = 0; i < NS; i++) v[i] = rn.u32(); script(v); try { m->Hop(k); } catch (std::exception&) { } chk(P10, "step-counter-advances-by-one", para.Counter == c + k); inv(); }
        if (mask & P4) clear();
    }
};
static void chain_task(int mask) { unsigned long long seed = (unsigned)vc_int("seed", 0, 2147483647); Q q; Rn r; r.s = seed + 12345; for (int i = 0; i < 4; i++) r.next(); q.lx = 1 + r.n(3); q.ly = 1 + r.n(3); q.s = 1 + r.n(2); q.n = 1 + r.n(4); q.beta = 0.3 + r.u() * 3;
    int n = vc_int("steps", 1, 250); Chain c(mask, q, seed); c.chain(n); }
#endif
