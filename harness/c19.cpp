// C19: what is saved in a dictionary comes back unchanged
#include "vc.h"
#include <exception>
extern "C" void vc_refused();   // inside a handler: natively, pass on what is not a refusal
#include <new>
#include "utility/dictionary.h"
#include "module/parameter/parameter.h"
#include "module/diagram/diagram.h"
using namespace para;
template <class T> struct Raw { alignas(16) char raw[sizeof(T)]; T* p; Raw() : p((T*)raw) {} T* operator->() { return p; } T& operator*() { return *p; } };
static int nn(const char* n) { return vc_int(n, 0, 2147483647); }
static const int R[3] = {0, 311, 623};
struct Par : Raw<ParaMC> {
    Par() { new (&p->OrderReWeight) std::vector<real>(); new (&p->OrderTimeRatio) std::vector<real>(); new (&p->RNG) RandomFactory(1); }
    void any(int order, int extra) { p->Version = nn("Version"); p->Beta = vc_real_oc("Beta", 0, 1000); if (!vc_symbolic()) vc_assume(p->Beta > 1e-6); p->MaxTauBin = nn("MaxTauBin"); p->MaxTauBinTiny = nn("MaxTauBinTiny"); p->Order = order; p->NSublat = vc_int("NSublat", 1, 16); p->L[0] = vc_int("Lx", 1, 1024); p->L[1] = vc_int("Ly", 1, 1024);
        p->Counter = nn("Counter"); p->Toss = nn("Toss"); p->Sweep = nn("Sweep"); p->Seed = nn("Seed"); for (int k = 0; k < 3; k++) p->RNG._eng._M_x[R[k]] = nn("state"); p->RNG._eng._M_p = vc_int("position", 0, 624);
        p->WormSpaceReweight = vc_real("worm"); p->PolarReweight = vc_real("polar"); p->runGamma3 = vc_bool("gamma3"); p->GammaGReweight = vc_real("gammaG"); p->GammaWReweight = vc_real("gammaW"); p->PrinterTimer = nn("printer"); p->DiskWriterTimer = nn("disk"); p->MessageTimer = nn("message"); p->ReweightTimer = nn("reweight");
        for (int i = 0; i < order + 1 + extra; i++) { p->OrderReWeight.push_back(vc_real("order weight")); p->OrderTimeRatio.push_back(vc_real("order time")); } } };
static void para_io(int order, int extra) { Par a, b; a.any(order, extra); for (int i = 0; i < 2; i++) { b->OrderReWeight.push_back(vc_real("old weight")); b->OrderTimeRatio.push_back(vc_real("old time")); } bool refused = false; Dictionary d;
    try { d = a->ToDict(); b->FromDict(d); } catch (...) { vc_refused(); refused = true; }
    vc_assert("saved-parameters-are-accepted", !refused);
    vc_assert("version-temperature-and-time-bins", (b->Version == a->Version) & vc_eq(b->Beta, a->Beta) & vc_eq(b->T, 1 / a->Beta) & (b->MaxTauBin == a->MaxTauBin) & (b->MaxTauBinTiny == a->MaxTauBinTiny));
    vc_assert("lattice", (b->NSublat == a->NSublat) & (b->L[0] == a->L[0]) & (b->L[1] == a->L[1]) & (b->Lat.Size[0] == a->L[0]) & (b->Lat.Size[1] == a->L[1]) & (b->Lat.SublatVol == a->NSublat) & (b->Lat.Vol == a->L[0] * a->L[1]));
    vc_assert("counters", (b->Counter == a->Counter) & (b->Toss == a->Toss) & (b->Sweep == a->Sweep) & (b->Order == a->Order));
    vc_assert("reweighting-factors", vc_eq(b->WormSpaceReweight, a->WormSpaceReweight) & vc_eq(b->PolarReweight, a->PolarReweight) & vc_eq(b->GammaGReweight, a->GammaGReweight) & vc_eq(b->GammaWReweight, a->GammaWReweight) & (b->runGamma3 == a->runGamma3));
    vc_assert("timers", (b->PrinterTimer == a->PrinterTimer) & (b->DiskWriterTimer == a->DiskWriterTimer) & (b->MessageTimer == a->MessageTimer) & (b->ReweightTimer == a->ReweightTimer));
    int same = (b->OrderReWeight.size() == a->OrderReWeight.size()) & (b->OrderTimeRatio.size() == a->OrderTimeRatio.size()); vc_assert("one-factor-per-order", same);
    for (int i = 0; i < order + 1 + extra; i++) same &= vc_eq(b->OrderReWeight[i], a->OrderReWeight[i]) & vc_eq(b->OrderTimeRatio[i], a->OrderTimeRatio[i]); vc_assert("factor-of-each-order", same);
    int st = b->RNG._eng._M_p == a->RNG._eng._M_p; for (int k = 0; k < 3; k++) st &= b->RNG._eng._M_x[R[k]] == a->RNG._eng._M_x[R[k]]; vc_assert("generator-state", st); }
VC_TASK(para) { int o = vc_int("order", 0, 9), e = vc_int("extra factors", 0, 1); for (int k = 0; k < 10; k++) if (o == k) { if (e) para_io(k, 1); else para_io(k, 0); } }

// ---- diagrams
using namespace diag;
extern "C" void vc_bits(void* p, unsigned n);   // n flags with arbitrary contents at p (the momentum tables)
extern "C" void vc_leftover(void* p, unsigned bytes); // natively: arbitrary leftover bytes
static const int POOL = MAX_BUNDLE;
template <class T> static void pool(Bundle<T>& b, int shift, int live) { for (int i = 0; i < POOL; i++) { T* t = &b._component_bundle[(i * 7 + shift) % POOL]; b._component_name[i] = t; t->Name = i; } b._available_space = live; }
struct Dg : Raw<Diagram> { Dg(int shift, int ver, int line, int wave) { vc_leftover(p, sizeof(Diagram)); vc_bits(p->GHash, 2 * MAX_K + 1); vc_bits(p->WHash, MAX_K + 1); pool(p->Ver, shift, ver); pool(p->G, shift + 1, line); pool(p->W, shift + 2, wave); p->HasGammaGW = 0; } };
static int any_k(const char* n, int* used, int& nused, int sign) { int k = vc_int(n, -MAX_K, MAX_K); for (int j = 0; j < nused; j++) vc_assume(sign ? k != used[j] : (k != used[j]) & (k != -used[j])); used[nused++] = k; return k; }
static void any_vertex(vertex v) { v->R.Sublattice = vc_int("sublattice", 0, 15); v->R.Coordinate[0] = vc_int("x", 0, 1023); v->R.Coordinate[1] = vc_int("y", 0, 1023); v->Tau = vc_real("tau"); v->_spin[IN] = (spin)vc_int("spin in", 0, 1); v->_spin[OUT] = (spin)vc_int("spin out", 0, 1); }
static int same_vertex(vertex a, vertex b) { return (b->Name == a->Name) & (b->R.Sublattice == a->R.Sublattice) & (b->R.Coordinate[0] == a->R.Coordinate[0]) & (b->R.Coordinate[1] == a->R.Coordinate[1]) & vc_eq(b->Tau, a->Tau) & (b->_spin[IN] == a->_spin[IN]) & (b->_spin[OUT] == a->_spin[OUT]); }
template <class T> static int same_ends(T* a, T* b, Diagram& B) { return (b->nVer[IN] == B.Ver._component_name[a->nVer[IN]->Name]) & (b->nVer[OUT] == B.Ver._component_name[a->nVer[OUT]->Name]); }
static int same_line(gLine a, gLine b) { return (b->K.K == a->K.K) & (b->IsMeasure == a->IsMeasure) & (b->IsGGGammaG == a->IsGGGammaG); }
static int same_line(wLine a, wLine b) { return (b->K.K == a->K.K) & (b->IsMeasure == a->IsMeasure) & (b->IsDelta == a->IsDelta) & (b->IsWWGammaW == a->IsWWGammaW); }
static int mag(int k) { return k < 0 ? -k : k; }
static Diagram *SRC, *DST; static int FIXES;
static void same_diagram(Diagram& a, Diagram& b, int n, int measured, int worm) {
    vc_assert("number-of-lines-and-vertices", (b.Ver._available_space == 2 * n) & (b.G._available_space == 2 * n) & (b.W._available_space == n));
    for (int i = 0; i < 2 * n; i++) { vertex u = a.Ver._component_name[i], v = b.Ver._component_name[i]; vc_assert("vertex", same_vertex(u, v));
        gLine g = a.G._component_name[i], h = b.G._component_name[i]; vc_assert("line-ends", same_ends(g, h, b)); vc_assert("line", same_line(g, h)); vc_assert("momentum-of-line-recorded", b.GHash[h->K.K + MAX_K]); }
    for (int i = 0; i < n; i++) { wLine g = a.W._component_name[i], h = b.W._component_name[i]; vc_assert("interaction-ends", same_ends(g, h, b)); vc_assert("interaction", same_line(g, h)); vc_assert("momentum-of-interaction-recorded", b.WHash[mag(h->K.K)]); }
    int at = 0; for (int i = 0; i < 2 * n; i++) at |= (measured == i) & (b.MeasureGLine == true) & (b.GMeasure == b.G._component_name[i]);
    for (int i = 0; i < n; i++) at |= (measured == 2 * n + i) & (b.MeasureGLine == false) & (b.WMeasure == b.W._component_name[i]); vc_assert("measured-line", at);
    vc_assert("worm-exists", b.Worm.Exist == (worm != 0));
    if (worm) vc_assert("worm", (b.Worm.Ira == b.Ver._component_name[a.Worm.Ira->Name]) & (b.Worm.Masha == b.Ver._component_name[a.Worm.Masha->Name]) & (b.Worm.K.K == a.Worm.K.K) & (b.Worm.dSpin == a.Worm.dSpin));
    vc_assert("fermion-loop-sign", vc_eq(b.SignFermiLoop, a.SignFermiLoop)); }
static int N, MEASURED, WORM;
extern "C" void c19_clear(Diagram* d) { d->G._available_space = d->W._available_space = d->Ver._available_space = 0; }
extern "C" bool c19_fix(Diagram* d) { FIXES++; if (!SRC) return true; vc_assert("derived-fields-rebuilt-from-the-restored-diagram", d == DST); same_diagram(*SRC, *DST, N, MEASURED, WORM); return true; }
extern "C" bool __wrap__ZN4diag7Diagram10FixDiagramEv(Diagram* d) { return c19_fix(d); }
static void diagram_io(int n, int worm) { Dg a(3, 2 * n, 2 * n, n), b(8, vc_int("live before", 0, POOL), 0, 0); int ks[32], nk = 0, ws[16], nw = 0;
    N = n; WORM = worm; MEASURED = vc_int("measured line", 0, 3 * n - 1); FIXES = 0; SRC = a.p; DST = b.p; vertex* V = a->Ver._component_name;
    for (int i = 0; i < 2 * n; i++) { any_vertex(V[i]); gLine g = a->G._component_name[i]; g->nVer[IN] = V[i]; g->nVer[OUT] = V[2 * n - 1 - i]; g->K.K = any_k("k", ks, nk, 1); g->IsMeasure = MEASURED == i; g->IsGGGammaG = vc_bool("gamma"); }
    for (int i = 0; i < n; i++) { wLine w = a->W._component_name[i]; w->nVer[IN] = V[2 * i + 1]; w->nVer[OUT] = V[2 * i]; w->K.K = any_k("q", ws, nw, 0); w->IsMeasure = MEASURED == 2 * n + i; w->IsDelta = vc_bool("delta"); w->IsWWGammaW = vc_bool("gamma"); w->IsWorm = false; }
    a->SignFermiLoop = vc_real("sign"); a->Worm.Exist = worm != 0;
    if (worm) { a->Worm.Ira = V[2 * n - 1]; a->Worm.Masha = V[0]; a->Worm.K.K = vc_int("worm k", -MAX_K, MAX_K); a->Worm.dSpin = vc_int("worm spin", -1, 1); }
    bool refused = false; try { Dictionary d = a->ToDict(); b->FromDict(d); } catch (...) { vc_refused(); refused = true; }
    vc_assert("saved-diagram-is-accepted", !refused); vc_assert("rebuilt-once", FIXES == 1); same_diagram(*a.p, *b.p, n, MEASURED, worm); }
#define DIAGRAM(k) VC_TASK(diagram##k) { diagram_io(k, 0); } VC_TASK(diagram##k##worm) { diagram_io(k, 1); }
DIAGRAM(1) DIAGRAM(2) DIAGRAM(3) DIAGRAM(4) DIAGRAM(5) DIAGRAM(6) DIAGRAM(7) DIAGRAM(8) DIAGRAM(9)
// ends of lines and of the worm anywhere in the pool
static void ends(int i, int j) { Dg a(3, POOL, 1, 1), b(5, 0, 0, 0); SRC = DST = 0; vertex* V = a->Ver._component_name; for (int k = 0; k < POOL; k++) { V[k]->R = Site(k, {k, k}); V[k]->Tau = k; V[k]->_spin[IN] = UP; V[k]->_spin[OUT] = DOWN; }
    gLine g = a->G._component_name[0]; wLine w = a->W._component_name[0]; g->nVer[IN] = w->nVer[OUT] = a->Worm.Ira = V[i]; g->nVer[OUT] = w->nVer[IN] = a->Worm.Masha = V[j]; g->K.K = 5; w->K.K = -7; g->IsMeasure = true; g->IsGGGammaG = w->IsMeasure = w->IsDelta = w->IsWWGammaW = w->IsWorm = false;
    a->Worm.Exist = true; a->Worm.K.K = 2; a->Worm.dSpin = 1; a->SignFermiLoop = -1; bool refused = false; try { Dictionary d = a->ToDict(); b->FromDict(d); } catch (...) { vc_refused(); refused = true; }
    vc_assert("saved-diagram-is-accepted", !refused); gLine h = b->G._component_name[0]; wLine u = b->W._component_name[0]; vertex* X = b->Ver._component_name;
    vc_assert("line-ends", (h->nVer[IN] == X[i]) & (h->nVer[OUT] == X[j])); vc_assert("interaction-ends", (u->nVer[IN] == X[j]) & (u->nVer[OUT] == X[i])); vc_assert("worm-ends", (b->Worm.Ira == X[i]) & (b->Worm.Masha == X[j])); }
VC_TASK(ends_of_lines) { int o = vc_int("end", 0, POOL - 1), e = vc_int("other end", 0, 3); for (int k = 0; k < POOL; k++) if (o == k) { if (e == 0) ends(k, k); else if (e == 1) ends(k, (k + 1) % POOL); else if (e == 2) ends((k + 1) % POOL, k); else ends(k, POOL - 1 - k); } }

// ---- tables and histograms
#include "weights.h"
static unsigned ext(const char* n) { int k = vc_int(n, 1, 2147483647); return vc_symbolic() ? k : 1 + k % 3; }
static unsigned idx(const char* n, unsigned hi) { int k = vc_int(n, 0, 2147483646); if (!vc_symbolic()) k %= hi; vc_assume((unsigned)k < hi); return k; }
template <unsigned D> struct Shape { unsigned s[D]; long n; Shape() : n(1) { for (unsigned i = 0; i < D; i++) { s[i] = ext("shape"); n *= s[i]; vc_assume((n >= 1) & (n <= 2147483647L)); } } };
template <unsigned D> static void table(WeightArray<D>& a, const char* n, const Shape<D>& s, const char* key) { arr(a, n, (unsigned)s.n); a.IsAllocated = true; new (&a._Name) std::string(key); for (unsigned i = 0; i < D; i++) a._Shape[i] = s.s[i]; }
template <class T, class F> static bool refused(T& to, F from) { try { to.FromDict(from); } catch (...) { vc_refused(); return true; } return false; }
template <unsigned D> static void table_io() { Shape<D> s; Box<WeightArray<D> > a, b; table(*a, "saved", s, "SmoothT"); table(*b, "old", s, "SmoothT"); unsigned j = idx("j", s.n); Complex* d = b->_Data; Complex v = a->_Data[j]; vc_freeze(a->_Data, 0);
    bool no = refused(*b, a->ToDict()); vc_assert("saved-table-is-accepted", !no); vc_assert("every-element-is-restored", ceq(d[j], v)); vc_assert("storage-unchanged", (b->_Data == d) & ((long)b->_Size == s.n) & b->IsAllocated); vc_frozen("saved-table-unchanged", a->_Data); }
template <unsigned D> static void table_other() { Shape<D> s, t; int same = 1; for (unsigned i = 0; i < D; i++) same &= s.s[i] == t.s[i]; vc_assume(!same); Box<WeightArray<D> > a, b; table(*a, "saved", s, "SmoothT"); table(*b, "old", t, "SmoothT"); vc_freeze(b->_Data, 0);
    bool no = refused(*b, a->ToDict()); vc_assert("table-of-another-shape-is-refused", no); vc_frozen("table-unchanged", b->_Data); }
#define TABLE(D) VC_TASK(table##D) { table_io<D>(); } VC_TASK(table##D##_other) { table_other<D>(); }
TABLE(3) TABLE(4) TABLE(5) TABLE(6)
// histograms: the first dimension is the order
static const unsigned H = SMOOTH_T_SIZE + 1;
template <class T, unsigned D> static void hist(T& e, WeightArray<D>& a, const char* n, const Shape<D>& s) { table(a, n, s, "SmoothT"); e._NormAccu = vc_real("norm"); e._Norm = vc_real("factor"); e._WeightSize = (unsigned)s.n / s.s[0]; e._Beta = vc_real_oc("beta", 0, 100); }
template <class T> static int same_norm(T& a, T& b) { return vc_eq(b._Norm, a._Norm) & vc_eq(b._NormAccu, a._NormAccu); }
struct HBox : Box<WeightEstimator> { HBox(const char* n, const Shape<H>& s) { hist(*p, p->_WeightAccu, n, s); } };
#define HIST_OK(B) vc_assert("saved-statistics-are-accepted", !no); vc_assert("every-element-is-restored", ceq(d[j], v)); vc_assert("normalisation-is-restored", same_norm(A, B)); vc_assert("storage-unchanged", (B._WeightAccu._Data == d) & ((long)B._WeightAccu._Size == s.n) & (B._WeightSize == w)); vc_frozen("saved-statistics-unchanged", A._WeightAccu._Data);
VC_TASK(histogram) { Shape<H> s; HBox a("saved", s), b("old", s); unsigned j = idx("j", s.n), w = b->_WeightSize; WeightEstimator &A = *a, &B = *b; Complex* d = B._WeightAccu._Data; Complex v = A._WeightAccu._Data[j]; vc_freeze(A._WeightAccu._Data, 0); bool no = refused(B, A.ToDict()); HIST_OK(B) }
VC_TASK(histogram_other) { Shape<H> s, t; int same = 1; for (unsigned i = 1; i < H; i++) same &= s.s[i] == t.s[i]; vc_assume(!same); HBox a("saved", s), b("old", t); vc_freeze(b->_WeightAccu._Data, 0); bool no = refused(*b, a->ToDict()); vc_assert("statistics-of-another-shape-are-refused", no); vc_frozen("histogram-unchanged", b->_WeightAccu._Data); }
VC_TASK(histogram_longer) { Shape<H> s; Shape<H> t(s); t.n = t.s[0] = (vc_symbolic() ? vc_int("orders", 1, 2147483647) : s.s[0] + vc_int("more", 0, 2)); vc_assume(t.s[0] >= s.s[0]); for (unsigned i = 1; i < H; i++) t.n *= t.s[i]; vc_assume((t.n >= s.n) & (t.n <= 2147483647L)); HBox a("saved", s), b("old", t); unsigned j = idx("j", t.n); Complex* d = b->_WeightAccu._Data; Complex v = (long)j < s.n ? a->_WeightAccu._Data[j] : Complex(0, 0);
    bool no = refused(*b, a->ToDict()); vc_assert("statistics-of-fewer-orders-are-accepted", !no); vc_assert("saved-orders-restored-and-others-empty", ceq(d[j], v)); }
VC_TASK(sigma) { Shape<H> s; Box<SigmaClass> a, b; WeightEstimator &A = a->Estimator, &B = b->Estimator; hist(A, A._WeightAccu, "saved", s); hist(B, B._WeightAccu, "old", s); unsigned j = idx("j", s.n), w = B._WeightSize; Complex* d = B._WeightAccu._Data; Complex v = A._WeightAccu._Data[j]; vc_freeze(A._WeightAccu._Data, 0); bool no = refused(*b, a->ToDict()); HIST_OK(B) }
VC_TASK(polar) { Shape<H> s; Box<PolarClass> a, b; WeightEstimator &A = a->Estimator, &B = b->Estimator; hist(A, A._WeightAccu, "saved", s); hist(B, B._WeightAccu, "old", s); unsigned j = idx("j", s.n), w = B._WeightSize; Complex* d = B._WeightAccu._Data; Complex v = A._WeightAccu._Data[j]; vc_freeze(A._WeightAccu._Data, 0); bool no = refused(*b, a->ToDict()); HIST_OK(B) }
// vertex functions: the statistics, and the table
template <class T, unsigned D> static void gamma_io() { Shape<D> s; Box<T> a, b; T &A = *a, &B = *b; hist(A, A._WeightAccu, "saved", s); hist(B, B._WeightAccu, "old", s); unsigned j = idx("j", s.n), w = B._WeightSize; Complex* d = B._WeightAccu._Data; Complex v = A._WeightAccu._Data[j]; vc_freeze(A._WeightAccu._Data, 0); bool no = false; try { B.StatisFromDict(A.StatisToDict()); } catch (...) { vc_refused(); no = true; } HIST_OK(B) }
template <class T, unsigned D> static void gamma_other() { Shape<D> s, t; int same = 1; for (unsigned i = 1; i < D; i++) same &= s.s[i] == t.s[i]; vc_assume(!same); Box<T> a, b; hist(*a, a->_WeightAccu, "saved", s); hist(*b, b->_WeightAccu, "old", t); vc_freeze(b->_WeightAccu._Data, 0); bool no = false; try { b->StatisFromDict(a->StatisToDict()); } catch (...) { vc_refused(); no = true; } vc_assert("statistics-of-another-shape-are-refused", no); vc_frozen("histogram-unchanged", b->_WeightAccu._Data); }
VC_TASK(gammaG) { gamma_io<GammaGClass, 4>(); } VC_TASK(gammaG_other) { gamma_other<GammaGClass, 4>(); } VC_TASK(gammaW) { gamma_io<GammaWClass, 3>(); } VC_TASK(gammaW_other) { gamma_other<GammaWClass, 3>(); }
VC_TASK(gammaG_table) { Shape<4> s; Box<GammaGClass> a, b; table(a->_Weight, "saved", s, "SmoothT"); table(b->_Weight, "old", s, "SmoothT"); unsigned j = idx("j", s.n); Complex* d = b->_Weight._Data; Complex v = a->_Weight._Data[j]; bool no = false; try { b->WeightFromDict(a->WeightToDict()); } catch (...) { vc_refused(); no = true; } vc_assert("saved-table-is-accepted", !no); vc_assert("every-element-is-restored", ceq(d[j], v)); }
// propagators: G's table; W's smooth and instantaneous tables
VC_TASK(propagator_G) { Shape<SMOOTH_T_SIZE> s; Box<GClass> a, b; table(a->_SmoothTWeight, "saved", s, "SmoothT"); table(b->_SmoothTWeight, "old", s, "SmoothT"); unsigned j = idx("j", s.n); Complex* d = b->_SmoothTWeight._Data; Complex v = a->_SmoothTWeight._Data[j]; bool no = refused(*b, a->ToDict()); vc_assert("saved-table-is-accepted", !no); vc_assert("every-element-is-restored", ceq(d[j], v)); }
VC_TASK(propagator_W) { Shape<SMOOTH_T_SIZE> s; Shape<DELTA_T_SIZE> t; Box<WClass> a, b; table(a->_SmoothTWeight, "saved", s, "SmoothT"); table(b->_SmoothTWeight, "old", s, "SmoothT"); table(a->_DeltaTWeight, "saved delta", t, "DeltaT"); table(b->_DeltaTWeight, "old delta", t, "DeltaT"); unsigned j = idx("j", s.n), k = idx("k", t.n); Complex *d = b->_SmoothTWeight._Data, *e = b->_DeltaTWeight._Data; Complex v = a->_SmoothTWeight._Data[j], u = a->_DeltaTWeight._Data[k];
    bool no = refused(*b, a->ToDict()); vc_assert("saved-tables-are-accepted", !no); vc_assert("every-element-of-the-smooth-table-is-restored", ceq(d[j], v)); vc_assert("every-element-of-the-instantaneous-table-is-restored", ceq(e[k], u)); }
// ---- scalar estimators
#include "estimator/estimator.h"
static int same(double a, double b) { return vc_eq(a, b); }
static int same(const Complex& a, const Complex& b) { return ceq(a, b); }
static void draw(const char* n, double& x) { x = vc_real(n); }
static void draw(const char* n, Complex& x) { x.Re = vc_real(n); x.Im = vc_real(n); }
template <class T> static void estimator(Estimator<T>* p, const char* h, int n) { new (&p->_value) EstimateClass<T>(); new (&p->_accumulator) T(); p->_end = n; p->_interval = 1 + nn("interval") % 1000; p->_counter = 0; draw("sum", p->_accumulator); p->_norm = vc_real_oc("norm", 0, 1e12); if (!vc_symbolic()) vc_assume(p->_norm > 1e-6); p->_ratio = vc_real("ratio"); draw("mean", p->_value.Mean); draw("error", p->_value.Error); vc_array(h, p->_history, SIZE, sizeof(T)); }
template <class T> struct Est : Raw<Estimator<T> > { Est(const char* h) { new (&this->p->Name) std::string("name"); estimator(this->p, h, vc_int("entries", 0, SIZE)); } };
template <class T> static void estimator_io() { Est<T> a("saved"), b("old"); int n = a->_end, j = vc_int("j", 0, SIZE - 1); if (!vc_symbolic() && n) j %= n; T v = a->_history[j]; bool no = refused(*b, a->ToDict()); vc_assert("saved-estimator-is-accepted", !no); vc_assert("as-many-entries", (int)b->_end == n);
    vc_assert("sum-and-norm-are-restored", same(b->_accumulator, a->_accumulator) & vc_eq(b->_norm, a->_norm)); if (j < n) vc_assert("every-entry-is-restored", same(b->_history[j], v)); }
VC_TASK(estimator_real) { estimator_io<double>(); }
VC_TASK(estimator_complex) { estimator_io<Complex>(); }
// ---- which component goes under which key: bundles, the monitor, the weights (each component's own record is proved above)
#include "module/markov/markov_monitor.h"
static void mark(Estimator<double>* p, const char* name) { new (&p->Name) std::string(name); new (&p->_value) EstimateClass<double>(); p->_end = 0; p->_interval = 1; p->_counter = 0; p->_accumulator = vc_real("sum"); p->_norm = vc_real_oc("norm", 0, 1e12); p->_ratio = 1; }
static int marked(Estimator<double>& a, Estimator<double>& b) { return vc_eq(b._accumulator, a._accumulator) & vc_eq(b._norm, a._norm) & (b._end == 0); }
static const char* ORDER[10] = {"Order0", "Order1", "Order2", "Order3", "Order4", "Order5", "Order6", "Order7", "Order8", "Order9"};
typedef EstimatorBundle<double> EB;
static Estimator<double>* room(EB* b) { Estimator<double>* m = (Estimator<double>*)::operator new(10 * sizeof(Estimator<double>)); b->_EstimatorVector._M_impl._M_start = b->_EstimatorVector._M_impl._M_finish = m; b->_EstimatorVector._M_impl._M_end_of_storage = m + 10; return m; }
extern "C" void c19_add(EB* b) { std::vector<Estimator<double> >& v = b->_EstimatorVector; int n = v._M_impl._M_finish - v._M_impl._M_start; mark(v._M_impl._M_finish, ORDER[n]); v._M_impl._M_finish++; }
static void fill(EB* b, int n) { room(b); for (int i = 0; i < n; i++) c19_add(b); }
static void bundle_io(int n) { Raw<EB> a, b; fill(a.p, n); fill(b.p, n); bool allow = vc_bool("allow failure"); Estimator<double> *x = a->_EstimatorVector._M_impl._M_start, *y = b->_EstimatorVector._M_impl._M_start; bool no = false; try { b->FromDict(a->ToDict(), allow); } catch (...) { vc_refused(); no = true; }
    vc_assert("saved-bundle-is-accepted", !no); for (int i = 0; i < n; i++) vc_assert("estimator-of-each-name", marked(x[i], y[i])); }
VC_TASK(bundle) { int n = vc_int("estimators", 0, 10); for (int k = 0; k <= 10; k++) if (n == k) bundle_io(k); }
// a record without some of the names: refused, or (when allowed) those are left alone
static void bundle_fewer(int n, int m) { Raw<EB> a, b; fill(a.p, n); fill(b.p, n); Estimator<double> *x = a->_EstimatorVector._M_impl._M_start, *y = b->_EstimatorVector._M_impl._M_start; new (&x[m].Name) std::string("Other"); double s = y[m]._accumulator, t = y[m]._norm; bool no = false; try { b->FromDict(a->ToDict(), true); } catch (...) { vc_refused(); no = true; }
    vc_assert("missing-names-are-allowed", !no); for (int i = 0; i < n; i++) if (i != m) vc_assert("estimator-of-each-name", marked(x[i], y[i])); vc_assert("missing-name-left-alone", vc_eq(y[m]._accumulator, s) & vc_eq(y[m]._norm, t));
    no = false; try { b->FromDict(a->ToDict(), false); } catch (...) { vc_refused(); no = true; } vc_assert("missing-names-are-refused", no); }
VC_TASK(bundle_fewer) { int n = vc_int("estimators", 1, 5), m = vc_int("missing", 0, 4); for (int k = 1; k <= 5; k++) for (int j = 0; j < k; j++) if ((n == k) & (m == j)) bundle_fewer(k, j); }
struct Mon : Raw<mc::MarkovMonitor> { Mon(int n) { if (vc_symbolic()) { fill(&p->WormEstimator, n); fill(&p->PhyEstimator, n); mark(&p->SigmaEstimator, "s"); mark(&p->PolarEstimator, "p"); mark(&p->GammaGEstimator, "g"); mark(&p->GammaWEstimator, "w"); }
    else { new (p) mc::MarkovMonitor(); for (int i = 0; i < n; i++) { p->WormEstimator.AddEstimator(ORDER[i]); mark(&p->WormEstimator[i], ORDER[i]); p->PhyEstimator.AddEstimator(ORDER[i]); mark(&p->PhyEstimator[i], ORDER[i]); } mark(&p->SigmaEstimator, "s"); mark(&p->PolarEstimator, "p"); mark(&p->GammaGEstimator, "g"); mark(&p->GammaWEstimator, "w"); } } };
static void monitor_io(int order) { Mon a(order + 1), b(0); Raw<ParaMC> q; Raw<Diagram> d; Raw<weight::Weight> w; q->Order = order; q->runGamma3 = vc_bool("gamma3"); a->Para = q.p; bool no = false; try { b->FromDict(a->ToDict(), *q, *d, *w); } catch (...) { vc_refused(); no = true; }
    vc_assert("saved-monitor-is-accepted", !no); vc_assert("attached-to-the-simulation", (b->Para == q.p) & (b->Diag == d.p) & (b->Weight == w.p));
    vc_assert("one-estimator-per-order", (b->WormEstimator.HowMany() == order + 1) & (b->PhyEstimator.HowMany() == order + 1));
    for (int i = 0; i <= order; i++) { vc_assert("worm-estimator-of-each-order", marked(a->WormEstimator[i], b->WormEstimator[i])); vc_assert("physical-estimator-of-each-order", marked(a->PhyEstimator[i], b->PhyEstimator[i])); }
    vc_assert("self-energy-and-polarisation", marked(a->SigmaEstimator, b->SigmaEstimator) & marked(a->PolarEstimator, b->PolarEstimator)); if (q->runGamma3) vc_assert("vertex-functions", marked(a->GammaGEstimator, b->GammaGEstimator) & marked(a->GammaWEstimator, b->GammaWEstimator)); }
VC_TASK(monitor) { int o = vc_int("order", 0, 9); for (int k = 0; k < 10; k++) if (o == k) monitor_io(k); }
#include "module/weight/weight.h"
static Shape<SMOOTH_T_SIZE>* TS; static Shape<DELTA_T_SIZE>* TD; static Shape<H>* TH;
extern "C" void c19_alloc_gw(weight::Weight* w) { GClass* g = (GClass*)::operator new(sizeof(GClass)); WClass* v = (WClass*)::operator new(sizeof(WClass)); table(g->_SmoothTWeight, "G", *TS, "SmoothT"); table(v->_SmoothTWeight, "W", *TS, "SmoothT"); table(v->_DeltaTWeight, "delta", *TD, "DeltaT"); w->G = g; w->W = v; }
extern "C" void c19_alloc_sp(weight::Weight* w) { SigmaClass* g = (SigmaClass*)::operator new(sizeof(SigmaClass)); PolarClass* v = (PolarClass*)::operator new(sizeof(PolarClass)); hist(g->Estimator, g->Estimator._WeightAccu, "sigma", *TH); hist(v->Estimator, v->Estimator._WeightAccu, "polar", *TH); w->Sigma = g; w->Polar = v; }
static void some(Complex* d, unsigned n, const char* what) { double x = vc_real(what); for (unsigned i = 0; i < n; i++) d[i] = Complex(x + i, x * i); }
struct Wt : Raw<weight::Weight> { Wt() { p->_IsAllSymmetric = false; p->G = 0; p->W = 0; p->Sigma = 0; p->Polar = 0; p->GammaG = 0; p->GammaW = 0; new (&p->_BoseBasis) std::vector<basis>(); new (&p->_FermiBasis) std::vector<basis>(); } };
static double BASIS[2];
struct Wpar : Par { Wpar() { p->Beta = 1; p->MaxTauBin = 2; p->MaxTauBinTiny = 2; p->Order = 2; p->NSublat = 1; p->L[0] = p->L[1] = 2; if (vc_symbolic()) { p->Lat.Vol = 4; p->Lat.SublatVol = 1; } else p->Lat.Initialize(p->L, 1); Dictionary b; b["Beta"] = 1.0; b["MaxTauBin"] = 2.0; b["Number"] = 1.0; std::vector<std::vector<double> > v(1); BASIS[0] = vc_real("basis"); BASIS[1] = vc_real("basis"); v[0].push_back(BASIS[0]); v[0].push_back(BASIS[1]); b["Basis"] = v; Python::ghost_file() = b.ToPy(); } };
#define WEIGHTS(flag) bool no = false; try { b->FromDict(a->ToDict(flag), flag, *q); } catch (...) { vc_refused(); no = true; } vc_assert("saved-weights-are-accepted", !no);
VC_TASK(weights_GW) { Wpar q; Shape<SMOOTH_T_SIZE> s; Shape<DELTA_T_SIZE> t; TS = &s; TD = &t; Wt a, b; if (vc_symbolic()) c19_alloc_gw(a.p); else { a->_AllocateGW(*q); some(a->G->_SmoothTWeight._Data, a->G->_SmoothTWeight._Size, "G"); some(a->W->_SmoothTWeight._Data, a->W->_SmoothTWeight._Size, "W"); some(a->W->_DeltaTWeight._Data, a->W->_DeltaTWeight._Size, "delta"); s.n = a->G->_SmoothTWeight._Size; t.n = a->W->_DeltaTWeight._Size; }
    unsigned j = idx("j", s.n), k = idx("k", t.n); Complex g = a->G->_SmoothTWeight._Data[j], w = a->W->_SmoothTWeight._Data[j], e = a->W->_DeltaTWeight._Data[k]; WEIGHTS(weight::GW)
    vc_assert("propagator-is-restored", ceq(b->G->_SmoothTWeight._Data[j], g)); vc_assert("interaction-is-restored", ceq(b->W->_SmoothTWeight._Data[j], w) & ceq(b->W->_DeltaTWeight._Data[k], e)); vc_assert("basis-is-read", (b->_BoseBasis.size() == 1) & (b->_FermiBasis.size() == 1)); vc_assert("basis-is-the-one-stored", vc_eq(b->_BoseBasis[0][1], BASIS[1]) & vc_eq(b->_FermiBasis[0][0], BASIS[0])); vc_assert("statistics-not-touched", (b->Sigma == 0) & (b->Polar == 0)); }
VC_TASK(weights_SigmaPolar) { Wpar q; Shape<H> s; TH = &s; Wt a, b; if (vc_symbolic()) c19_alloc_sp(a.p); else { a->_AllocateSigmaPolar(*q); some(a->Sigma->Estimator._WeightAccu._Data, a->Sigma->Estimator._WeightAccu._Size, "sigma"); some(a->Polar->Estimator._WeightAccu._Data, a->Polar->Estimator._WeightAccu._Size, "polar"); a->Sigma->Estimator._NormAccu = vc_real("norm"); a->Polar->Estimator._NormAccu = vc_real("norm"); s.n = a->Sigma->Estimator._WeightAccu._Size; }
    unsigned j = idx("j", s.n); Complex g = a->Sigma->Estimator._WeightAccu._Data[j], w = a->Polar->Estimator._WeightAccu._Data[j]; WEIGHTS(weight::SigmaPolar)
    vc_assert("self-energy-is-restored", ceq(b->Sigma->Estimator._WeightAccu._Data[j], g) & same_norm(a->Sigma->Estimator, b->Sigma->Estimator)); vc_assert("polarisation-is-restored", ceq(b->Polar->Estimator._WeightAccu._Data[j], w) & same_norm(a->Polar->Estimator, b->Polar->Estimator)); vc_assert("propagators-not-touched", (b->G == 0) & (b->W == 0)); }
template <class T, unsigned D> struct Gam : Box<T> { Gam(const char* n, const Shape<D>& s) { hist(*this->p, this->p->_WeightAccu, n, s); } };
VC_TASK(weights_GammaStatis) { Wpar q; Shape<4> s; Shape<3> t; Gam<GammaGClass, 4> g("saved G", s), h("old G", s); Gam<GammaWClass, 3> w("saved W", t), v("old W", t); Wt a, b; a->GammaG = g.p; a->GammaW = w.p; b->GammaG = h.p; b->GammaW = v.p; unsigned j = idx("j", s.n), k = idx("k", t.n); Complex x = g->_WeightAccu._Data[j], y = w->_WeightAccu._Data[k]; WEIGHTS(weight::GammaGWStatis)
    vc_assert("fermion-vertex-function-is-restored", ceq(h->_WeightAccu._Data[j], x) & same_norm(*g, *h)); vc_assert("boson-vertex-function-is-restored", ceq(v->_WeightAccu._Data[k], y) & same_norm(*w, *v)); vc_assert("propagators-not-touched", (b->G == 0) & (b->W == 0) & (b->Sigma == 0) & (b->Polar == 0)); }
