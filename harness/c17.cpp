// C17: the measurements of one diagram, executable: a random chain with the monitor called
// after every update; the statistics must grow by exactly the contribution of the diagram
#include "markov.h"
#include "module/markov/markov_monitor.h"
struct Stat { Box<SigmaClass> s; Box<PolarClass> p; GammaGBox gg; GammaWBox ww;
    static void acc(WeightEstimator& e, unsigned w, unsigned m) { arr(e._WeightAccu, "accu", m * w); e._WeightAccu.IsAllocated = true; e._WeightSize = w; e._NormAccu = 1; e._Norm = 1; e._Beta = 1; }
    Stat(Chain& c) : gg(c.q, c.lat), ww(c.q, c.lat) { new (&s->_Map) IndexMapSPIN2(c.q.beta, c.q.n, c.lat, TauAntiSymmetric); acc(s->Estimator, s->_Map._SizeSmoothT, c.para.Order); new (&p->_Map) IndexMapSPIN4(c.q.beta, c.q.n, c.lat, TauSymmetric); acc(p->Estimator, p->_Map._SizeSmoothT, c.para.Order); gg->_NormAccu = ww->_NormAccu = 1; zero(s->Estimator._WeightAccu); zero(p->Estimator._WeightAccu); zero(gg->_WeightAccu); zero(ww->_WeightAccu); }
    template <class A> static void zero(A& a) { for (unsigned i = 0; i < a._Size; i++) a._Data[i] = Complex(0, 0); }
    template <class A> static bool eqa(A& a, A& b) { for (unsigned i = 0; i < a._Size; i++) if (!cnear(a._Data[i], b._Data[i])) return false; return true; } };
struct Mon { Chain& c; MarkovMonitor m; Stat r, e; double cnt[2][12], sec[4]; bool gamma;
    Mon(Chain& c_) : c(c_), r(c_), e(c_), gamma(c_.para.runGamma3) { c.wt->Sigma = r.s.p; c.wt->Polar = r.p.p; c.wt->GammaG = r.gg.p; c.wt->GammaW = r.ww.p; for (int i = 0; i <= c.para.Order; i++) { m.WormEstimator.AddEstimator("w" + std::to_string(i)); m.PhyEstimator.AddEstimator("p" + std::to_string(i)); } m.Reset(c.para, *c.d, *c.wt); m.WormEstimator.ClearStatistics(); m.PhyEstimator.ClearStatistics(); m.SigmaEstimator.ClearStatistics(); m.PolarEstimator.ClearStatistics(); m.GammaGEstimator.ClearStatistics(); m.GammaWEstimator.ClearStatistics(); memset(cnt, 0, sizeof cnt); memset(sec, 0, sizeof sec); start(); }
    double base[2][12], sbase[4];
    Estimator<real>& S(int i) { return i == 0 ? m.SigmaEstimator : i == 1 ? m.PolarEstimator : i == 2 ? m.GammaGEstimator : m.GammaWEstimator; }
    void start() { for (int o = 0; o <= c.para.Order; o++) { base[0][o] = m.WormEstimator[o]._accumulator; base[1][o] = m.PhyEstimator[o]._accumulator; } for (int i = 0; i < 4; i++) sbase[i] = S(i)._accumulator; }
    void check(bool worm) {
        for (int o = 0; o <= c.para.Order; o++) { vc_assert("counted-among-worm-or-physical-configurations", near(m.WormEstimator[o]._accumulator, base[0][o] + cnt[0][o]) & near(m.PhyEstimator[o]._accumulator, base[1][o] + cnt[1][o])); }
        if (!worm) for (int i = 0; i < 4; i++) vc_assert("sector-counter-of-the-diagram-once", near(S(i)._accumulator, sbase[i] + sec[i])); else for (int i = 0; i < 4; i++) sec[i] = S(i)._accumulator - sbase[i];
        vc_assert("normalisation-of-the-measured-sector-once", near(r.s->Estimator._NormAccu, e.s->Estimator._NormAccu) & near(r.p->Estimator._NormAccu, e.p->Estimator._NormAccu) & near(r.gg->_NormAccu, e.gg->_NormAccu) & near(r.ww->_NormAccu, e.ww->_NormAccu));
        vc_assert("self-energy-statistics", Stat::eqa(r.s->Estimator._WeightAccu, e.s->Estimator._WeightAccu)); vc_assert("polarisation-statistics", Stat::eqa(r.p->Estimator._WeightAccu, e.p->Estimator._WeightAccu));
        vc_assert("vertex-function-statistics", Stat::eqa(r.gg->_WeightAccu, e.gg->_WeightAccu) && Stat::eqa(r.ww->_WeightAccu, e.ww->_WeightAccu)); }
    void step() { Diagram* d = c.d; int o = d->Order; bool worm = d->Worm.Exist, g = d->MeasureGLine, ga = d->HasGammaGW != 0; double w = 1.0 / c.para.OrderReWeight[o]; Chain::Snap s; c.save(s);
        cnt[worm ? 0 : 1][o]++;
        if (!worm) { if (o == 0) { if (g) { e.s->Estimator._NormAccu += w; if (gamma) e.gg->_NormAccu += w; } else { e.p->Estimator._NormAccu += w; if (gamma) e.ww->_NormAccu += w; } }
            else { sec[(ga ? 2 : 0) + (g ? 0 : 1)]++; Complex f(d->Phase.Re * w, d->Phase.Im * w); ExtPoint& x = d->UExt;
                if (g) { vertex a = d->GMeasure->nVer[IN], b = d->GMeasure->nVer[OUT]; if (!ga) e.s->Measure(b->R, a->R, b->Tau, a->Tau, b->_spin[IN], a->_spin[OUT], o, f); else { double h = c.para.GammaGReweight; e.gg->Measure(b->R, a->R, x.R, b->Tau, a->Tau, x.Tau, b->_spin[IN], a->_spin[OUT], x.Spin, Complex(f.Re / h, f.Im / h)); } }
                else { vertex a = d->WMeasure->nVer[IN], b = d->WMeasure->nVer[OUT]; if (!ga) e.p->Measure(b->R, a->R, b->Tau, a->Tau, b->_spin, a->_spin, o, Complex(-f.Re, -f.Im)); else { double h = c.para.GammaWReweight; e.ww->Measure(a->R, b->R, x.R, a->Tau, b->Tau, x.Tau, a->_spin, b->_spin, x.Spin, Complex(f.Re / h, f.Im / h)); } } } }
        bool ab = false; try { m.Measure(); } catch (std::exception&) { ab = true; } vc_assert("measuring-does-not-abort", !ab);
        Chain::Snap t; c.save(t); vc_assert("diagram-not-changed", s.d == t.d); vc_assert("parameters-not-changed", s.m == t.m && s.c == t.c); check(worm); }
    void squeeze() { double f = 1.5; m.SqueezeStatistics(f);
        e.s->Estimator.SqueezeStatistics(f); e.p->Estimator.SqueezeStatistics(f); if (gamma) { e.gg->SqueezeStatistics(f); e.ww->SqueezeStatistics(f); }
        for (int o = 0; o <= c.para.Order; o++) for (int k = 0; k < 2; k++) { cnt[k][o] /= f; base[k][o] /= f; } for (int i = 0; i < (gamma ? 4 : 2); i++) { sec[i] /= f; sbase[i] /= f; } check(false); }
};
static void each(void* p) { Mon* m = (Mon*)p; if (m->c.rn.n(40) == 0) m->squeeze(); m->step(); }
VC_TASK(monitor) { unsigned long long seed = (unsigned)vc_int("seed", 0, 2147483647); Q q; Rn r; r.s = seed + 12345; for (int i = 0; i < 4; i++) r.next(); q.lx = 1 + r.n(3); q.ly = 1 + r.n(3); q.s = 1 + r.n(2); q.n = 1 + r.n(4); q.beta = 0.3 + r.u() * 3;
    int n = vc_int("steps", 1, 250); Chain c(0, q, seed); Mon m(c); c.each = each; c.ctx = &m; each(&m); c.chain(n); }
