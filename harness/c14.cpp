// C14: histogram estimators accumulate exactly what is measured
#include "weights.h"
static int cx(const Complex& a, double re, double im) { return vc_eq(a.Re, re) & vc_eq(a.Im, im); }
static unsigned len(const char* n) { int k = vc_int(n, 1, 2147483647); return vc_symbolic() ? k : 1 + k % 40; }
static unsigned idx(const char* n, unsigned hi) { int k = vc_int(n, 0, 2147483646); if (!vc_symbolic()) k %= hi; vc_assume((unsigned)k < hi); return k; }
static Complex cval(const char* n) { return Complex(vc_real(n), vc_real(n)); }
template <unsigned D> struct ABox : Box<WeightArray<D> > { unsigned n; ABox(unsigned n_) : n(n_) { arr(*this->p, "data", n); this->p->IsAllocated = true; for (unsigned i = 0; i < D; i++) this->p->_Shape[i] = vc_int("shape", 1, 2147483647); }
    void same(Complex* d) { vc_assert("shape-and-storage-unchanged", (this->p->_Data == d) & (this->p->_Size == n) & this->p->IsAllocated); } };
#define EACH(NAME) VC_TASK(NAME##_3) { NAME<3>(); } VC_TASK(NAME##_4) { NAME<4>(); } VC_TASK(NAME##_5) { NAME<5>(); } VC_TASK(NAME##_6) { NAME<6>(); } VC_TASK(NAME##_7) { NAME<7>(); }
#define START ABox<D> a(len("n")); unsigned j = idx("j", a.n); Complex* d = a->_Data; Complex o = d[j];
template <unsigned D> static void assign_value() { START Complex c = cval("c"); a->Assign(c); vc_assert("every-element-is-the-value", ceq(d[j], c)); a.same(d); }
EACH(assign_value)
template <unsigned D> static void assign_array() { START Complex* s = (Complex*)vc_carray("source", a.n); Complex v = s[j]; vc_freeze(s, 0); a->Assign(s); vc_assert("every-element-is-the-source-element", ceq(d[j], v)); vc_frozen("source-unchanged", s); a.same(d); }
EACH(assign_array)
template <unsigned D> static void assign_part() { START unsigned m = idx("m", a.n) + 1; vc_assume(j < m); Complex* s = (Complex*)vc_carray("source", m); Complex v = s[j]; vc_freeze(s, 0); a->Assign(s, m); vc_assert("copied-element-is-the-source-element", ceq(d[j], v)); vc_frozen("source-unchanged", s); a.same(d); }
EACH(assign_part)
template <unsigned D> static void assign_rest() { START unsigned m = idx("m", a.n); vc_assume((j >= m) & (m >= 1)); Complex* s = (Complex*)vc_carray("source", m); a->Assign(s, m); vc_assert("elements-beyond-the-copied-ones-unchanged", ceq(d[j], o)); a.same(d); }
EACH(assign_rest)
template <unsigned D> static void op_real() { START double r = vc_real("r"); int k = vc_int("op", 0, 3);
    if (k == 0) { *a += r; vc_assert("add-real", cx(d[j], o.Re + r, o.Im)); } else if (k == 1) { *a -= r; vc_assert("subtract-real", cx(d[j], o.Re - r, o.Im)); }
    else if (k == 2) { *a *= r; vc_assert("multiply-real", cx(d[j], o.Re * r, o.Im * r)); } else { vc_assume((r > 1e-6) | (r < -1e-6)); *a /= r; vc_assert("divide-real", cx(d[j], o.Re / r, o.Im / r)); } a.same(d); }
EACH(op_real)
template <unsigned D> static void op_complex() { START Complex c = cval("c"); int k = vc_int("op", 0, 2);
    if (k == 0) { *a += c; vc_assert("add", cx(d[j], o.Re + c.Re, o.Im + c.Im)); } else if (k == 1) { *a -= c; vc_assert("subtract", cx(d[j], o.Re - c.Re, o.Im - c.Im)); }
    else { *a *= c; vc_assert("multiply", cx(d[j], o.Re * c.Re - o.Im * c.Im, o.Re * c.Im + o.Im * c.Re)); } a.same(d); }
EACH(op_complex)
template <unsigned D> static void allocate() { Box<WeightArray<D> > a; new (a.p) WeightArray<D>(); unsigned s[D]; long n = 1; for (unsigned i = 0; i < D; i++) { int k = vc_int("shape", 1, 2147483647); s[i] = vc_symbolic() ? k : 1 + k % 3; n *= s[i]; vc_assume((n >= 1) & (n <= 2147483647L)); }
    a->Allocate(s, "name"); vc_assert("size-is-the-product-of-the-shape", (long)a->GetSize() == n); int ok = a->IsAllocate(); for (unsigned i = 0; i < D; i++) ok &= a->GetShape()[i] == s[i]; vc_assert("allocated-with-the-shape", ok & (a->GetDim() == D));
    unsigned j = idx("j", n); vc_assert("fresh-array-is-zero", cx((*a.p)(j), 0, 0)); vc_assert("look-up-is-the-element", &(*a.p)[j] == a->Data() + j);
    if (!vc_symbolic()) a->~WeightArray<D>(); }
EACH(allocate)
// ---- the estimator of one histogram: MaxOrder blocks of W bins
struct EBox : Box<WeightEstimator> { unsigned W, M; EBox(unsigned w) : W(w) { make(*p, w, M); }
    static void make(WeightEstimator& e, unsigned w, unsigned& m) { m = vc_int("MaxOrder", 1, 1000); if (!vc_symbolic()) m = 1 + m % 5; vc_assume((long)m * (long)w <= 2147483647L); arr(e._WeightAccu, "accu", m * w); e._WeightAccu.IsAllocated = true; e._WeightSize = w; e._NormAccu = vc_real("norm"); e._Norm = vc_real("factor"); e._Beta = vc_real_oc("beta", 0, 100); } };
static int order(const char* n, unsigned M) { int o = vc_int(n, 1, 1000); if (!vc_symbolic()) o = 1 + o % M; vc_assume(o <= (int)M); return o; }
struct Keep { double n, f; unsigned s; Complex* d; Keep(WeightEstimator& e) : n(e._NormAccu), f(e._Norm), s(e._WeightSize), d(e._WeightAccu._Data) {} void check(WeightEstimator& e) { vc_assert("normalisation-unchanged", vc_eq(e._NormAccu, n) & vc_eq(e._Norm, f) & (e._WeightSize == s) & (e._WeightAccu._Data == d)); } };
VC_TASK(measure) { EBox e(len("bins")); int o = order("order", e.M), o2 = order("other order", e.M); unsigned i = idx("bin", e.W), i2 = idx("other bin", e.W); Complex w = cval("weight"); unsigned k = (o - 1) * e.W + i; Complex* d = e->_WeightAccu._Data; Complex old = d[k]; Keep q(*e);
    e->Measure(i, o, w); vc_assert("measured-bin-grows-by-the-weight", cx(d[k], old.Re + w.Re, old.Im + w.Im)); q.check(*e); }
VC_TASK(measure_others) { EBox e(len("bins")); int o = order("order", e.M), o2 = order("other order", e.M); unsigned i = idx("bin", e.W), i2 = idx("other bin", e.W); vc_assume((o != o2) | (i != i2)); Complex w = cval("weight"); Complex* d = e->_WeightAccu._Data; unsigned k = (o2 - 1) * e.W + i2; Complex old = d[k];
    e->Measure(i, o, w); vc_assert("other-orders-and-bins-unchanged", ceq(d[k], old)); }
VC_TASK(norm) { EBox e(len("bins")); unsigned j = idx("j", e.W); Complex* d = e->_WeightAccu._Data; vc_freeze(d, 0); double w = vc_real("weight"), n = e->_NormAccu; e->MeasureNorm(w); vc_assert("normalisation-grows-by-the-weight", vc_eq(e->_NormAccu, n + w)); vc_frozen("histogram-unchanged", d); }
VC_TASK(clear) { EBox e(len("bins")); unsigned j = idx("j", e.W * e.M); Complex* d = e->_WeightAccu._Data; e->ClearStatistics(); vc_assert("every-bin-is-zero", cx(d[j], 0, 0)); vc_assert("normalisation-is-zero", vc_eq(e->_NormAccu, 0)); }
VC_TASK(squeeze) { EBox e(len("bins")); unsigned j = idx("j", e.W * e.M); Complex* d = e->_WeightAccu._Data; Complex o = d[j]; double f = vc_real_oc("squeeze", 1e-3, 1e6), n = e->_NormAccu; e->SqueezeStatistics(f);
    vc_assert("every-bin-is-divided-by-the-factor", cx(d[j], o.Re / f, o.Im / f)); vc_assert("normalisation-is-divided-by-the-factor", vc_eq(e->_NormAccu, n / f)); }
// ---- through the self-energy and the polarisation
template <class T> struct MBox : Box<T> { unsigned M; };
struct Where { Site a, b; double t, u; Where(Q q) : a(site("rin", q)), b(site("rout", q)), t(tim("tin", q)), u(tim("tout", q)) {} };
VC_TASK(sigma) { Q q = qdom(); Lattice l(V(q.lx, q.ly), q.s); int anti = vc_bool("anti"); Box<SigmaClass> s; new (&s->_Map) IndexMapSPIN2(q.beta, q.n, l, anti ? TauAntiSymmetric : TauSymmetric); unsigned M, W = s->_Map._SizeSmoothT; EBox::make(s->Estimator, W, M);
    Where x(q); spin p = sp("sin"), r = sp("sout"); int o = order("order", M), o2 = order("other order", M); Complex w = cval("weight"); unsigned i = s->_Map.GetIndex(p, r, x.a, x.b, x.t, x.u), k = (o - 1) * W + i; Complex* d = s->Estimator._WeightAccu._Data; Complex old = d[k]; Keep z(s->Estimator);
    s->Measure(x.a, x.b, x.t, x.u, p, r, o, w); double f = x.u > x.t ? 1 : (anti ? -1 : 1);
    vc_assert("measured-bin-grows-by-weight-times-time-symmetry-sign", cx(d[k], old.Re + w.Re * f, old.Im + w.Im * f)); z.check(s->Estimator); }
VC_TASK(sigma_others) { Q q = qdom(); Lattice l(V(q.lx, q.ly), q.s); int anti = vc_bool("anti"); Box<SigmaClass> s; new (&s->_Map) IndexMapSPIN2(q.beta, q.n, l, anti ? TauAntiSymmetric : TauSymmetric); unsigned M, W = s->_Map._SizeSmoothT; EBox::make(s->Estimator, W, M);
    Where x(q); spin p = sp("sin"), r = sp("sout"); int o = order("order", M); Complex w = cval("weight"); unsigned i = s->_Map.GetIndex(p, r, x.a, x.b, x.t, x.u), j = idx("j", M * W); vc_assume(j != (o - 1) * W + i); Complex* d = s->Estimator._WeightAccu._Data; Complex old = d[j];
    s->Measure(x.a, x.b, x.t, x.u, p, r, o, w); vc_assert("other-bins-unchanged", ceq(d[j], old)); }
VC_TASK(polar) { Q q = qdom(); Lattice l(V(q.lx, q.ly), q.s); Box<PolarClass> s; new (&s->_Map) IndexMapSPIN4(q.beta, q.n, l, TauSymmetric); unsigned M, W = s->_Map._SizeSmoothT; EBox::make(s->Estimator, W, M);
    Where x(q); spin p[2] = {sp("sin"), sp("sin")}, r[2] = {sp("sout"), sp("sout")}; int o = order("order", M); Complex w = cval("weight"); unsigned i = s->_Map.GetIndex(p, r, x.a, x.b, x.t, x.u), k = (o - 1) * W + i; Complex* d = s->Estimator._WeightAccu._Data; Complex old = d[k]; Keep z(s->Estimator);
    s->Measure(x.a, x.b, x.t, x.u, p, r, o, w); vc_assert("measured-bin-grows-by-the-weight", cx(d[k], old.Re + w.Re, old.Im + w.Im)); z.check(s->Estimator); }
VC_TASK(polar_others) { Q q = qdom(); Lattice l(V(q.lx, q.ly), q.s); Box<PolarClass> s; new (&s->_Map) IndexMapSPIN4(q.beta, q.n, l, TauSymmetric); unsigned M, W = s->_Map._SizeSmoothT; EBox::make(s->Estimator, W, M);
    Where x(q); spin p[2] = {sp("sin"), sp("sin")}, r[2] = {sp("sout"), sp("sout")}; int o = order("order", M); Complex w = cval("weight"); unsigned i = s->_Map.GetIndex(p, r, x.a, x.b, x.t, x.u), j = idx("j", M * W); vc_assume(j != (o - 1) * W + i); Complex* d = s->Estimator._WeightAccu._Data; Complex old = d[j];
    s->Measure(x.a, x.b, x.t, x.u, p, r, o, w); vc_assert("other-bins-unchanged", ceq(d[j], old)); }
VC_TASK(estimator_allocate) { Box<IndexMap> m; Box<WeightEstimator> e; new (e.p) WeightEstimator(); int M = vc_int("MaxOrder", 1, 1000); if (!vc_symbolic()) M = 1 + M % 4; double f = vc_real("factor");
    m->Lat.Vol = vc_int("volume", 1, 2147483647); m->Beta = vc_real_oc("beta", 1e-3, 100); m->MaxTauBin = vc_int("bins", 1, 2147483647); long W = 1;
    for (int i = 0; i < 6; i++) { int k = vc_int("shape", 1, 2147483647); m->_Shape[i] = vc_symbolic() ? k : 1 + k % 3; W *= m->_Shape[i]; } vc_assume((W >= 1) & (W * M <= 2147483647L));
    e->Allocate(*m, M, f); vc_assert("one-block-of-bins-per-order", ((long)e->_WeightSize == W) & ((long)e->_WeightAccu.GetSize() == W * M)); vc_assert("starts-empty", vc_eq(e->_NormAccu, 0)); unsigned j = idx("j", W * M); vc_assert("starts-at-zero", cx(e->_WeightAccu(j), 0, 0));
    vc_assert("factor-per-volume-bin-and-temperature", vc_eq(e->_Norm, f * (m->MaxTauBin / m->Beta) / m->Beta / m->Lat.Vol) & vc_eq(e->_Beta, m->Beta));
    if (!vc_symbolic()) e->~WeightEstimator(); }
