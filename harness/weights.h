// builders of weight objects with arbitrary table contents
#ifndef WEIGHTS_H
#define WEIGHTS_H
#include "vc.h"
#include <new>
#include <vector>
#include "utility/dictionary.h"
#include "module/weight/component.h"
#include "module/weight/gamma3.h"
using namespace weight;
struct Q { int lx, ly, s, n; double beta; };
static Q qdom() { Q q; q.lx = vc_int("Lx", 1, 46340); q.ly = vc_int("Ly", 1, 46340); q.s = vc_int("sublat", 1, 16); q.n = vc_int("bins", 1, 100000); q.beta = vc_real_oc("beta", 0, 100);
    if (!vc_symbolic()) { vc_assume(q.beta > 1e-3); q.lx = 1 + q.lx % 4; q.ly = 1 + q.ly % 4; q.s = 1 + q.s % 2; q.n = 1 + q.n % 8; } return q; }
static Vec<int> V(int x, int y) { Vec<int> v(0); v[0] = x; v[1] = y; return v; }
static Site site(const char* n, Q q) { int x = vc_int(n, 0, 46340), y = vc_int(n, 0, 46340), s = vc_int(n, 0, 16);
    if (!vc_symbolic()) { x %= q.lx; y %= q.ly; s %= q.s; }
    vc_assume((x < q.lx) & (y < q.ly) & (s < q.s)); return Site(s, V(x, y)); }
static spin sp(const char* n) { return spin(vc_bool(n)); }
static double tim(const char* n, Q q) { return vc_real_co(n, 0, q.beta); }
static int ceq(const Complex& a, const Complex& b) { return vc_eq(a.Re, b.Re) & vc_eq(a.Im, b.Im); }
static Complex scaled(const Complex& a, double f) { return Complex(a.Re * f, a.Im * f); }
template <class A> static void arr(A& a, const char* name, unsigned n) { new (&a) A(); a._Data = (Complex*)vc_carray(name, n); a._Size = n; }
template <class T> struct Box { alignas(16) char raw[sizeof(T)]; T* p; Box() : p((T*)raw) {} T* operator->() { return p; } T& operator*() { return *p; } };
struct GBox : Box<GClass> { GBox(Q q, const Lattice& l, TauSymmetry s) { new (&p->_Map) IndexMapSPIN2(q.beta, q.n, l, s); arr(p->_SmoothTWeight, "smooth", p->_Map._SizeSmoothT); arr(p->_MeasureWeight, "measure", p->_Map._SizeSmoothT); p->GGGammaGWeight = nullptr; } };
struct WBox : Box<WClass> { WBox(Q q, const Lattice& l) { new (&p->_Map) IndexMapSPIN4(q.beta, q.n, l, TauSymmetric); arr(p->_SmoothTWeight, "smooth", p->_Map._SizeSmoothT); arr(p->_MeasureWeight, "measure", p->_Map._SizeSmoothT); arr(p->_DeltaTWeight, "delta", p->_Map._SizeDeltaT); p->WWGammaWWeight = nullptr; } };
struct GammaGBox : Box<GammaGClass> { GammaGBox(Q q, const Lattice& l) { new (&p->_Map) IndexMapSPIN2(q.beta, q.n, l, TauAntiSymmetric); unsigned n = q.n, v = l.Vol; p->_Beta = q.beta; p->_MaxTauBin = n; p->_dBetaInverse = n / q.beta; p->_NormAccu = 0;
    p->_CacheIndex[0] = 1; p->_CacheIndex[1] = n; p->_CacheIndex[2] = n * n; p->_CacheIndex[3] = n * n * v; p->_WeightSize = 2 * n * n * v; arr(p->_Weight, "gammaG", 2 * n * n * v); arr(p->_WeightAccu, "gammaGaccu", 2 * n * n * v); } };
// natively: a squeeze table drawn from a fixed pattern
struct GammaWBox : Box<GammaWClass> { std::vector<int> *a, *b, *c, *d, *e;
    GammaWBox(Q q, const Lattice& l) { new (&p->_Map) IndexMapSPIN4(q.beta, q.n, l, TauSymmetric); unsigned n = q.n, v = l.Vol; p->_Beta = q.beta; p->_MaxTauBinTiny = n; p->_dBetaInverse = n / q.beta; p->_Vol = v; p->_NormAccu = 0; p->_RSize = v * v; p->_TauSize = n * n;
        new (&p->_RSqueeze) std::vector<int>(); new (&p->_TauSqueeze) std::vector<int>(); new (&p->_TauFlag) std::vector<int>(); new (&p->_RSymFactor) std::vector<int>(); new (&p->_TauSymFactor) std::vector<int>();
        if (!vc_symbolic()) { for (unsigned i = 0; i < v * v; i++) { p->_RSqueeze.push_back((i * 7) % (v * v)); p->_RSymFactor.push_back(1 + i % 3); } for (unsigned i = 0; i < n * n; i++) { p->_TauSqueeze.push_back(n * n - 1 - i); p->_TauSymFactor.push_back(1 + i % 2); p->_TauFlag.push_back(i % 2); } }
        arr(p->_Weight, "gammaW", 2 * v * v * n * n); arr(p->_WeightAccu, "gammaWaccu", 2 * v * v * n * n); }
    ~GammaWBox() { if (!vc_symbolic()) { p->_RSqueeze.~vector(); p->_TauSqueeze.~vector(); p->_TauFlag.~vector(); p->_RSymFactor.~vector(); p->_TauSymFactor.~vector(); } } };
#endif
