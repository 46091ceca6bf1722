// C13: propagator and interaction look-ups agree between their forms
#include "weights.h"
struct GArg { Site a, b; double t, u; spin s, v; ExtPoint e; GArg(Q q) : a(site("rin", q)), b(site("rout", q)), t(tim("tin", q)), u(tim("tout", q)), s(sp("sin")), v(sp("sout")) { e.Tau = tim("text", q); e.R = site("rext", q); e.Spin = sp("sext"); } };
static const GClass& cst(GClass& g) { return g; }
VC_TASK(g_table) { Q q = qdom(); Lattice l(V(q.lx, q.ly), q.s); int anti = vc_bool("anti"), mea = vc_bool("measure"); GBox g(q, l, anti ? TauAntiSymmetric : TauSymmetric); GArg x(q);
    vc_freeze(g->_SmoothTWeight._Data, 0); vc_freeze(g->_MeasureWeight._Data, 0); vc_freeze(g.p, sizeof(GClass)); unsigned k = g->_Map.GetIndex(x.s, x.v, x.a, x.b, x.t, x.u);
    Complex w = g->Weight(x.a, x.b, x.t, x.u, x.s, x.v, mea, false, nullptr); double f = x.u > x.t ? 1 : (anti ? -1 : 1);
    if (mea) vc_assert("measuring-line-reads-measuring-table", ceq(w, g->_MeasureWeight(k))); else vc_assert("entry-times-symmetry-sign", ceq(w, scaled(g->_SmoothTWeight(k), f)));
    vc_frozen("tables-unchanged", g.p); vc_frozen("smooth-table-unchanged", g->_SmoothTWeight._Data); vc_frozen("measuring-table-unchanged", g->_MeasureWeight._Data); }
VC_TASK(g_directions) { Q q = qdom(); Lattice l(V(q.lx, q.ly), q.s); int anti = vc_bool("anti"), mea = vc_bool("measure"); GBox g(q, l, anti ? TauAntiSymmetric : TauSymmetric); GArg x(q); vc_freeze(g.p, sizeof(GClass)); vc_freeze(g->_SmoothTWeight._Data, 0); vc_freeze(g->_MeasureWeight._Data, 0);
    Complex w = g->Weight(x.a, x.b, x.t, x.u, x.s, x.v, mea, false, nullptr);
    vc_assert("from-the-in-end", ceq(w, g->Weight(IN, x.a, x.b, x.t, x.u, x.s, x.v, mea, false, nullptr)));
    vc_assert("from-the-out-end", ceq(w, g->Weight(OUT, x.b, x.a, x.u, x.t, x.v, x.s, mea, false, nullptr))); vc_frozen("tables-unchanged", g.p); vc_frozen("smooth-table-unchanged", g->_SmoothTWeight._Data); vc_frozen("measuring-table-unchanged", g->_MeasureWeight._Data); }
VC_TASK(g_gamma) { Q q = qdom(); Lattice l(V(q.lx, q.ly), q.s); int mea = vc_bool("measure"); GBox g(q, l, TauAntiSymmetric); GammaGBox h(q, l); g->GGGammaGWeight = h.p; GArg x(q); vc_freeze(g.p, sizeof(GClass));
    Complex w = g->Weight(x.a, x.b, x.t, x.u, x.s, x.v, mea, true, &x.e);
    if (mea) vc_assert("measuring-line-reads-measuring-table", ceq(w, g->_MeasureWeight(g->_Map.GetIndex(x.s, x.v, x.a, x.b, x.t, x.u))));
    else vc_assert("vertex-function-line-reads-vertex-function", ceq(w, h->Weight(x.a, x.b, x.e.R, x.t, x.u, x.e.Tau, x.s, x.v, x.e.Spin)));
    vc_assert("from-the-in-end", ceq(w, g->Weight(IN, x.a, x.b, x.t, x.u, x.s, x.v, mea, true, &x.e)));
    vc_assert("from-the-out-end", ceq(w, g->Weight(OUT, x.b, x.a, x.u, x.t, x.v, x.s, mea, true, &x.e))); vc_frozen("tables-unchanged", g.p); }
struct WArg { Site a, b; double t, u; spin s[2], v[2]; ExtPoint e; WArg(Q q) : a(site("rin", q)), b(site("rout", q)), t(tim("tin", q)), u(tim("tout", q)) { s[0] = sp("sin"); s[1] = sp("sin"); v[0] = sp("sout"); v[1] = sp("sout"); e.Tau = tim("text", q); e.R = site("rext", q); e.Spin = sp("sext"); } };
static spin UPUP[2] = {UP, UP};
// measuring and local never hold together (C05)
VC_TASK(w_table) { Q q = qdom(); Lattice l(V(q.lx, q.ly), q.s); int worm = vc_bool("worm"), kind = vc_int("kind", 0, 2); WBox g(q, l); WArg x(q); spin o[4] = {x.s[0], x.s[1], x.v[0], x.v[1]};
    vc_freeze(g->_SmoothTWeight._Data, 0); vc_freeze(g->_MeasureWeight._Data, 0); vc_freeze(g->_DeltaTWeight._Data, 0); vc_freeze(g.p, sizeof(WClass)); spin *a = worm ? UPUP : x.s, *b = worm ? UPUP : x.v;
    Complex w = g->Weight(x.a, x.b, x.t, x.u, x.s, x.v, worm, kind == 1, kind == 2, false, nullptr);
    if (kind == 2) vc_assert("local-line-reads-equal-time-table", ceq(w, g->_DeltaTWeight(g->_Map.GetIndex(a, b, x.a, x.b))));
    else if (kind == 1) vc_assert("measuring-line-reads-measuring-table", ceq(w, g->_MeasureWeight(g->_Map.GetIndex(a, b, x.a, x.b, x.t, x.u))));
    else vc_assert("line-reads-its-entry", ceq(w, g->_SmoothTWeight(g->_Map.GetIndex(a, b, x.a, x.b, x.t, x.u))));
    vc_assert("spins-unchanged", (o[0] == x.s[0]) & (o[1] == x.s[1]) & (o[2] == x.v[0]) & (o[3] == x.v[1]) & (UPUP[0] == UP) & (UPUP[1] == UP));
    vc_frozen("tables-unchanged", g.p); vc_frozen("smooth-table-unchanged", g->_SmoothTWeight._Data); vc_frozen("measuring-table-unchanged", g->_MeasureWeight._Data); vc_frozen("delta-table-unchanged", g->_DeltaTWeight._Data); }
VC_TASK(w_directions) { Q q = qdom(); Lattice l(V(q.lx, q.ly), q.s); int worm = vc_bool("worm"), kind = vc_int("kind", 0, 2); WBox g(q, l); WArg x(q); spin o[4] = {x.s[0], x.s[1], x.v[0], x.v[1]};
    vc_freeze(g->_SmoothTWeight._Data, 0); vc_freeze(g->_MeasureWeight._Data, 0); vc_freeze(g->_DeltaTWeight._Data, 0); vc_freeze(g.p, sizeof(WClass));
    Complex w = g->Weight(x.a, x.b, x.t, x.u, x.s, x.v, worm, kind == 1, kind == 2, false, nullptr);
    vc_assert("from-the-in-end", ceq(w, g->Weight(IN, x.a, x.b, x.t, x.u, x.s, x.v, worm, kind == 1, kind == 2, false, nullptr)));
    vc_assert("from-the-out-end", ceq(w, g->Weight(OUT, x.b, x.a, x.u, x.t, x.v, x.s, worm, kind == 1, kind == 2, false, nullptr)));
    vc_assert("spins-unchanged", (o[0] == x.s[0]) & (o[1] == x.s[1]) & (o[2] == x.v[0]) & (o[3] == x.v[1]));
    vc_frozen("tables-unchanged", g.p); vc_frozen("smooth-table-unchanged", g->_SmoothTWeight._Data); vc_frozen("measuring-table-unchanged", g->_MeasureWeight._Data); vc_frozen("delta-table-unchanged", g->_DeltaTWeight._Data); }
VC_TASK(w_local_times) { Q q = qdom(); Lattice l(V(q.lx, q.ly), q.s); int worm = vc_bool("worm"); WBox g(q, l); WArg x(q); double t = tim("other", q), u = tim("other", q);
    vc_assert("local-line-ignores-times", ceq(g->Weight(x.a, x.b, x.t, x.u, x.s, x.v, worm, false, true, false, nullptr), g->Weight(x.a, x.b, t, u, x.s, x.v, worm, false, true, false, nullptr))); }
VC_TASK(w_worm_spins) { Q q = qdom(); Lattice l(V(q.lx, q.ly), q.s); int kind = vc_int("kind", 0, 2); WBox g(q, l); WArg x(q); spin a[2] = {sp("other"), sp("other")}, b[2] = {sp("other"), sp("other")};
    vc_assert("worm-line-ignores-spins", ceq(g->Weight(x.a, x.b, x.t, x.u, x.s, x.v, true, kind == 1, kind == 2, false, nullptr), g->Weight(x.a, x.b, x.t, x.u, a, b, true, kind == 1, kind == 2, false, nullptr))); }
VC_TASK(w_gamma) { Q q = qdom(); Lattice l(V(q.lx, q.ly), q.s); int worm = vc_bool("worm"), kind = vc_int("kind", 0, 2); WBox g(q, l); GammaWBox h(q, l); g->WWGammaWWeight = h.p; WArg x(q); spin *a = worm ? UPUP : x.s, *b = worm ? UPUP : x.v;
    Complex w = g->Weight(x.a, x.b, x.t, x.u, x.s, x.v, worm, kind == 1, kind == 2, true, &x.e);
    if (kind == 0) vc_assert("vertex-function-line-reads-vertex-function", ceq(w, h->Weight(x.a, x.b, x.e.R, x.t, x.u, x.e.Tau, a, b, x.e.Spin)));
    vc_assert("from-the-in-end", ceq(w, g->Weight(IN, x.a, x.b, x.t, x.u, x.s, x.v, worm, kind == 1, kind == 2, true, &x.e)));
    vc_assert("from-the-out-end", ceq(w, g->Weight(OUT, x.b, x.a, x.u, x.t, x.v, x.s, worm, kind == 1, kind == 2, true, &x.e))); }
