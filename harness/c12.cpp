// C12: weight-table indexing is in bounds and collision free
#include "vc.h"
#include "module/weight/index_map.h"
using namespace weight;
struct Q { int lx, ly, s, n; double beta; };
static Q qdom() { Q q; q.lx = vc_int("Lx", 1, 46340); q.ly = vc_int("Ly", 1, 46340); q.s = vc_int("sublat", 1, 16); q.n = vc_int("bins", 1, 100000); q.beta = vc_real_oc("beta", 0, 100);
    if (!vc_symbolic()) { vc_assume(q.beta > 1e-3); q.lx = 1 + q.lx % 12; q.ly = 1 + q.ly % 12; q.s = 1 + q.s % 4; q.n = 1 + q.n % 512; } return q; }
static Vec<int> V(int x, int y) { Vec<int> v(0); v[0] = x; v[1] = y; return v; }
static Site site(const char* n, Q q) { int x = vc_int(n, 0, 46340), y = vc_int(n, 0, 46340), s = vc_int(n, 0, 16);
    if (!vc_symbolic()) { x %= q.lx; y %= q.ly; s %= q.s; }
    vc_assume((x < q.lx) & (y < q.ly) & (s < q.s)); return Site(s, V(x, y)); }
static spin sp(const char* n) { return spin(vc_bool(n)); }
static double tm(const char* n, Q q) { return vc_real_co(n, 0, q.beta); }
static int disp(const Lattice& l, const Site& a, const Site& b, Q q) {
    int dx = b.Coordinate[0] - a.Coordinate[0], dy = b.Coordinate[1] - a.Coordinate[1];
    if (dx < 0) dx += q.lx; if (dy < 0) dy += q.ly; return dx * q.ly + dy; }
typedef long long ll;
// positional value of the (spin, sublattice, spin, sublattice, displacement) digits
static ll row(int s1, int b1, int s2, int b2, int c, int ns, Q q) { return ((((ll)s1 * q.s + b1) * ns + s2) * q.s + b2) * (ll)(q.lx * q.ly) + c; }
static ll rows(int ns, Q q) { return (ll)ns * q.s * ns * q.s * (q.lx * q.ly); }

VC_TASK(tau_bin) { Q q = qdom(); Lattice l(V(q.lx, q.ly), q.s); IndexMapSPIN2 m(q.beta, q.n, l, TauSymmetric); double t = vc_real_co("tau", -q.beta, q.beta); if (!vc_symbolic()) vc_assume(t > -q.beta * (1 - 1e-9)); // differences of times in [0,beta)
    // natively, dyadic bin widths make the bin edges exact in floating point
    int dy = vc_bool("dyadic"), de = vc_int("exponent", 0, 8), dk = vc_int("quarters", 0, 2000000); if (!vc_symbolic() & dy) { q.beta = q.n / (double)(1 << de); t = (dk % (8 * q.n) - 4 * q.n) / (double)(4 << de); vc_assume(t > -q.beta); m = IndexMapSPIN2(q.beta, q.n, l, TauSymmetric); }
    int b = m.TauIndex(t); vc_assert("bin-in-table", (b >= 0) & (b < q.n));
    double w = t < 0 ? t + q.beta : t; double h = q.beta / q.n;
    vc_assert("bin-is-floor-of-wrapped-offset", vc_le(b * h, w) & vc_le(w, (b + 1) * h)); if (vc_symbolic() | dy) vc_assert("bin-half-open", w < (b + 1) * h); }
VC_TASK(tau_bin_pair) { Q q = qdom(); Lattice l(V(q.lx, q.ly), q.s); IndexMapSPIN4 m(q.beta, q.n, l, TauSymmetric); double a = tm("tin", q), b = tm("tout", q); vc_assert("bin-of-difference", m.TauIndex(a, b) == m.TauIndex(b - a)); }
VC_TASK(tau_centre) { Q q = qdom(); Lattice l(V(q.lx, q.ly), q.s); IndexMapSPIN2 m(q.beta, q.n, l, TauAntiSymmetric); int k = vc_int("k", 0, q.n - 1);
    double t = m.IndexToTau(k); double h = q.beta / q.n; vc_assert("centre", vc_eq(t, (k + 0.5) * h)); vc_assert("centre-maps-back", m.TauIndex(t) == k); vc_assert("wrapped-centre-maps-back", m.TauIndex(t - q.beta) == k); }
VC_TASK(tau_sign) { Q q = qdom(); Lattice l(V(q.lx, q.ly), q.s); int anti = vc_bool("anti"); IndexMapSPIN2 m(q.beta, q.n, l, anti ? TauAntiSymmetric : TauSymmetric); double a = tm("tin", q), b = tm("tout", q);
    int f = m.GetTauSymmetryFactor(a, b); vc_assert("sign-of-time-order", f == (b > a ? 1 : (anti ? -1 : 1))); }
VC_TASK(tau_sign4) { Q q = qdom(); Lattice l(V(q.lx, q.ly), q.s); int anti = vc_bool("anti"); IndexMapSPIN4 m(q.beta, q.n, l, anti ? TauAntiSymmetric : TauSymmetric); double a = tm("tin", q), b = tm("tout", q);
    int f = m.GetTauSymmetryFactor(a, b); vc_assert("sign-of-time-order", f == (b > a ? 1 : (anti ? -1 : 1))); }
VC_TASK(shape2) { Q q = qdom(); Lattice l(V(q.lx, q.ly), q.s); IndexMapSPIN2 m(q.beta, q.n, l, TauSymmetric); const uint* s = m.GetShape();
    vc_assert("shape", (s[SP1] == 2) & (s[SP2] == 2) & (s[SUB1] == q.s) & (s[SUB2] == q.s) & (s[VOL] == q.lx * q.ly) & (s[TAU] == q.n)); vc_assert("kept", (m.Beta == q.beta) & (m.MaxTauBin == q.n)); }
VC_TASK(shape4) { Q q = qdom(); Lattice l(V(q.lx, q.ly), q.s); IndexMapSPIN4 m(q.beta, q.n, l, TauSymmetric); const uint* s = m.GetShape();
    vc_assert("shape", (s[SP1] == 4) & (s[SP2] == 4) & (s[SUB1] == q.s) & (s[SUB2] == q.s) & (s[VOL] == q.lx * q.ly) & (s[TAU] == q.n)); vc_assert("kept", (m.Beta == q.beta) & (m.MaxTauBin == q.n)); }
VC_TASK(smooth2) { Q q = qdom(); Lattice l(V(q.lx, q.ly), q.s); IndexMapSPIN2 m(q.beta, q.n, l, TauSymmetric);
    spin a = sp("a"), b = sp("b"); Site p = site("p", q), r = site("r", q); double t = tm("tin", q), u = tm("tout", q);
    ll i = m.GetIndex(a, b, p, r, t, u); ll want = row(a, p.Sublattice, b, r.Sublattice, disp(l, p, r, q), 2, q) * q.n + m.TauIndex(t, u);
    vc_assert("index-is-positional", i == want); }
VC_TASK(delta2) { Q q = qdom(); Lattice l(V(q.lx, q.ly), q.s); IndexMapSPIN2 m(q.beta, q.n, l, TauSymmetric);
    spin a = sp("a"), b = sp("b"); Site p = site("p", q), r = site("r", q);
    ll i = m.GetIndex(a, b, p, r); vc_assert("index-is-positional", i == row(a, p.Sublattice, b, r.Sublattice, disp(l, p, r, q), 2, q)); }
VC_TASK(smooth4) { Q q = qdom(); Lattice l(V(q.lx, q.ly), q.s); IndexMapSPIN4 m(q.beta, q.n, l, TauSymmetric);
    spin a[2] = {sp("a"), sp("a")}, b[2] = {sp("b"), sp("b")}; Site p = site("p", q), r = site("r", q); double t = tm("tin", q), u = tm("tout", q);
    ll i = m.GetIndex(a, b, p, r, t, u); ll want = row(a[0] * 2 + a[1], p.Sublattice, b[0] * 2 + b[1], r.Sublattice, disp(l, p, r, q), 4, q) * q.n + m.TauIndex(t, u);
    vc_assert("index-is-positional", i == want); }
VC_TASK(delta4) { Q q = qdom(); Lattice l(V(q.lx, q.ly), q.s); IndexMapSPIN4 m(q.beta, q.n, l, TauSymmetric);
    spin a[2] = {sp("a"), sp("a")}, b[2] = {sp("b"), sp("b")}; Site p = site("p", q), r = site("r", q);
    ll i = m.GetIndex(a, b, p, r); vc_assert("index-is-positional", i == row(a[0] * 2 + a[1], p.Sublattice, b[0] * 2 + b[1], r.Sublattice, disp(l, p, r, q), 4, q)); }
// lemma: a positional value determines its digits and stays below the table size
VC_TASK(lemma_digit) { int n = vc_int("n", 1, 2000000000); int r = vc_int("r", 0, n - 1), s = vc_int("s", 0, n - 1); int h = vc_int("h", 0, 2000000000), g = vc_int("g", 0, 2000000000), H = vc_int("H", 1, 2000000000); vc_assume(h < H);
    vc_assert("digit-unique", (((ll)h * n + r) == ((ll)g * n + s)) == ((h == g) & (r == s))); vc_assert("below-product", (ll)h * n + r < (ll)H * n); vc_assert("nonnegative", (ll)h * n + r >= 0); }

// lemma: bounds and collision freedom of the whole positional index, digit by digit
VC_TASK(lemma_table) { Q q = qdom(); int ns = vc_bool("spin4") ? 4 : 2; int V = q.lx * q.ly;
    int s1 = vc_int("s1", 0, 3), s2 = vc_int("s2", 0, 3), b1 = vc_int("b1", 0, 15), b2 = vc_int("b2", 0, 15), c = vc_int("c", 0, 2000000000), t = vc_int("t", 0, 100000);
    int S1 = vc_int("S1", 0, 3), S2 = vc_int("S2", 0, 3), B1 = vc_int("B1", 0, 15), B2 = vc_int("B2", 0, 15), C = vc_int("C", 0, 2000000000), T = vc_int("T", 0, 100000);
    if (!vc_symbolic()) { s1 %= ns; s2 %= ns; b1 %= q.s; b2 %= q.s; c %= V; t %= q.n; S1 %= ns; S2 %= ns; B1 %= q.s; B2 %= q.s; C %= V; T %= q.n; }
    vc_assume((s1 < ns) & (s2 < ns) & (b1 < q.s) & (b2 < q.s) & (c < V) & (t < q.n)); vc_assume((S1 < ns) & (S2 < ns) & (B1 < q.s) & (B2 < q.s) & (C < V) & (T < q.n));
    ll x = s1, X = S1, n = ns; 
    ll y = x * q.s + b1, Y = X * q.s + B1, m = n * q.s; vc_fact("sub1", ((y == Y) == ((x == X) & (b1 == B1))) & (y < m) & (y >= 0) & (Y < m) & (Y >= 0));
    x = y * ns + s2, X = Y * ns + S2, n = m * ns; vc_fact("spin2", ((x == X) == ((y == Y) & (s2 == S2))) & (x < n) & (x >= 0) & (X < n) & (X >= 0));
    y = x * q.s + b2, Y = X * q.s + B2, m = n * q.s; vc_fact("sub2", ((y == Y) == ((x == X) & (b2 == B2))) & (y < m) & (y >= 0) & (Y < m) & (Y >= 0));
    x = y * V + c, X = Y * V + C, n = m * V; vc_fact("displacement", ((x == X) == ((y == Y) & (c == C))) & (x < n) & (x >= 0) & (X < n) & (X >= 0));
    vc_assert("local-table-injective", (x == X) == ((s1 == S1) & (b1 == B1) & (s2 == S2) & (b2 == B2) & (c == C))); vc_assert("local-table-bound", (x >= 0) & (x < n));
    y = x * q.n + t, Y = X * q.n + T, m = n * q.n; vc_fact("bin", ((y == Y) == ((x == X) & (t == T))) & (y < m) & (y >= 0) & (Y < m) & (Y >= 0));
    vc_assert("table-injective", (y == Y) == ((s1 == S1) & (b1 == B1) & (s2 == S2) & (b2 == B2) & (c == C) & (t == T))); vc_assert("table-bound", (y >= 0) & (y < m)); }
VC_TASK(spin_index) { spin a = sp("a"), b = sp("b"), c = sp("c"), d = sp("d"); int i = IndexMapSPIN2::SpinIndex(a, b), j = IndexMapSPIN2::SpinIndex(c, d);
    vc_assert("spin-pair-in-range", (0 <= i) & (i < SPIN2)); vc_assert("spin-pair-unique", (i == j) == ((a == c) & (b == d))); }
VC_TASK(spin_index4) { spin s[4], t[4]; s[0] = sp("s0"); s[1] = sp("s1"); s[2] = sp("s2"); s[3] = sp("s3"); t[0] = sp("t0"); t[1] = sp("t1"); t[2] = sp("t2"); t[3] = sp("t3");
    int i = IndexMapSPIN4::SpinIndex(s[0], s[1], s[2], s[3]), j = IndexMapSPIN4::SpinIndex(t[0], t[1], t[2], t[3]);
    vc_assert("four-spins-in-range", (0 <= i) & (i < SPIN4)); vc_assert("four-spins-unique", (i == j) == ((s[0] == t[0]) & (s[1] == t[1]) & (s[2] == t[2]) & (s[3] == t[3])));
    vc_assert("forms-agree", i == IndexMapSPIN4::SpinIndex(s, s + 2));
    int p = IndexMapSPIN4::SpinIndex(s), q = IndexMapSPIN4::SpinIndex(t); vc_assert("two-spins-in-range", (0 <= p) & (p < SPIN2)); vc_assert("two-spins-unique", (p == q) == ((s[0] == t[0]) & (s[1] == t[1]))); }
