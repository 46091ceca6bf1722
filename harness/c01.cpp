// C01: momentum arithmetic is exact modular arithmetic in the Brillouin range
#include "vc.h"
#include "utility/momentum.h"
static const int KM = 10000, PER = 20001;
static Momentum mk(const char* n) { Momentum m; m.K = vc_int(n, -KM, KM); return m; }
// the unique representative of e (|e| <= 3*KM) modulo 20001 in [-10000,10000]
static void rep(const char* what, int r, int e) {
    vc_assert("result-in-range", (r >= -KM) & (r <= KM));
    int d = r - e;
    vc_assert(what, (d == 0) | (d == PER) | (d == -PER) | (d == 2 * PER) | (d == -2 * PER));
}
VC_TASK(default_ctor) { Momentum m; vc_assert("zero", m.K == 0); }
VC_TASK(from_int) { int k = vc_int("k", -2 * KM, 2 * KM); Momentum m(k); rep("from-int", m.K, k); }
VC_TASK(copy) { Momentum a = mk("a"); int k = a.K; Momentum b(a); vc_assert("copy-eq", b.K == k); vc_assert("source-kept", a.K == k); }
VC_TASK(assign) { Momentum a = mk("a"), b = mk("b"); int k = b.K; Momentum* p = &(a = b); vc_assert("assign-eq", a.K == k); vc_assert("returns-self", p == &a); vc_assert("source-kept", b.K == k); }
VC_TASK(assign_self) { Momentum a = mk("a"); int k = a.K; a = a; vc_assert("self", a.K == k); }
VC_TASK(index) { Momentum a = mk("a"), b = mk("b"); int i = a.index(), j = b.index();
    vc_assert("index-range", (i >= 0) & (i <= 2 * KM)); vc_assert("index-injective", (i == j) == (a.K == b.K)); vc_assert("index-stable", a.index() == i); }
VC_TASK(absv) { Momentum a = mk("a"); int k = a.K; int i = a.abs(); vc_assert("abs", (i >= 0) & (i <= KM) & ((i == k) | (i == -k))); vc_assert("kept", a.K == k); }
VC_TASK(pluseq_m) { Momentum a = mk("a"), b = mk("b"); int x = a.K, y = b.K; Momentum* p = &(a += b); rep("pluseq-mom", a.K, x + y); vc_assert("arg-kept", b.K == y); vc_assert("returns-self", p == &a); }
VC_TASK(pluseq_self) { Momentum a = mk("a"); int x = a.K; a += a; rep("pluseq-self", a.K, 2 * x); }
VC_TASK(pluseq_i) { Momentum a = mk("a"); int x = a.K, y = vc_int("k", -KM, KM); Momentum* p = &(a += y); rep("pluseq-int", a.K, x + y); vc_assert("returns-self", p == &a); }
VC_TASK(minuseq_m) { Momentum a = mk("a"), b = mk("b"); int x = a.K, y = b.K; Momentum* p = &(a -= b); rep("minuseq-mom", a.K, x - y); vc_assert("arg-kept", b.K == y); vc_assert("returns-self", p == &a); }
VC_TASK(minuseq_self) { Momentum a = mk("a"); a -= a; vc_assert("zero", a.K == 0); }
VC_TASK(minuseq_i) { Momentum a = mk("a"); int x = a.K, y = vc_int("k", -KM, KM); Momentum* p = &(a -= y); rep("minuseq-int", a.K, x - y); vc_assert("returns-self", p == &a); }
VC_TASK(add_mm) { Momentum a = mk("a"), b = mk("b"); int x = a.K, y = b.K; Momentum c = a + b; rep("add-mom-mom", c.K, x + y); vc_assert("args-kept", (a.K == x) & (b.K == y)); }
VC_TASK(add_mi) { Momentum a = mk("a"); int x = a.K, y = vc_int("k", -KM, KM); Momentum c = a + y; rep("add-mom-int", c.K, x + y); vc_assert("args-kept", a.K == x); }
VC_TASK(add_im) { Momentum a = mk("a"); int x = a.K, y = vc_int("k", -KM, KM); Momentum c = y + a; rep("add-int-mom", c.K, x + y); vc_assert("args-kept", a.K == x); }
VC_TASK(sub_mm) { Momentum a = mk("a"), b = mk("b"); int x = a.K, y = b.K; Momentum c = a - b; rep("sub-mom-mom", c.K, x - y); vc_assert("args-kept", (a.K == x) & (b.K == y)); }
VC_TASK(sub_mi) { Momentum a = mk("a"); int x = a.K, y = vc_int("k", -KM, KM); Momentum c = a - y; rep("sub-mom-int", c.K, x - y); vc_assert("args-kept", a.K == x); }
VC_TASK(sub_im) { Momentum a = mk("a"); int x = a.K, y = vc_int("k", -KM, KM); Momentum c = y - a; rep("sub-int-mom", c.K, y - x); vc_assert("args-kept", a.K == x); }
VC_TASK(mul) { Momentum a = mk("a"); int x = a.K, s = vc_bool("s") ? 1 : -1; Momentum c = s * a; rep("mul-sign", c.K, s * x); vc_assert("args-kept", a.K == x); }
VC_TASK(eq_mm) { Momentum a = mk("a"), b = mk("b"); vc_assert("eq", (a == b) == (a.K == b.K)); vc_assert("ne", (a != b) == (a.K != b.K)); }
VC_TASK(eq_mi) { Momentum a = mk("a"); int k = vc_int("k", -KM, KM); vc_assert("eq-mi", (a == k) == (a.K == k)); vc_assert("eq-im", (k == a) == (a.K == k)); vc_assert("ne-mi", (a != k) == (a.K != k)); vc_assert("ne-im", (k != a) == (a.K != k)); }
