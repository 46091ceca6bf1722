// C02: complex arithmetic returns the exact mathematical result
#include "vc.h"
#include "utility/complex.h"
struct P { double r, i; };
static P in(const char* n) { P p; p.r = vc_real(n); p.i = vc_real(n); return p; }
static Complex C(P p) { return Complex(p.r, p.i); }
static void is(const char* w, const Complex& c, double r, double i) { vc_assert(w, vc_eq(c.Re, r) & vc_eq(c.Im, i)); }
static void kept(const Complex& c, P p) { vc_assert("operand-unchanged", vc_eq(c.Re, p.r) & vc_eq(c.Im, p.i)); }
static double m2(P p) { return p.r * p.r + p.i * p.i; }
static int away(double x) { return vc_symbolic() ? x != 0 : (x > 1e-6 || x < -1e-6); }
// q = a / b exactly iff q*b = a (b != 0)
static void isq(const char* w, const Complex& q, P a, P b) {
    vc_assert(w, vc_eq(q.Re * m2(b), a.r * b.r + a.i * b.i) & vc_eq(q.Im * m2(b), a.i * b.r - a.r * b.i));
}
VC_TASK(ctor) { Complex z; is("default-zero", z, 0, 0); P a = in("a"); Complex c(a.r, a.i); is("re-im", c, a.r, a.i); Complex d(a.r); is("re-only", d, a.r, 0); Complex e(c); is("copy", e, a.r, a.i); kept(c, a); }
VC_TASK(assign) { P a = in("a"), b = in("b"); Complex x = C(a), y = C(b); Complex* p = &(x = y); is("assign", x, b.r, b.i); kept(y, b); vc_assert("returns-self", p == &x); x = x; is("self-assign", x, b.r, b.i); }
VC_TASK(assign_r) { P a = in("a"); double d = vc_real("d"); Complex x = C(a); Complex* p = &(x = d); is("assign-real", x, d, 0); vc_assert("returns-self", p == &x); }
VC_TASK(assign_r_alias) { P a = in("a"); Complex x = C(a); x = x.Im; is("assign-own-im", x, a.i, 0); Complex y = C(a); y = y.Re; is("assign-own-re", y, a.r, 0); }
VC_TASK(add_c) { P a = in("a"), b = in("b"); Complex x = C(a), y = C(b); is("sum", x + y, a.r + b.r, a.i + b.i); kept(x, a); kept(y, b); Complex* p = &(x += y); is("compound-sum", x, a.r + b.r, a.i + b.i); kept(y, b); vc_assert("returns-self", p == &x); }
VC_TASK(add_self) { P a = in("a"); Complex x = C(a); x += x; is("self-sum", x, 2 * a.r, 2 * a.i); }
VC_TASK(add_r) { P a = in("a"); double d = vc_real("d"); Complex x = C(a); is("sum-c-r", x + d, a.r + d, a.i); is("sum-r-c", d + x, a.r + d, a.i); kept(x, a); Complex* p = &(x += d); is("compound-sum-r", x, a.r + d, a.i); vc_assert("returns-self", p == &x); }
VC_TASK(add_r_alias) { P a = in("a"); Complex x = C(a); x += x.Re; is("own-re", x, 2 * a.r, a.i); Complex y = C(a); y += y.Im; is("own-im", y, a.r + a.i, a.i); }
VC_TASK(plus) { P a = in("a"); Complex x = C(a); is("unary-plus", +x, a.r, a.i); is("unary-minus", -x, -a.r, -a.i); kept(x, a); }
VC_TASK(sub_c) { P a = in("a"), b = in("b"); Complex x = C(a), y = C(b); is("difference", x - y, a.r - b.r, a.i - b.i); kept(x, a); kept(y, b); Complex* p = &(x -= y); is("compound-difference", x, a.r - b.r, a.i - b.i); kept(y, b); vc_assert("returns-self", p == &x); }
VC_TASK(sub_self) { P a = in("a"); Complex x = C(a); x -= x; is("self-difference", x, 0, 0); }
VC_TASK(sub_r) { P a = in("a"); double d = vc_real("d"); Complex x = C(a); is("difference-c-r", x - d, a.r - d, a.i); is("difference-r-c", d - x, d - a.r, -a.i); kept(x, a); Complex* p = &(x -= d); is("compound-difference-r", x, a.r - d, a.i); vc_assert("returns-self", p == &x); }
VC_TASK(sub_r_alias) { P a = in("a"); Complex x = C(a); x -= x.Re; is("own-re", x, 0, a.i); Complex y = C(a); y -= y.Im; is("own-im", y, a.r - a.i, a.i); }
VC_TASK(mul_c) { P a = in("a"), b = in("b"); Complex x = C(a), y = C(b); double r = a.r * b.r - a.i * b.i, i = a.r * b.i + a.i * b.r; is("product", x * y, r, i); kept(x, a); kept(y, b); Complex* p = &(x *= y); is("compound-product", x, r, i); kept(y, b); vc_assert("returns-self", p == &x); }
VC_TASK(mul_self) { P a = in("a"); Complex x = C(a); x *= x; is("self-product", x, a.r * a.r - a.i * a.i, 2 * a.r * a.i); Complex y = C(a); is("square", y * y, a.r * a.r - a.i * a.i, 2 * a.r * a.i); kept(y, a); }
VC_TASK(mul_r) { P a = in("a"); double d = vc_real("d"); Complex x = C(a); is("product-c-r", x * d, a.r * d, a.i * d); is("product-r-c", d * x, a.r * d, a.i * d); kept(x, a); Complex* p = &(x *= d); is("compound-product-r", x, a.r * d, a.i * d); vc_assert("returns-self", p == &x); }
VC_TASK(mul_r_alias) { P a = in("a"); Complex x = C(a); x *= x.Re; is("own-re", x, a.r * a.r, a.i * a.r); Complex y = C(a); y *= y.Im; is("own-im", y, a.r * a.i, a.i * a.i); }
VC_TASK(div_c) { P a = in("a"), b = in("b"); vc_assume(away(m2(b))); Complex x = C(a), y = C(b); isq("quotient", x / y, a, b); kept(x, a); kept(y, b); Complex* p = &(x /= y); isq("compound-quotient", x, a, b); kept(y, b); vc_assert("returns-self", p == &x); }
VC_TASK(div_self) { P a = in("a"); vc_assume(away(m2(a))); Complex x = C(a); x /= x; is("self-quotient", x, 1, 0); Complex y = C(a); is("quotient-of-equals", y / y, 1, 0); kept(y, a); }
VC_TASK(div_r) { P a = in("a"); double d = vc_real("d"); vc_assume(away(d)); Complex x = C(a); Complex q = x / d; vc_assert("quotient-c-r", vc_eq(q.Re * d, a.r) & vc_eq(q.Im * d, a.i)); kept(x, a); Complex* p = &(x /= d); vc_assert("compound-quotient-r", vc_eq(x.Re * d, a.r) & vc_eq(x.Im * d, a.i)); vc_assert("returns-self", p == &x); }
VC_TASK(div_r_alias) { P a = in("a"); vc_assume(away(a.r)); Complex x = C(a); x /= x.Re; vc_assert("own-re", vc_eq(x.Re, 1) & vc_eq(x.Im * a.r, a.i)); }
VC_TASK(div_r_alias_im) { P a = in("a"); vc_assume(away(a.i)); Complex x = C(a); x /= x.Im; vc_assert("own-im", vc_eq(x.Im, 1) & vc_eq(x.Re * a.i, a.r)); }
VC_TASK(rdiv) { P a = in("a"); double d = vc_real("d"); vc_assume(away(m2(a))); Complex x = C(a); P n = {d, 0}; isq("quotient-r-c", d / x, n, a); kept(x, a); }
VC_TASK(conj) { P a = in("a"); Complex x = C(a); is("conjugate", conjugate(x), a.r, -a.i); kept(x, a); }
VC_TASK(mod2) { P a = in("a"); Complex x = C(a); vc_assert("squared-modulus", vc_eq(mod2(x), m2(a))); kept(x, a); }
VC_TASK(mod) { P a = in("a"); Complex x = C(a); double m = mod(x); vc_assert("modulus", vc_le(0, m) & vc_eq(m * m, m2(a))); kept(x, a); }
VC_TASK(phase) { P a = in("a"); vc_assume((m2(a) == 0) | away(m2(a))); Complex x = C(a); double m = mod(x); Complex p = phase(x);
    if (m2(a) == 0) is("phase-of-zero", p, 0, 0);
    else { vc_assert("phase-times-modulus", vc_eq(p.Re * m, a.r) & vc_eq(p.Im * m, a.i)); vc_assert("modulus-positive", m > 0); }
    kept(x, a); }
VC_TASK(sqrt) { P a = in("a"); vc_assume((m2(a) == 0) | away(m2(a))); Complex x = C(a); Complex s = sqrt(x);
    vc_assert("square-is-argument", vc_eq(s.Re * s.Re - s.Im * s.Im, a.r) & vc_eq(2 * s.Re * s.Im, a.i)); vc_assert("principal-branch", vc_le(0, s.Re)); kept(x, a); }
VC_TASK(equal) { P a = in("a"), b = in("b"); double e = vc_real("eps"); Complex x = C(a), y = C(b); double d1 = a.r - b.r, d2 = a.i - b.i;
    vc_assert("equal-within-eps", Equal(x, y, e) == ((d1 < e) & (-d1 < e) & (d2 < e) & (-d2 < e))); vc_assert("equal-parts", Equal(x, b.r, b.i, e) == Equal(x, y, e)); }
VC_TASK(is_zero) { P a = in("a"); vc_assert("is-zero", IsZero(C(a)) == ((a.r == 0) & (a.i == 0))); }
VC_TASK(pow_zero) { Complex z; double u = vc_real("u"); vc_assume(u >= 0); Complex p = pow(z, u); is("zero-to-a-real-power", p, u == 0 ? 1 : 0, 0); }
VC_TASK(arg) { P a = in("a"); Complex x = C(a); vc_assert("argument", vc_eq(arg(x), atan2(a.i, a.r))); kept(x, a); }
VC_TASK(pow) { P a = in("a"); double u = vc_real("u"); vc_assume(away(m2(a)) & (u < 3) & (u > -3)); Complex x = C(a); Complex p = pow(x, u); double r = exp(0.5 * log(m2(a)) * u), t = u * atan2(a.i, a.r); vc_assert("real-power", vc_eq(p.Re, r * cos(t)) & vc_eq(p.Im, r * sin(t))); kept(x, a); }
VC_TASK(exp) { P a = in("a"); vc_assume((a.r < 3) & (a.r > -3)); Complex x = C(a); Complex p = exp(x); double r = exp(a.r); vc_assert("exponential", vc_eq(p.Re, r * cos(a.i)) & vc_eq(p.Im, r * sin(a.i))); kept(x, a); }
VC_TASK(polar) { double r = vc_real("r"), t = vc_real("t"); Complex p = polar(r, t); vc_assert("polar-form", vc_eq(p.Re, r * cos(t)) & vc_eq(p.Im, r * sin(t))); }
VC_TASK(pow_c) { P a = in("a"), w = in("w"); vc_assume(away(m2(a)) & (w.r < 3) & (w.r > -3) & (w.i < 3) & (w.i > -3)); Complex x = C(a), y = C(w); Complex p = pow(x, y);
    double l = 0.5 * log(m2(a)), th = atan2(a.i, a.r), r = exp(l * w.r - th * w.i), t = l * w.i + th * w.r; vc_assert("complex-power", vc_eq(p.Re, r * cos(t)) & vc_eq(p.Im, r * sin(t))); kept(x, a); kept(y, w); }
VC_TASK(pow_c_zero) { P w = in("w"); Complex z, y = C(w); Complex p = pow(z, y); is("zero-to-a-complex-power", p, (w.r == 0) & (w.i == 0) ? 1 : 0, 0); }
// defined in complex.cpp, not declared in complex.h: a caller that declares it reaches this form
Complex operator/(real, const Complex&);
VC_TASK(rdiv_direct) { P a = in("a"); double d = vc_real("d"); vc_assume(away(m2(a))); Complex x = C(a); P n = {d, 0}; isq("quotient-r-c-direct", d / x, n, a); kept(x, a); }
