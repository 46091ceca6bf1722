// C15: scalar estimators: exact mean, bounded faithful history
#include "vc.h"
#include <new>
#include "utility/dictionary.h"
#include "estimator/estimator.h"
static int same(double a, double b) { return vc_eq(a, b); }
static int same(const Complex& a, const Complex& b) { return vc_eq(a.Re, b.Re) & vc_eq(a.Im, b.Im); }
static double over(double a, double f) { return a / f; }
static Complex over(const Complex& a, double f) { return Complex(a.Re / f, a.Im / f); }
static double sum2(double a, double b) { return a + b; }
static Complex sum2(const Complex& a, const Complex& b) { return Complex(a.Re + b.Re, a.Im + b.Im); }
static void any(const char* n, double& x) { x = vc_real(n); }
static void any(const char* n, Complex& x) { x.Re = vc_real(n); x.Im = vc_real(n); }
static double part(const double& x, int k) { return x; }
static double part(const Complex& x, int k) { return k ? x.Im : x.Re; }
template <class T> struct Est { alignas(16) char raw[sizeof(Estimator<T>)]; Estimator<T>* p;
    // any state the class can be in: a history of n <= SIZE entries, every interval-th call recorded
    Est(int lo, int hi) : p((Estimator<T>*)raw) { new (&p->_value) EstimateClass<T>(); new (&p->_accumulator) T(); new (&p->Name) std::string(); int n = vc_int("entries", lo, hi); p->_end = n; int s = vc_int("interval", 1, 1 << 29); p->_interval = s;
        if (!vc_symbolic() && s % 3) p->_interval = s = 1 + s % 4; int c = vc_int("counter", 0, 1 << 29); if (!vc_symbolic()) c %= s; vc_assume(c < s); p->_counter = c; any("sum", p->_accumulator); p->_norm = vc_real_oc("norm", 0, 1e12); if (!vc_symbolic()) vc_assume(p->_norm > 1e-6); p->_ratio = vc_real("ratio"); any("mean", p->_value.Mean); any("error", p->_value.Error);
        vc_array("history", p->_history, SIZE, sizeof(T)); }
    ~Est() { if (!vc_symbolic()) p->Name.~basic_string(); }
    Estimator<T>* operator->() { return p; } };
#define E2(NAME) VC_TASK(NAME##_real) { NAME<double>(); } VC_TASK(NAME##_complex) { NAME<Complex>(); }
#define ENTRY(n) int j = vc_int("j", 0, SIZE - 1); vc_assume(j < (int)(n)); T h; h = e->_history[j];
#define REST vc_assert("earlier-entries-unchanged", same(e->_history[j], h));
template <class T> static void measure() { Est<T> e(1, SIZE); ENTRY(e->_end) T a = e->_accumulator, x; any("sample", x); double n = e->_norm; unsigned end = e->_end; e->Measure(x);
    vc_assert("value-grows-by-the-sample", same(e->Value(), sum2(a, x))); vc_assert("norm-grows-by-one", vc_eq(e->Norm(), n + 1)); vc_assert("history-length-unchanged", e->_end == end); REST }
E2(measure)
template <class T> static void clear() { Est<T> e(0, SIZE); e->ClearStatistics(); vc_assert("value-is-zero", same(e->Value(), T(0.0))); vc_assert("norm-is-one", vc_eq(e->Norm(), 1)); vc_assert("history-is-empty", e->_end == 0); vc_assert("every-call-records", (e->_interval == 1) & (e->_counter == 0)); }
E2(clear)
template <class T> static void squeeze() { Est<T> e(1, SIZE); ENTRY(e->_end) T a = e->_accumulator; double n = e->_norm, f = vc_real_oc("factor", 0, 1e6); if (!vc_symbolic()) vc_assume(f > 1e-3); unsigned end = e->_end; e->SqueezeStatistics(f);
    vc_assert("value-is-divided", same(e->Value(), over(a, f))); vc_assert("norm-is-divided", vc_eq(e->Norm(), n / f)); vc_assert("history-length-unchanged", e->_end == end); REST }
E2(squeeze)
template <class T> static void record() { Est<T> e(0, SIZE - 1); unsigned end = e->_end, c = e->_counter, s = e->_interval; T a = e->_accumulator; double n = e->_norm; e->AddStatistics();
    if (c + 1 >= s) { vc_assert("one-more-entry", e->_end == end + 1); vc_assert("entry-is-the-running-mean", same(e->_history[end], over(a, n))); vc_assert("counter-restarts", e->_counter == 0); }
    else { vc_assert("no-entry-between-intervals", e->_end == end); vc_assert("counter-advances", e->_counter == c + 1); }
    vc_assert("bounded", (e->_end <= SIZE) & (e->_interval == s)); vc_assert("value-and-norm-unchanged", same(e->Value(), a) & vc_eq(e->Norm(), n)); }
E2(record)
template <class T> static void record_keeps() { Est<T> e(1, SIZE - 1); ENTRY(e->_end) e->AddStatistics(); REST }
E2(record_keeps)
template <class T> static void thin() { Est<T> e(SIZE - 1, SIZE); vc_assume(e->_end == SIZE); unsigned s = e->_interval; T a = e->_accumulator; double n = e->_norm; int j = vc_int("j", 0, SIZE / 2 - 1); T h; h = e->_history[2 * j]; e->AddStatistics();
    vc_assert("half-as-long", e->_end == SIZE / 2); vc_assert("interval-doubles", e->_interval == 2 * s); vc_assert("keeps-every-second-entry-in-order", same(e->_history[j], h)); vc_assert("value-and-norm-unchanged", same(e->Value(), a) & vc_eq(e->Norm(), n)); }
E2(thin)
// error = half the spread of the last two thirds: at least the distance of any two entries of them ...
template <class T> static void spread_covers() { Est<T> e(1, SIZE); int n = e->_end, i = vc_int("i", 0, SIZE - 1), j = vc_int("j", 0, SIZE - 1), k = sizeof(T) == 8 ? 0 : vc_int("part", 0, 1); if (!vc_symbolic()) { i = n - 1 - i % n; j = n - 1 - j % n; }
    vc_assume((i < n) & (j < n) & (3 * i >= n) & (3 * j >= n)); double x = part(e->_history[i], k), y = part(e->_history[j], k); EstimateClass<T> r = e->Estimate(); vc_assert("twice-the-error-covers-any-two-late-entries", vc_le(x - y, 2 * part(r.Error, k))); }
E2(spread_covers)
// ... and no more than the width of any range that holds them all
template <class T> static void spread_tight() { Est<T> e(1, SIZE); int n = e->_end, k = sizeof(T) == 8 ? 0 : vc_int("part", 0, 1); double lo = vc_real("lowest"), w = vc_real_oc("width", 0, 1e6); vc_bound(e->_history, n / 3 - (n > 2 ? 1 : 0), k, lo, lo + w); EstimateClass<T> r = e->Estimate(); vc_assert("twice-the-error-is-within-the-range-of-the-late-entries", vc_le(2 * part(r.Error, k), w)); }
E2(spread_tight)
template <class T> static void estimate() { Est<T> e(0, SIZE); T a = e->_accumulator; double n = e->_norm; unsigned end = e->_end; int j = vc_int("j", 0, SIZE - 1); T h; h = e->_history[j]; EstimateClass<T> r = e->Estimate(); vc_assert("mean-is-value-over-norm", same(r.Mean, over(a, n))); vc_assert("estimating-changes-no-statistics", same(e->Value(), a) & vc_eq(e->Norm(), n) & (e->_end == end) & same(e->_history[j], h)); }
E2(estimate)
// ---- bundles (native: containers of the standard library)
VC_TASK(bundle) { EstimatorBundle<double> b; int n = vc_int("estimators", 1, 4), k = vc_int("calls", 0, 12), s[4]; for (int i = 0; i < n; i++) { b.AddEstimator(std::string(1, 'a' + i)); } vc_assert("as-many-as-added", b.HowMany() == n); double v[4] = {0, 0, 0, 0};
    for (int c = 0; c < k; c++) { int w = vc_int("which", 0, 3) % n; double x = vc_int("sample", -100, 100); b[w].Measure(x); v[w] += x; b.AddStatistics(); }
    for (int i = 0; i < n; i++) { vc_assert("by-name-is-by-index", &b[std::string(1, 'a' + i)] == &b[i]); vc_assert("each-holds-its-own-samples", vc_eq(b[i].Value(), v[i])); vc_assert("each-recorded-every-call", (int)b[i]._end == k); } }
