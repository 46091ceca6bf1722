// Contract harness interface.  The same harness source is used twice:
//  * compiled to LLVM IR together with /repo's sources and read by the verifier
//    (vc/exec.py): vc_int/vc_real are universally quantified inputs, vc_assume is
//    the precondition, vc_assert the postcondition - proved for all inputs;
//  * compiled natively with /repo's sources (harness/vcrt.cpp): vc_int/vc_real
//    replay the verifier's counterexample or draw boundary/random values.
#ifndef VC_H
#define VC_H
extern "C" {
int vc_int(const char* name, int lo, int hi);              // any integer in [lo,hi]
double vc_real(const char* name);                          // any real
double vc_real_co(const char* name, double lo, double hi); // any real in [lo,hi)
double vc_real_oc(const char* name, double lo, double hi); // any real in (lo,hi]
int vc_bool(const char* name);                             // 0 or 1
void vc_assume(int c);
void vc_assert(const char* name, int c);
void vc_fact(const char* name, int c);                      // assert, then use as a lemma
int vc_eq(double a, double b);                             // a == b (exact for the verifier)
int vc_le(double a, double b);                             // a <= b
void vc_cover(const char* name);
void* vc_carray(const char* name, unsigned n);              // n complex numbers with arbitrary contents
int* vc_iarray(const char* name, unsigned n, int lo, int hi);  // n integers in [lo,hi] with arbitrary contents
void vc_array(const char* name, void* p, unsigned n, unsigned stride); // n elements of 1 or 2 reals (|x| < 1e30) at p, arbitrary contents
void vc_bound(void* p, unsigned from, unsigned k, double lo, double hi); // the k-th real of each element from index from on lies in [lo,hi]
void vc_freeze(const void* p, unsigned bytes);              // from here on the object at p ...
void vc_frozen(const char* name, const void* p);            // ... has not been written
int vc_symbolic();                                         // 1 for the verifier, 0 natively
}
#define VC_TASK(n) extern "C" void vc_task_##n()
#endif
