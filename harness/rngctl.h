// drive the real generator: natively its next outputs are chosen by inverting the
// engine's tempering; for the verifier every output is an arbitrary 32-bit value
#ifndef RNGCTL_H
#define RNGCTL_H
#include "vc.h"
#include "utility/rng.h"
extern "C" { unsigned vc_u32(const char* name); double vc_draw(int k); int vc_ndraws(); void vc_setdraw(int k, unsigned v); void vc_draws_from(const void* engine_index); }
static inline unsigned untemper(unsigned y) {
    y ^= y >> 18;
    y ^= (y << 15) & 0xefc60000u;
    unsigned t = y;
    for (int i = 0; i < 5; i++) t = y ^ ((t << 7) & 0x9d2c5680u);
    y = t;
    t = y;
    for (int i = 0; i < 3; i++) t = y ^ (t >> 11);
    return t;
}
// prepare the generator: the next n outputs are inputs named "rng"
static inline void rng_ready(RandomFactory& f, int n) {
    if (vc_symbolic()) return;
    f._eng.seed(1);
    for (int i = 0; i < n; i++) { unsigned v = vc_u32("rng"); f._eng._M_x[i] = untemper(v); vc_setdraw(i, v); }
    f._eng._M_p = 0;
    vc_draws_from(&f._eng._M_p);
}
#endif
