// C07: see markov.h
#include "markov.h"
VC_TASK(chain) { chain_task(P7); }
