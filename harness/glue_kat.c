/* Flat interface to one copy of the known-answer generator's random source. */
#include <stdint.h>
#include <stdlib.h>
#include "KAT_NIST_rng.h"
void kg_init(uint8_t *entropy, uint8_t *pers, int strength) { KAT_NIST_randombytes_init(entropy, pers, strength); }
int kg_random(uint8_t *x, unsigned long long n) { return KAT_NIST_randombytes(x, n); }
static KAT_NIST_AES_XOF_struct xs[4];
int kg_xinit(int i, uint8_t *seed, uint8_t *div, unsigned long maxlen) { return KAT_NIST_seedexpander_init(&xs[i], seed, div, maxlen); }
int kg_x(int i, uint8_t *x, unsigned long n) { return KAT_NIST_seedexpander(&xs[i], x, n); }
void kg_xcopy(int to, int from) { xs[to] = xs[from]; }
void kg_codes(int *c) { c[0] = KAT_NIST_RNG_SUCCESS; c[1] = KAT_NIST_RNG_BAD_MAXLEN; c[2] = KAT_NIST_RNG_BAD_OUTBUF; c[3] = KAT_NIST_RNG_BAD_REQ_LEN; }
