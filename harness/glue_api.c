/* Flat C interface to one build of LESS: public API and parameters.  Together
 * with glue_unit.c the only harness files that include the repository's headers. */
#include <string.h>
#include <stdint.h>
#include "api.h"
#include "codes.h"
#include "monomial_mat.h"
#include "fq_arith.h"
#include "seedtree.h"
#include "utils.h"
#include "rng.h"
#include "sha3.h"
#include "LESS.h"
#include "glue.h"
#if defined(N_pad)
#define NCOLS N_pad
#else
#define NCOLS N
#endif

#if defined(CATEGORY_1)
#define CAT 1
#elif defined(CATEGORY_3)
#define CAT 3
#else
#define CAT 5
#endif
void g_info(struct g_params *p) {
    memset(p, 0, sizeof *p);
    p->cat = CAT; p->n = N; p->k = K; p->t = T; p->w = W; p->nk = NUM_KEYPAIRS;
    p->seedlen = SEED_LENGTH_BYTES; p->maxpub = MAX_PUBLISHED_SEEDS; p->maxbytes = SEED_TREE_MAX_PUBLISHED_BYTES;
    p->permbits = BITS_TO_REPRESENT(N);
    p->pkbytes = CRYPTO_PUBLICKEYBYTES; p->skbytes = CRYPTO_SECRETKEYBYTES; p->sigmax = CRYPTO_BYTES;
    p->actbytes = MONO_ACTION_PACKEDBYTES; p->rrefbytes = RREF_MAT_PACKEDBYTES;
    p->leaves = NUM_LEAVES_OF_SEED_TREE; p->stride = NCOLS;
    p->padded =
#if defined(N_pad)
        1;
#else
        0;
#endif
}

/* ---- public API ---- */
int g_keypair(uint8_t *pk, uint8_t *sk) { return crypto_sign_keypair(pk, sk); }
int g_sign(uint8_t *sm, unsigned long long *smlen, const uint8_t *m, unsigned long long mlen, const uint8_t *sk)
{ return crypto_sign(sm, smlen, m, mlen, sk); }
int g_open(uint8_t *m, unsigned long long *mlen, const uint8_t *sm, unsigned long long smlen, const uint8_t *pk)
{ return crypto_sign_open(m, mlen, sm, smlen, pk); }

/* ---- system random stream ---- */
void g_seed(const uint8_t *seed, unsigned n) { initialize_csprng(&platform_csprng_state, seed, n); }
void g_rng_get(void *out) { memcpy(out, &platform_csprng_state, sizeof platform_csprng_state); }
void g_rng_set(const void *in) { memcpy(&platform_csprng_state, in, sizeof platform_csprng_state); }
const void *g_rng_addr(void) { return &platform_csprng_state; }
unsigned g_rng_size(void) { return sizeof platform_csprng_state; }
void g_random(uint8_t *o, unsigned long n) { randombytes(o, n); }
void g_xof(uint8_t *o, unsigned long n, const uint8_t *seed, unsigned seedlen) {
    SHAKE_STATE_STRUCT s; initialize_csprng(&s, seed, seedlen); csprng_randombytes(o, n, &s);
}


uint8_t poison_byte = 0xA5;
void g_set_poison(uint8_t b) { poison_byte = b; }
