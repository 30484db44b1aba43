#pragma once
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
struct g_params { int cat, n, k, t, w, nk, seedlen, maxpub, maxbytes, permbits, pkbytes, skbytes, sigmax, actbytes, rrefbytes, leaves, stride, padded; };
void g_set_poison(uint8_t b);
void g_info(struct g_params *p);
int g_keypair(uint8_t *pk, uint8_t *sk);
int g_sign(uint8_t *sm, unsigned long long *smlen, const uint8_t *m, unsigned long long mlen, const uint8_t *sk);
int g_open(uint8_t *m, unsigned long long *mlen, const uint8_t *sm, unsigned long long smlen, const uint8_t *pk);
void g_seed(const uint8_t *seed, unsigned n);
void g_rng_get(void *out);
void g_rng_set(const void *in);
const void *g_rng_addr(void);
unsigned g_rng_size(void);
void g_random(uint8_t *o, unsigned long n);
void g_xof(uint8_t *o, unsigned long n, const uint8_t *seed, unsigned seedlen);
int g_rref(uint8_t *a, uint8_t *piv);
void g_monomul(uint8_t *out, const uint8_t *a, const uint8_t *coef, const uint16_t *perm);
void g_lexmin(uint8_t *v, unsigned dst, const uint8_t *a, unsigned src);
void g_lexmin_all(uint8_t *v, const uint8_t *a);
void g_lexsort(uint8_t *v);
void g_prepare(uint8_t *v, uint8_t *acoef, uint16_t *aperm, const uint8_t *a, const uint8_t *coef, const uint16_t *perm);
unsigned g_vsize(void);
void g_apply_action(uint8_t *out, const uint8_t *a, const uint8_t *coef, const uint16_t *perm);
void g_compress_rref(uint8_t *out, const uint8_t *a, const uint8_t *piv);
void g_expand_rref(uint8_t *a, const uint8_t *in);
void g_sf_expand(uint8_t *a, const uint8_t *seed);
void g_compact_expand(uint8_t *out, const uint8_t *a, const uint8_t *piv);
void g_mono_mul(uint8_t *oc, uint16_t *op, const uint8_t *ac, const uint16_t *ap, const uint8_t *bc, const uint16_t *bp);
void g_mono_inv(uint8_t *oc, uint16_t *op, const uint8_t *ac, const uint16_t *ap);
void g_mono_id(uint8_t *oc, uint16_t *op);
void g_mono_rnd(uint8_t *oc, uint16_t *op);
void g_mono_salt(uint8_t *oc, uint16_t *op, const uint8_t *seed, const uint8_t *salt, unsigned round);
void g_mono_prikey(uint8_t *oc, uint16_t *op, const uint8_t *seed);
void g_compose(uint8_t *oc, uint16_t *op, const uint8_t *qc, const uint16_t *qp, const uint8_t *ac, const uint16_t *ap);
void g_compress_act(uint8_t *out, const uint8_t *c, const uint16_t *p);
void g_expand_act(uint8_t *c, uint16_t *p, const uint8_t *in);
int g_valid(const uint8_t *c, const uint16_t *p);
int g_print(int kind, char *name, const uint8_t *a, const uint16_t *pos);
void g_tree_gen(uint8_t *tree, const uint8_t *root, const uint8_t *salt);
unsigned g_tree_path(const uint8_t *tree, const uint8_t *hidden, uint8_t *out);
unsigned g_tree_rebuild(uint8_t *tree, const uint8_t *hidden, const uint8_t *stored, const uint8_t *salt);
void g_challenge(uint8_t *f, const uint8_t *digest);
unsigned g_fq_red(unsigned x);
unsigned g_fq_inv(unsigned x);
unsigned g_mul_red(unsigned a, unsigned b);
#ifdef __cplusplus
}
#endif
