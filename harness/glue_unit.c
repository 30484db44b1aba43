/* Flat C interface to the building blocks of one build of LESS.  Compiled once
 * per group (GLUE_RREF, GLUE_CANON, ...): a group whose
 * functions a change to the repository renames or re-types is left out, and the
 * property is then decided through the public API only. */
#include <string.h>
#include <stdint.h>
#include "api.h"
#include "codes.h"
#include "monomial_mat.h"
#include "fq_arith.h"
#include "seedtree.h"
#include "utils.h"
#include "rng.h"
#include "sha3.h"
#include "glue.h"

#if defined(N_pad)
#define NCOLS N_pad
#define MCOLS N_pad
#define ACOLS K_pad
#define PIVCOLS N_pad
#define CCOLS N_K_pad
#else
#define NCOLS N
#define MCOLS N
#define ACOLS K
#define PIVCOLS N
#define CCOLS (N-K)
#endif

extern uint8_t poison_byte;

/* ---- conversions ---- */
static void in_mat(generator_mat_t *g, const uint8_t *a) {
    memset(g, poison_byte, sizeof *g);
    for (int i = 0; i < K; i++) memcpy(g->values[i], a + (size_t)i*N, N);
}
static void out_mat(uint8_t *a, const generator_mat_t *g) { for (int i = 0; i < K; i++) memcpy(a + (size_t)i*N, g->values[i], N); }
static void in_mono(monomial_t *m, const uint8_t *coef, const uint16_t *perm) {
    memset(m, poison_byte, sizeof *m);
    for (int i = 0; i < N; i++) { m->coefficients[i] = coef[i]; m->permutation[i] = perm[i]; }
}
static void out_mono(uint8_t *coef, uint16_t *perm, const monomial_t *m) { for (int i = 0; i < N; i++) { coef[i] = m->coefficients[i]; perm[i] = m->permutation[i]; } }
static void in_act(monomial_action_IS_t *m, const uint8_t *coef, const uint16_t *perm) {
    memset(m, poison_byte, sizeof *m);
    for (int i = 0; i < K; i++) { m->coefficients[i] = coef[i]; m->permutation[i] = perm[i]; }
}
static void out_act(uint8_t *coef, uint16_t *perm, const monomial_action_IS_t *m) { for (int i = 0; i < K; i++) { coef[i] = m->coefficients[i]; perm[i] = m->permutation[i]; } }

#ifdef GLUE_RREF
/* ---- codes.h ---- */
int g_rref(uint8_t *a, uint8_t *piv) {
    static generator_mat_t g; static uint8_t p[PIVCOLS];
    in_mat(&g, a); memset(p, 0, sizeof p);
    int r = generator_RREF(&g, p); out_mat(a, &g); memcpy(piv, p, N);
    return r;
}
void g_monomul(uint8_t *out, const uint8_t *a, const uint8_t *coef, const uint16_t *perm) {
    static generator_mat_t g, r; static monomial_t m;
    in_mat(&g, a); in_mono(&m, coef, perm); memset(&r, poison_byte, sizeof r);
    generator_monomial_mul(&r, &g, &m); out_mat(out, &r);
}
#endif
#ifdef GLUE_CANON
void g_lexmin(uint8_t *v, unsigned dst, const uint8_t *a, unsigned src) {
    static generator_mat_t g; static normalized_IS_t V; in_mat(&g, a);
    memcpy(&V, v, sizeof V); lex_minimize(&V, dst, &g, src); memcpy(v, &V, sizeof V);
}
void g_lexmin_all(uint8_t *v, const uint8_t *a) {          /* columns K..N-1 into 0..N-K-1 */
    static generator_mat_t g; static normalized_IS_t V; in_mat(&g, a); memset(&V, poison_byte, sizeof V);
    for (int j = 0; j < N-K; j++) lex_minimize(&V, j, &g, K + j);
    memcpy(v, &V, sizeof V);
}
void g_lexsort(uint8_t *v) { static normalized_IS_t V; memcpy(&V, v, sizeof V); lex_sort_cols(&V); memcpy(v, &V, sizeof V); }
void g_prepare(uint8_t *v, uint8_t *acoef, uint16_t *aperm, const uint8_t *a, const uint8_t *coef, const uint16_t *perm) {
    static generator_mat_t g; static monomial_t m; static normalized_IS_t V; static monomial_action_IS_t q;
    in_mat(&g, a); in_mono(&m, coef, perm); memset(&V, poison_byte, sizeof V); memset(&q, poison_byte, sizeof q);
    prepare_digest_input(&V, &q, &g, &m); memcpy(v, &V, sizeof V); out_act(acoef, aperm, &q);
}
unsigned g_vsize(void) { return sizeof(normalized_IS_t); }
#endif
#ifdef GLUE_APPLY
void g_apply_action(uint8_t *out, const uint8_t *a, const uint8_t *coef, const uint16_t *perm) {
    static generator_mat_t g, r; static monomial_action_IS_t q;
    in_mat(&g, a); in_act(&q, coef, perm); memset(&r, poison_byte, sizeof r);
    apply_action_to_G(&r, &g, &q); out_mat(out, &r);
}
#endif
#ifdef GLUE_CODEC
void g_compress_rref(uint8_t *out, const uint8_t *a, const uint8_t *piv) {
    static generator_mat_t g; static uint8_t p[PIVCOLS]; in_mat(&g, a); memset(p, 0, sizeof p); memcpy(p, piv, N);
    compress_rref(out, &g, p);
}
void g_expand_rref(uint8_t *a, const uint8_t *in) {
    static generator_mat_t g; memset(&g, poison_byte, sizeof g); expand_to_rref(&g, in); out_mat(a, &g);
}
#endif
#ifdef GLUE_GEN
/* systematic expansion of a public-code seed, expanded to a full matrix */
void g_sf_expand(uint8_t *a, const uint8_t *seed) {
    static rref_generator_mat_t c; static generator_mat_t g; memset(&c, poison_byte, sizeof c); memset(&g, poison_byte, sizeof g);
    generator_SF_seed_expand(&c, seed); generator_rref_expand(&g, &c); out_mat(a, &g);
}
#endif
#ifdef GLUE_CODEC
/* compact then expand a reduced matrix */
void g_compact_expand(uint8_t *out, const uint8_t *a, const uint8_t *piv) {
    static rref_generator_mat_t c; static generator_mat_t g; static uint8_t p[PIVCOLS];
    in_mat(&g, a); memset(p, 0, sizeof p); memcpy(p, piv, N); memset(&c, poison_byte, sizeof c);
    generator_rref_compact(&c, &g, p); memset(&g, poison_byte, sizeof g); generator_rref_expand(&g, &c); out_mat(out, &g);
}

#endif
#ifdef GLUE_MONO
/* ---- monomial_mat.h ---- */
void g_mono_mul(uint8_t *oc, uint16_t *op, const uint8_t *ac, const uint16_t *ap, const uint8_t *bc, const uint16_t *bp) {
    static monomial_t r, a, b; in_mono(&a, ac, ap); in_mono(&b, bc, bp); memset(&r, poison_byte, sizeof r);
    monomial_mat_mul(&r, &a, &b); out_mono(oc, op, &r);
}
void g_mono_inv(uint8_t *oc, uint16_t *op, const uint8_t *ac, const uint16_t *ap) {
    static monomial_t r, a; in_mono(&a, ac, ap); memset(&r, poison_byte, sizeof r); monomial_mat_inv(&r, &a); out_mono(oc, op, &r);
}
void g_mono_id(uint8_t *oc, uint16_t *op) { static monomial_t r; memset(&r, poison_byte, sizeof r); monomial_mat_id(&r); out_mono(oc, op, &r); }
#endif
#ifdef GLUE_SAMPLE
void g_mono_rnd(uint8_t *oc, uint16_t *op) { static monomial_t r; memset(&r, poison_byte, sizeof r); monomial_mat_rnd(&r); out_mono(oc, op, &r); }
void g_mono_salt(uint8_t *oc, uint16_t *op, const uint8_t *seed, const uint8_t *salt, unsigned round) {
    static monomial_t r; memset(&r, poison_byte, sizeof r); monomial_mat_seed_expand_salt_rnd(&r, seed, salt, (uint16_t)round); out_mono(oc, op, &r);
}
void g_mono_prikey(uint8_t *oc, uint16_t *op, const uint8_t *seed) {
    static monomial_t r; memset(&r, poison_byte, sizeof r); monomial_mat_seed_expand_prikey(&r, seed); out_mono(oc, op, &r);
}
#endif
#ifdef GLUE_ACT
void g_compose(uint8_t *oc, uint16_t *op, const uint8_t *qc, const uint16_t *qp, const uint8_t *ac, const uint16_t *ap) {
    static monomial_t q; static monomial_action_IS_t a, o; in_mono(&q, qc, qp); in_act(&a, ac, ap); memset(&o, poison_byte, sizeof o);
    monomial_compose_action(&o, &q, &a); out_act(oc, op, &o);
}
#endif
#ifdef GLUE_ACTCODEC
void g_compress_act(uint8_t *out, const uint8_t *c, const uint16_t *p) { static monomial_action_IS_t a; in_act(&a, c, p); compress_monom_action(out, &a); }
void g_expand_act(uint8_t *c, uint16_t *p, const uint8_t *in) { static monomial_action_IS_t a; memset(&a, poison_byte, sizeof a); expand_to_monom_action(&a, in); out_act(c, p, &a); }
#endif
#ifdef GLUE_VALID
int g_valid(const uint8_t *c, const uint16_t *p) { static monomial_action_IS_t a; in_act(&a, c, p); return is_monom_action_valid(&a); }

#endif
#ifdef GLUE_TREE
/* ---- seed tree, challenge ---- */
void g_tree_gen(uint8_t *tree, const uint8_t *root, const uint8_t *salt) { generate_seed_tree_from_root(tree, root, salt); }
unsigned g_tree_path(const uint8_t *tree, const uint8_t *hidden, uint8_t *out) { return seed_tree_path(tree, hidden, out); }
unsigned g_tree_rebuild(uint8_t *tree, const uint8_t *hidden, const uint8_t *stored, const uint8_t *salt) { return rebuild_seed_tree_leaves(tree, hidden, stored, salt); }
#endif
#ifdef GLUE_CHAL
void g_challenge(uint8_t *f, const uint8_t *digest) { memset(f, 0, T); expand_digest_to_fixed_weight(f, digest); }

#endif
#ifdef GLUE_FIELD
/* ---- field ---- */
unsigned g_fq_red(unsigned x) { return fq_red((FQ_DOUBLEPREC)x); }
unsigned g_fq_inv(unsigned x) { return fq_inv((FQ_ELEM)x); }
unsigned g_mul_red(unsigned a, unsigned b) {
#if defined(N_pad)
    return br_red(br_mul((FQ_ELEM)a, (FQ_ELEM)b));
#else
    return fq_red((FQ_DOUBLEPREC)((FQ_DOUBLEPREC)a * (FQ_DOUBLEPREC)b));
#endif
}
#endif
#ifdef GLUE_PRINT
#include <stdio.h>
__attribute__((weak)) void monomial_mat_pretty_print(const monomial_t *const);
/* kind 0: matrix, 1: compact matrix (a: K x (N-K), pos: K), 2..4: monomial; returns 1 if the object changed, -1 if there is no such function */
int g_print(int kind, char *name, const uint8_t *a, const uint16_t *pos) {
    static generator_mat_t g, g2; static rref_generator_mat_t c, c2; static monomial_t m, m2; int r = 0;
    if (kind == 0) { in_mat(&g, a); g2 = g; generator_pretty_print_name(name, &g); r = memcmp(&g, &g2, sizeof g); }
    else if (kind == 1) { memset(&c, poison_byte, sizeof c); for (int i = 0; i < K; i++) { memcpy(c.values[i], a + i*(N-K), N-K); } for (int i = 0; i < K; i++) c.column_pos[i] = pos[i]; c2 = c; generator_rref_pretty_print_name(name, &c); r = memcmp(&c, &c2, sizeof c); }
    else { in_mono(&m, a, pos); memcpy(&m2, &m, sizeof m); if (kind == 2) monomial_mat_pretty_print_name(name, &m); else if (kind == 3) monomial_mat_print_exp_name(name, &m); else if (monomial_mat_pretty_print) monomial_mat_pretty_print(&m); else return -1; r = memcmp(&m, &m2, sizeof m); }
    fflush(stderr); fflush(stdout); return r ? 1 : 0;
}
#endif
