/* Programmable hash/XOF environment.
 *
 * The code under test reaches Keccak only through the incremental SHAKE/SHA-3
 * entry points.  The harness links them through --wrap and, in mode 1, answers
 * them from an independent Keccak kept in the caller's context, plus a table of
 * scripts: "the XOF with this input starts with these bytes" (a programmed
 * random oracle).  The reference model draws from the same environment, so both
 * sides see the same answers.  Mode 0 passes every call to the repository's own
 * functions. */
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { ALG_SHAKE128 = 0, ALG_SHAKE256, ALG_SHA3_256, ALG_SHA3_384, ALG_SHA3_512 };

extern int env_mode;                    /* 0 = repository's Keccak, 1 = environment */
extern int env_keep_scripts;            /* env_reset keeps the scripts (later ones replace earlier ones) */
void env_reset(void);                   /* forget all scripts and counters */

/* independent Keccak with state in 26 words */
void ek_init(uint64_t c[26]);
void ek_absorb(uint64_t c[26], int alg, const uint8_t *in, size_t n);
void ek_finalize(uint64_t c[26], int alg);
void ek_squeeze(uint64_t c[26], int alg, uint8_t *out, size_t n);

/* the same through the script table (used by the model) */
void ex_absorb(uint64_t c[26], int alg, const uint8_t *in, size_t n);
void ex_finalize(uint64_t c[26], int alg);
void ex_squeeze(uint64_t c[26], int alg, uint8_t *out, size_t n);
void ex_digest(uint64_t c[26], int alg, uint8_t *out);

/* program: XOF(input) := bytes || real stream */
void env_script(int alg, const uint8_t *in, size_t inlen, const uint8_t *bytes, size_t n);
/* the XOF whose input is the next SHA-3 digest starts with bytes (both for the
 * model and for the code: the digest is a function of the hash input) */
void env_script_next_digest(int xof_alg, const uint8_t *bytes, size_t n);

extern uint8_t env_last_digest[64];      /* last SHA-3 digest handed to the code under test */
extern unsigned long env_digests;       /* number of them */
extern unsigned long env_calls;         /* wrapped calls answered */
extern unsigned long env_script_hits;   /* squeezes served from a script */
extern const void *env_watch;           /* context whose squeezed bytes are counted */
extern unsigned long env_watch_bytes, env_watch_inits;
/* optional callback at every wrapped call (scheduler hook) */
extern void (*env_hook)(void);
/* message fast path: absorb calls of at least this many bytes are replaced, in
 * mode 1, by absorbing their length and a few sample words (0 = off) */
extern size_t env_big_absorb;
#ifdef __cplusplus
}
#endif
