/* direct access to the expander's counter; optional */
#include <stdint.h>
#include <string.h>
#include "KAT_NIST_rng.h"
void kg_xinit(int, uint8_t *, uint8_t *, unsigned long);
int kg_xs_ctr(uint8_t *seed, const uint8_t ctr[16], unsigned long rem, uint8_t *out, unsigned long n) {
    KAT_NIST_AES_XOF_struct s; uint8_t d[8]; memcpy(d, ctr, 8);
    if (KAT_NIST_seedexpander_init(&s, seed, d, 1000)) return -9;
    s.length_remaining = rem; memcpy(s.ctr, ctr, 16); return KAT_NIST_seedexpander(&s, out, n);
}
