/* Emulation of the NEON intrinsics used by the NEON implementation, on GCC vector
 * types, from the definitions in the Arm intrinsics reference.  Unused lanes and
 * out-of-range table indices follow the reference (TBL: index >= 16 gives 0). */
#pragma once
#include <stdint.h>
#include <string.h>
#define VEM static inline __attribute__((always_inline, unused))
typedef uint8_t uint8x16_t __attribute__((vector_size(16)));
typedef uint16_t uint16x8_t __attribute__((vector_size(16)));
typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
typedef uint64_t uint64x2_t __attribute__((vector_size(16)));
typedef int8_t int8x16_t __attribute__((vector_size(16)));
typedef int16_t int16x8_t __attribute__((vector_size(16)));
typedef int32_t int32x4_t __attribute__((vector_size(16)));
typedef int64_t int64x2_t __attribute__((vector_size(16)));
typedef uint8_t uint8x8_t __attribute__((vector_size(8)));
typedef uint16_t uint16x4_t __attribute__((vector_size(8)));
typedef uint32_t uint32x2_t __attribute__((vector_size(8)));
typedef uint64_t uint64x1_t __attribute__((vector_size(8)));
typedef int8_t int8x8_t __attribute__((vector_size(8)));
typedef int16_t int16x4_t __attribute__((vector_size(8)));
typedef uint8x16_t __Uint8x16_t; typedef uint16x8_t __Uint16x8_t; typedef uint32x4_t __Uint32x4_t; typedef uint64x2_t __Uint64x2_t;
typedef int8x16_t __Int8x16_t; typedef int16x8_t __Int16x8_t; typedef int32x4_t __Int32x4_t; typedef int64x2_t __Int64x2_t;
typedef uint8x8_t __Uint8x8_t; typedef uint16x4_t __Uint16x4_t; typedef uint32x2_t __Uint32x2_t; typedef uint64x1_t __Uint64x1_t; typedef int8x8_t __Int8x8_t;

#define VEM_TYPE(sfx, el, vt, n, ht, hn) \
 VEM vt vld1q_##sfx(const el *p) { vt v; memcpy(&v, p, 16); return v; } \
 VEM void vst1q_##sfx(el *p, vt v) { memcpy(p, &v, 16); } \
 VEM ht vld1_##sfx(const el *p) { ht v; memcpy(&v, p, 8); return v; } \
 VEM void vst1_##sfx(el *p, ht v) { memcpy(p, &v, 8); } \
 VEM vt vaddq_##sfx(vt a, vt b) { return a + b; } \
 VEM vt vsubq_##sfx(vt a, vt b) { return a - b; } \
 VEM ht vadd_##sfx(ht a, ht b) { return a + b; } \
 VEM ht vsub_##sfx(ht a, ht b) { return a - b; } \
 VEM vt vandq_##sfx(vt a, vt b) { return a & b; } \
 VEM vt vorrq_##sfx(vt a, vt b) { return a | b; } \
 VEM vt veorq_##sfx(vt a, vt b) { return a ^ b; } \
 VEM vt vbicq_##sfx(vt a, vt b) { return a & ~b; } \
 VEM vt vmvnq_##sfx(vt a) { return ~a; } \
 VEM vt vdupq_n_##sfx(el x) { vt v; for (int i = 0; i < n; i++) v[i] = x; return v; } \
 VEM vt vmovq_n_##sfx(el x) { return vdupq_n_##sfx(x); } \
 VEM ht vdup_n_##sfx(el x) { ht v; for (int i = 0; i < hn; i++) v[i] = x; return v; } \
 VEM ht vget_low_##sfx(vt a) { ht v; memcpy(&v, &a, 8); return v; } \
 VEM ht vget_high_##sfx(vt a) { ht v; memcpy(&v, (char *)&a + 8, 8); return v; } \
 VEM vt vcombine_##sfx(ht a, ht b) { vt v; memcpy(&v, &a, 8); memcpy((char *)&v + 8, &b, 8); return v; } \
 VEM vt vceqq_##sfx(vt a, vt b) { return (vt)(a == b); } \
 VEM vt vcgeq_##sfx(vt a, vt b) { return (vt)(a >= b); } \
 VEM vt vcgtq_##sfx(vt a, vt b) { return (vt)(a > b); } \
 VEM vt vcleq_##sfx(vt a, vt b) { return (vt)(a <= b); } \
 VEM vt vcltq_##sfx(vt a, vt b) { return (vt)(a < b); } \
 VEM vt vmaxq_##sfx(vt a, vt b) { vt m = (vt)(a > b); return (a & m) | (b & ~m); } \
 VEM vt vminq_##sfx(vt a, vt b) { vt m = (vt)(a < b); return (a & m) | (b & ~m); } \
 VEM vt vzip1q_##sfx(vt a, vt b) { vt v; for (int i = 0; i < n/2; i++) { v[2*i] = a[i]; v[2*i+1] = b[i]; } return v; } \
 VEM vt vzip2q_##sfx(vt a, vt b) { vt v; for (int i = 0; i < n/2; i++) { v[2*i] = a[n/2+i]; v[2*i+1] = b[n/2+i]; } return v; } \
 VEM vt vuzp1q_##sfx(vt a, vt b) { vt v; for (int i = 0; i < n/2; i++) { v[i] = a[2*i]; v[n/2+i] = b[2*i]; } return v; } \
 VEM vt vuzp2q_##sfx(vt a, vt b) { vt v; for (int i = 0; i < n/2; i++) { v[i] = a[2*i+1]; v[n/2+i] = b[2*i+1]; } return v; } \
 VEM vt vshlq_n_##sfx(vt a, const int s) { vt v; for (int i = 0; i < n; i++) v[i] = (el)((uint64_t)a[i] << s); return v; } \
 VEM vt vshrq_n_##sfx(vt a, const int s) { vt v; for (int i = 0; i < n; i++) v[i] = s >= (int)(8*sizeof(el)) ? (el)((el)-1 < 0 && a[i] < 0 ? -1 : 0) : (el)(a[i] >> s); return v; }
VEM_TYPE(u8, uint8_t, uint8x16_t, 16, uint8x8_t, 8)
VEM_TYPE(u16, uint16_t, uint16x8_t, 8, uint16x4_t, 4)
VEM_TYPE(u32, uint32_t, uint32x4_t, 4, uint32x2_t, 2)
VEM_TYPE(u64, uint64_t, uint64x2_t, 2, uint64x1_t, 1)
VEM_TYPE(s8, int8_t, int8x16_t, 16, int8x8_t, 8)
VEM_TYPE(s16, int16_t, int16x8_t, 8, int16x4_t, 4)
VEM uint8x16_t vmulq_u8(uint8x16_t a, uint8x16_t b) { return a*b; }
VEM uint16x8_t vmulq_u16(uint16x8_t a, uint16x8_t b) { return a*b; }
VEM uint16x8_t vmovl_u8(uint8x8_t a) { uint16x8_t v; for (int i = 0; i < 8; i++) v[i] = a[i]; return v; }
VEM uint16x8_t vmovl_high_u8(uint8x16_t a) { uint16x8_t v; for (int i = 0; i < 8; i++) v[i] = a[8+i]; return v; }
VEM uint8x8_t vmovn_u16(uint16x8_t a) { uint8x8_t v; for (int i = 0; i < 8; i++) v[i] = (uint8_t)a[i]; return v; }
VEM uint16x8_t vmull_u8(uint8x8_t a, uint8x8_t b) { uint16x8_t v; for (int i = 0; i < 8; i++) v[i] = (uint16_t)(a[i]*b[i]); return v; }
VEM uint8x16_t vqtbl1q_u8(uint8x16_t t, uint8x16_t i) { uint8x16_t v; for (int k = 0; k < 16; k++) v[k] = i[k] < 16 ? t[i[k]] : 0; return v; }
VEM int8x16_t vqtbl1q_s8(int8x16_t t, uint8x16_t i) { int8x16_t v; for (int k = 0; k < 16; k++) v[k] = i[k] < 16 ? t[i[k]] : 0; return v; }
