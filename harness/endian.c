#include "vf.h"
#include <stdint.h>
#include <string.h>
#include <endian.h>
#include "amino.h"
#include "amino/endconv.h"
/* P22: every load/store/convert of every width against the byte-by-byte definition */
static unsigned char by[8], out[10];
static void bytes(size_t n) { for (size_t i = 0; i < n; i++) by[i] = (unsigned char)vf_int("byte", 0, 255); memset(out, 0xA5, sizeof out); }
static uint64_t le(const unsigned char *p, size_t n) { uint64_t v = 0; for (size_t i = 0; i < n; i++) v |= (uint64_t)p[i] << (8 * i); return v; }
static uint64_t be(const unsigned char *p, size_t n) { uint64_t v = 0; for (size_t i = 0; i < n; i++) v = (v << 8) | p[i]; return v; }
#define T(t, ut, s) \
void h_##s(void) { const size_t n = sizeof(t); bytes(n); t l = aa_endconv_ld_le_##s(by), b = aa_endconv_ld_be_##s(by); \
  vf_true("little endian load", (ut)l == (ut)le(by, n)); vf_true("big endian load", (ut)b == (ut)be(by, n)); \
  aa_endconv_st_le_##s(out + 1, l); vf_true("little endian store", le(out + 1, n) == le(by, n)); vf_true("no stray writes", out[0] == 0xA5 && out[n + 1] == 0xA5); \
  aa_endconv_st_be_##s(out + 1, l); vf_true("big endian store", be(out + 1, n) == le(by, n)); vf_true("no stray writes (be)", out[0] == 0xA5 && out[n + 1] == 0xA5); \
  t h = l, x; x = aa_endconv_h_to_le_##s(h); vf_true("host to little", le((unsigned char*)&x, n) == (uint64_t)(ut)h); x = aa_endconv_h_to_be_##s(h); vf_true("host to big", be((unsigned char*)&x, n) == (uint64_t)(ut)h); \
  vf_true("big to host inverts", aa_endconv_be_to_h_##s(aa_endconv_h_to_be_##s(h)) == h); vf_true("little to host inverts", aa_endconv_le_to_h_##s(aa_endconv_h_to_le_##s(h)) == h); }
T(int64_t, uint64_t, i64) T(uint64_t, uint64_t, u64) T(int32_t, uint32_t, i32) T(uint32_t, uint32_t, u32) T(int16_t, uint16_t, i16) T(uint16_t, uint16_t, u16)
#define F(t, ut, s) \
void h_##s(void) { const size_t n = sizeof(t); bytes(n); by[n-1] &= 0x3f; by[n-2] &= 0x7f; by[0] &= 0x3f; by[1] &= 0x7f; t l = aa_endconv_ld_le_##s(by); \
  aa_endconv_st_le_##s(out + 1, l); vf_true("little endian round trip", le(out + 1, n) == le(by, n)); vf_true("no stray writes", out[0] == 0xA5 && out[n + 1] == 0xA5); \
  aa_endconv_st_be_##s(out + 1, l); vf_true("big endian store", be(out + 1, n) == le(by, n)); \
  t b = aa_endconv_ld_be_##s(by); aa_endconv_st_le_##s(out + 1, b); vf_true("big endian load", le(out + 1, n) == be(by, n)); aa_endconv_st_be_##s(out + 1, b); vf_true("big endian round trip", be(out + 1, n) == be(by, n)); vf_true("no stray writes (be)", out[0] == 0xA5 && out[n + 1] == 0xA5); }
F(double, uint64_t, d) F(float, uint32_t, s)
/* names for the driver */
void h_i64(void);
void h_u64(void);
void h_i32(void);
void h_u32(void);
void h_i16(void);
void h_u16(void);
void h_d(void);
void h_s(void);
