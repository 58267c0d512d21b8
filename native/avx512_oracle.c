/* generated by tools/gen_avx512.py from the documented prototypes; do not edit */
#include <immintrin.h>
#include <string.h>

__attribute__((visibility("default"))) void o_mm512_int2mask(char *r, char **a) {
  (void) r; (void) a;
  int x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 y = _mm512_int2mask(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask2int(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  int y = _mm512_mask2int(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_set_epi64(char *r, char **a) {
  (void) r; (void) a;
  long long x0; memcpy(&x0, a[0], sizeof x0);
  long long x1; memcpy(&x1, a[1], sizeof x1);
  long long x2; memcpy(&x2, a[2], sizeof x2);
  long long x3; memcpy(&x3, a[3], sizeof x3);
  long long x4; memcpy(&x4, a[4], sizeof x4);
  long long x5; memcpy(&x5, a[5], sizeof x5);
  long long x6; memcpy(&x6, a[6], sizeof x6);
  long long x7; memcpy(&x7, a[7], sizeof x7);
  __m512i y = _mm512_set_epi64(x0, x1, x2, x3, x4, x5, x6, x7); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_set_epi32(char *r, char **a) {
  (void) r; (void) a;
  int x0; memcpy(&x0, a[0], sizeof x0);
  int x1; memcpy(&x1, a[1], sizeof x1);
  int x2; memcpy(&x2, a[2], sizeof x2);
  int x3; memcpy(&x3, a[3], sizeof x3);
  int x4; memcpy(&x4, a[4], sizeof x4);
  int x5; memcpy(&x5, a[5], sizeof x5);
  int x6; memcpy(&x6, a[6], sizeof x6);
  int x7; memcpy(&x7, a[7], sizeof x7);
  int x8; memcpy(&x8, a[8], sizeof x8);
  int x9; memcpy(&x9, a[9], sizeof x9);
  int x10; memcpy(&x10, a[10], sizeof x10);
  int x11; memcpy(&x11, a[11], sizeof x11);
  int x12; memcpy(&x12, a[12], sizeof x12);
  int x13; memcpy(&x13, a[13], sizeof x13);
  int x14; memcpy(&x14, a[14], sizeof x14);
  int x15; memcpy(&x15, a[15], sizeof x15);
  __m512i y = _mm512_set_epi32(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_set_epi16(char *r, char **a) {
  (void) r; (void) a;
  short x0; memcpy(&x0, a[0], sizeof x0);
  short x1; memcpy(&x1, a[1], sizeof x1);
  short x2; memcpy(&x2, a[2], sizeof x2);
  short x3; memcpy(&x3, a[3], sizeof x3);
  short x4; memcpy(&x4, a[4], sizeof x4);
  short x5; memcpy(&x5, a[5], sizeof x5);
  short x6; memcpy(&x6, a[6], sizeof x6);
  short x7; memcpy(&x7, a[7], sizeof x7);
  short x8; memcpy(&x8, a[8], sizeof x8);
  short x9; memcpy(&x9, a[9], sizeof x9);
  short x10; memcpy(&x10, a[10], sizeof x10);
  short x11; memcpy(&x11, a[11], sizeof x11);
  short x12; memcpy(&x12, a[12], sizeof x12);
  short x13; memcpy(&x13, a[13], sizeof x13);
  short x14; memcpy(&x14, a[14], sizeof x14);
  short x15; memcpy(&x15, a[15], sizeof x15);
  short x16; memcpy(&x16, a[16], sizeof x16);
  short x17; memcpy(&x17, a[17], sizeof x17);
  short x18; memcpy(&x18, a[18], sizeof x18);
  short x19; memcpy(&x19, a[19], sizeof x19);
  short x20; memcpy(&x20, a[20], sizeof x20);
  short x21; memcpy(&x21, a[21], sizeof x21);
  short x22; memcpy(&x22, a[22], sizeof x22);
  short x23; memcpy(&x23, a[23], sizeof x23);
  short x24; memcpy(&x24, a[24], sizeof x24);
  short x25; memcpy(&x25, a[25], sizeof x25);
  short x26; memcpy(&x26, a[26], sizeof x26);
  short x27; memcpy(&x27, a[27], sizeof x27);
  short x28; memcpy(&x28, a[28], sizeof x28);
  short x29; memcpy(&x29, a[29], sizeof x29);
  short x30; memcpy(&x30, a[30], sizeof x30);
  short x31; memcpy(&x31, a[31], sizeof x31);
  __m512i y = _mm512_set_epi16(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19, x20, x21, x22, x23, x24, x25, x26, x27, x28, x29, x30, x31); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_set_epi8(char *r, char **a) {
  (void) r; (void) a;
  char x0; memcpy(&x0, a[0], sizeof x0);
  char x1; memcpy(&x1, a[1], sizeof x1);
  char x2; memcpy(&x2, a[2], sizeof x2);
  char x3; memcpy(&x3, a[3], sizeof x3);
  char x4; memcpy(&x4, a[4], sizeof x4);
  char x5; memcpy(&x5, a[5], sizeof x5);
  char x6; memcpy(&x6, a[6], sizeof x6);
  char x7; memcpy(&x7, a[7], sizeof x7);
  char x8; memcpy(&x8, a[8], sizeof x8);
  char x9; memcpy(&x9, a[9], sizeof x9);
  char x10; memcpy(&x10, a[10], sizeof x10);
  char x11; memcpy(&x11, a[11], sizeof x11);
  char x12; memcpy(&x12, a[12], sizeof x12);
  char x13; memcpy(&x13, a[13], sizeof x13);
  char x14; memcpy(&x14, a[14], sizeof x14);
  char x15; memcpy(&x15, a[15], sizeof x15);
  char x16; memcpy(&x16, a[16], sizeof x16);
  char x17; memcpy(&x17, a[17], sizeof x17);
  char x18; memcpy(&x18, a[18], sizeof x18);
  char x19; memcpy(&x19, a[19], sizeof x19);
  char x20; memcpy(&x20, a[20], sizeof x20);
  char x21; memcpy(&x21, a[21], sizeof x21);
  char x22; memcpy(&x22, a[22], sizeof x22);
  char x23; memcpy(&x23, a[23], sizeof x23);
  char x24; memcpy(&x24, a[24], sizeof x24);
  char x25; memcpy(&x25, a[25], sizeof x25);
  char x26; memcpy(&x26, a[26], sizeof x26);
  char x27; memcpy(&x27, a[27], sizeof x27);
  char x28; memcpy(&x28, a[28], sizeof x28);
  char x29; memcpy(&x29, a[29], sizeof x29);
  char x30; memcpy(&x30, a[30], sizeof x30);
  char x31; memcpy(&x31, a[31], sizeof x31);
  char x32; memcpy(&x32, a[32], sizeof x32);
  char x33; memcpy(&x33, a[33], sizeof x33);
  char x34; memcpy(&x34, a[34], sizeof x34);
  char x35; memcpy(&x35, a[35], sizeof x35);
  char x36; memcpy(&x36, a[36], sizeof x36);
  char x37; memcpy(&x37, a[37], sizeof x37);
  char x38; memcpy(&x38, a[38], sizeof x38);
  char x39; memcpy(&x39, a[39], sizeof x39);
  char x40; memcpy(&x40, a[40], sizeof x40);
  char x41; memcpy(&x41, a[41], sizeof x41);
  char x42; memcpy(&x42, a[42], sizeof x42);
  char x43; memcpy(&x43, a[43], sizeof x43);
  char x44; memcpy(&x44, a[44], sizeof x44);
  char x45; memcpy(&x45, a[45], sizeof x45);
  char x46; memcpy(&x46, a[46], sizeof x46);
  char x47; memcpy(&x47, a[47], sizeof x47);
  char x48; memcpy(&x48, a[48], sizeof x48);
  char x49; memcpy(&x49, a[49], sizeof x49);
  char x50; memcpy(&x50, a[50], sizeof x50);
  char x51; memcpy(&x51, a[51], sizeof x51);
  char x52; memcpy(&x52, a[52], sizeof x52);
  char x53; memcpy(&x53, a[53], sizeof x53);
  char x54; memcpy(&x54, a[54], sizeof x54);
  char x55; memcpy(&x55, a[55], sizeof x55);
  char x56; memcpy(&x56, a[56], sizeof x56);
  char x57; memcpy(&x57, a[57], sizeof x57);
  char x58; memcpy(&x58, a[58], sizeof x58);
  char x59; memcpy(&x59, a[59], sizeof x59);
  char x60; memcpy(&x60, a[60], sizeof x60);
  char x61; memcpy(&x61, a[61], sizeof x61);
  char x62; memcpy(&x62, a[62], sizeof x62);
  char x63; memcpy(&x63, a[63], sizeof x63);
  __m512i y = _mm512_set_epi8(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19, x20, x21, x22, x23, x24, x25, x26, x27, x28, x29, x30, x31, x32, x33, x34, x35, x36, x37, x38, x39, x40, x41, x42, x43, x44, x45, x46, x47, x48, x49, x50, x51, x52, x53, x54, x55, x56, x57, x58, x59, x60, x61, x62, x63); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_set_pd(char *r, char **a) {
  (void) r; (void) a;
  double x0; memcpy(&x0, a[0], sizeof x0);
  double x1; memcpy(&x1, a[1], sizeof x1);
  double x2; memcpy(&x2, a[2], sizeof x2);
  double x3; memcpy(&x3, a[3], sizeof x3);
  double x4; memcpy(&x4, a[4], sizeof x4);
  double x5; memcpy(&x5, a[5], sizeof x5);
  double x6; memcpy(&x6, a[6], sizeof x6);
  double x7; memcpy(&x7, a[7], sizeof x7);
  __m512d y = _mm512_set_pd(x0, x1, x2, x3, x4, x5, x6, x7); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_set_ps(char *r, char **a) {
  (void) r; (void) a;
  float x0; memcpy(&x0, a[0], sizeof x0);
  float x1; memcpy(&x1, a[1], sizeof x1);
  float x2; memcpy(&x2, a[2], sizeof x2);
  float x3; memcpy(&x3, a[3], sizeof x3);
  float x4; memcpy(&x4, a[4], sizeof x4);
  float x5; memcpy(&x5, a[5], sizeof x5);
  float x6; memcpy(&x6, a[6], sizeof x6);
  float x7; memcpy(&x7, a[7], sizeof x7);
  float x8; memcpy(&x8, a[8], sizeof x8);
  float x9; memcpy(&x9, a[9], sizeof x9);
  float x10; memcpy(&x10, a[10], sizeof x10);
  float x11; memcpy(&x11, a[11], sizeof x11);
  float x12; memcpy(&x12, a[12], sizeof x12);
  float x13; memcpy(&x13, a[13], sizeof x13);
  float x14; memcpy(&x14, a[14], sizeof x14);
  float x15; memcpy(&x15, a[15], sizeof x15);
  __m512 y = _mm512_set_ps(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_undefined_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 y = _mm512_undefined_ps(); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_undefined_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d y = _mm512_undefined_pd(); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_undefined_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i y = _mm512_undefined_epi32(); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_set1_epi8(char *r, char **a) {
  (void) r; (void) a;
  char x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_set1_epi8(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_set1_epi16(char *r, char **a) {
  (void) r; (void) a;
  short x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_set1_epi16(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_set1_pd(char *r, char **a) {
  (void) r; (void) a;
  double x0; memcpy(&x0, a[0], sizeof x0);
  __m512d y = _mm512_set1_pd(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_set1_ps(char *r, char **a) {
  (void) r; (void) a;
  float x0; memcpy(&x0, a[0], sizeof x0);
  __m512 y = _mm512_set1_ps(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_set4_epi64(char *r, char **a) {
  (void) r; (void) a;
  long long x0; memcpy(&x0, a[0], sizeof x0);
  long long x1; memcpy(&x1, a[1], sizeof x1);
  long long x2; memcpy(&x2, a[2], sizeof x2);
  long long x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_set4_epi64(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_set4_pd(char *r, char **a) {
  (void) r; (void) a;
  double x0; memcpy(&x0, a[0], sizeof x0);
  double x1; memcpy(&x1, a[1], sizeof x1);
  double x2; memcpy(&x2, a[2], sizeof x2);
  double x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_set4_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_set4_ps(char *r, char **a) {
  (void) r; (void) a;
  float x0; memcpy(&x0, a[0], sizeof x0);
  float x1; memcpy(&x1, a[1], sizeof x1);
  float x2; memcpy(&x2, a[2], sizeof x2);
  float x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_set4_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_setzero_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 y = _mm512_setzero_ps(); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_setzero(char *r, char **a) {
  (void) r; (void) a;
  __m512 y = _mm512_setzero(); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_setzero_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d y = _mm512_setzero_pd(); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_setzero_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i y = _mm512_setzero_epi32(); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_setzero_si512(char *r, char **a) {
  (void) r; (void) a;
  __m512i y = _mm512_setzero_si512(); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_mov_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_mask_mov_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_mov_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d y = _mm512_maskz_mov_pd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_mov_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_mask_mov_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_mov_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 y = _mm512_maskz_mov_ps(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_load_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d y = _mm512_load_pd((void const *) a[0]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_load_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d y = _mm512_mask_load_pd(x0, x1, (void const *) a[2]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_load_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d y = _mm512_maskz_load_pd(x0, (void const *) a[1]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_store_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  _mm512_store_pd((void *) a[0], x1);
}
__attribute__((visibility("default"))) void o_mm512_mask_store_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  _mm512_mask_store_pd((void *) a[0], x1, x2);
}
__attribute__((visibility("default"))) void o_mm512_load_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 y = _mm512_load_ps((void const *) a[0]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_load_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 y = _mm512_mask_load_ps(x0, x1, (void const *) a[2]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_load_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 y = _mm512_maskz_load_ps(x0, (void const *) a[1]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_store_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  _mm512_store_ps((void *) a[0], x1);
}
__attribute__((visibility("default"))) void o_mm512_mask_store_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  _mm512_mask_store_ps((void *) a[0], x1, x2);
}
__attribute__((visibility("default"))) void o_mm512_mask_mov_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_mask_mov_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_mov_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_maskz_mov_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_load_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i y = _mm512_load_epi64((void const *) a[0]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_load_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_mask_load_epi64(x0, x1, (void const *) a[2]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_load_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_maskz_load_epi64(x0, (void const *) a[1]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_store_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  _mm512_store_epi64((void *) a[0], x1);
}
__attribute__((visibility("default"))) void o_mm512_mask_store_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  _mm512_mask_store_epi64((void *) a[0], x1, x2);
}
__attribute__((visibility("default"))) void o_mm512_mask_mov_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_mask_mov_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_mov_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_maskz_mov_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_load_si512(char *r, char **a) {
  (void) r; (void) a;
  __m512i y = _mm512_load_si512((void const *) a[0]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_load_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i y = _mm512_load_epi32((void const *) a[0]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_load_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_mask_load_epi32(x0, x1, (void const *) a[2]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_load_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_maskz_load_epi32(x0, (void const *) a[1]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_store_si512(char *r, char **a) {
  (void) r; (void) a;
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  _mm512_store_si512((void *) a[0], x1);
}
__attribute__((visibility("default"))) void o_mm512_store_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  _mm512_store_epi32((void *) a[0], x1);
}
__attribute__((visibility("default"))) void o_mm512_mask_store_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  _mm512_mask_store_epi32((void *) a[0], x1, x2);
}
__attribute__((visibility("default"))) void o_mm512_mullo_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_mullo_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_mullo_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_mullo_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_mullo_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_mullo_epi32(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mullox_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_mullox_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_mullox_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_mullox_epi64(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_sllv_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_sllv_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_sllv_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_sllv_epi32(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_sllv_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_sllv_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_srav_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_srav_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_srav_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_srav_epi32(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_srav_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_srav_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_srlv_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_srlv_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_srlv_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_srlv_epi32(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_srlv_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_srlv_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_add_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_add_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_add_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_add_epi64(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_add_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_add_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_sub_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_sub_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_sub_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_sub_epi64(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_sub_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_sub_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_sllv_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_sllv_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_sllv_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_sllv_epi64(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_sllv_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_sllv_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_srav_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_srav_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_srav_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_srav_epi64(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_srav_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_srav_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_srlv_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_srlv_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_srlv_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_srlv_epi64(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_srlv_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_srlv_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_add_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_add_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_add_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_add_epi32(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_add_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_add_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mul_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_mul_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_mul_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_mul_epi32(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_mul_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_mul_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_sub_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_sub_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_sub_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_sub_epi32(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_sub_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_sub_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mul_epu32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_mul_epu32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_mul_epu32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_mul_epu32(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_mul_epu32(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_mul_epu32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_slli_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  unsigned int x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_slli_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_slli_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  unsigned int x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_slli_epi64(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_slli_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  unsigned int x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_slli_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_sll_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m128i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_sll_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_sll_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m128i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_sll_epi64(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_sll_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m128i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_sll_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_srli_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  unsigned int x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_srli_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_srli_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  unsigned int x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_srli_epi64(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_srli_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  unsigned int x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_srli_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_srl_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m128i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_srl_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_srl_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m128i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_srl_epi64(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_srl_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m128i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_srl_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_srai_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  unsigned int x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_srai_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_srai_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  unsigned int x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_srai_epi64(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_srai_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  unsigned int x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_srai_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_sra_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m128i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_sra_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_sra_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m128i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_sra_epi64(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_sra_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m128i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_sra_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_slli_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  unsigned int x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_slli_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_slli_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  unsigned int x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_slli_epi32(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_slli_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  unsigned int x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_slli_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_sll_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m128i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_sll_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_sll_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m128i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_sll_epi32(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_sll_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m128i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_sll_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_srli_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  unsigned int x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_srli_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_srli_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  unsigned int x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_srli_epi32(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_srli_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  unsigned int x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_srli_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_srl_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m128i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_srl_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_srl_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m128i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_srl_epi32(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_srl_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m128i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_srl_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_srai_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  unsigned int x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_srai_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_srai_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  unsigned int x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_srai_epi32(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_srai_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  unsigned int x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_srai_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_sra_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m128i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_sra_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_sra_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m128i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_sra_epi32(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_sra_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m128i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_sra_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_rcp14_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d y = _mm512_rcp14_pd(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_rcp14_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_mask_rcp14_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_rcp14_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d y = _mm512_maskz_rcp14_pd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_rcp14_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 y = _mm512_rcp14_ps(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_rcp14_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_mask_rcp14_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_rcp14_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 y = _mm512_maskz_rcp14_ps(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_rcp14_sd(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  __m128d x1; memcpy(&x1, a[1], sizeof x1);
  __m128d y = _mm_rcp14_sd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask_rcp14_sd(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __m128d x3; memcpy(&x3, a[3], sizeof x3);
  __m128d y = _mm_mask_rcp14_sd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_maskz_rcp14_sd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128d x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __m128d y = _mm_maskz_rcp14_sd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_rcp14_ss(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  __m128 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 y = _mm_rcp14_ss(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask_rcp14_ss(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __m128 x3; memcpy(&x3, a[3], sizeof x3);
  __m128 y = _mm_mask_rcp14_ss(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_maskz_rcp14_ss(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __m128 y = _mm_maskz_rcp14_ss(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_rsqrt14_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d y = _mm512_rsqrt14_pd(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_rsqrt14_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_mask_rsqrt14_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_rsqrt14_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d y = _mm512_maskz_rsqrt14_pd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_rsqrt14_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 y = _mm512_rsqrt14_ps(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_rsqrt14_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_mask_rsqrt14_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_rsqrt14_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 y = _mm512_maskz_rsqrt14_ps(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_rsqrt14_sd(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  __m128d x1; memcpy(&x1, a[1], sizeof x1);
  __m128d y = _mm_rsqrt14_sd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask_rsqrt14_sd(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __m128d x3; memcpy(&x3, a[3], sizeof x3);
  __m128d y = _mm_mask_rsqrt14_sd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_maskz_rsqrt14_sd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128d x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __m128d y = _mm_maskz_rsqrt14_sd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_rsqrt14_ss(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  __m128 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 y = _mm_rsqrt14_ss(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask_rsqrt14_ss(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __m128 x3; memcpy(&x3, a[3], sizeof x3);
  __m128 y = _mm_mask_rsqrt14_ss(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_maskz_rsqrt14_ss(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __m128 y = _mm_maskz_rsqrt14_ss(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtepi8_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m128i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_cvtepi8_epi32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtepi8_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m128i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_mask_cvtepi8_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtepi8_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m128i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_maskz_cvtepi8_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtepi8_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m128i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_cvtepi8_epi64(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtepi8_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_mask_cvtepi8_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtepi8_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_maskz_cvtepi8_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtepi16_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m256i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_cvtepi16_epi32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtepi16_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m256i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_mask_cvtepi16_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtepi16_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m256i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_maskz_cvtepi16_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtepi16_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m128i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_cvtepi16_epi64(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtepi16_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_mask_cvtepi16_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtepi16_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_maskz_cvtepi16_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtepi32_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m256i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_cvtepi32_epi64(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtepi32_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m256i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_mask_cvtepi32_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtepi32_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m256i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_maskz_cvtepi32_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtepu8_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m128i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_cvtepu8_epi32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtepu8_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m128i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_mask_cvtepu8_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtepu8_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m128i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_maskz_cvtepu8_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtepu8_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m128i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_cvtepu8_epi64(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtepu8_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_mask_cvtepu8_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtepu8_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_maskz_cvtepu8_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtepu16_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m256i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_cvtepu16_epi32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtepu16_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m256i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_mask_cvtepu16_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtepu16_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m256i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_maskz_cvtepu16_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtepu16_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m128i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_cvtepu16_epi64(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtepu16_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_mask_cvtepu16_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtepu16_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_maskz_cvtepu16_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtepu32_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m256i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_cvtepu32_epi64(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtepu32_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m256i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_mask_cvtepu32_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtepu32_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m256i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_maskz_cvtepu32_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_abs_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_abs_epi64(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_abs_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_mask_abs_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_abs_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_maskz_abs_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_abs_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_abs_epi32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_abs_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_mask_abs_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_abs_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_maskz_abs_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_broadcastss_ps(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 y = _mm512_broadcastss_ps(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_broadcastss_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_mask_broadcastss_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_broadcastss_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m128 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 y = _mm512_maskz_broadcastss_ps(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_broadcastsd_pd(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d y = _mm512_broadcastsd_pd(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_broadcastsd_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_mask_broadcastsd_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_broadcastsd_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d y = _mm512_maskz_broadcastsd_pd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_broadcastd_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m128i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_broadcastd_epi32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_broadcastd_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m128i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_mask_broadcastd_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_broadcastd_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m128i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_maskz_broadcastd_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_broadcastq_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m128i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_broadcastq_epi64(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_broadcastq_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_mask_broadcastq_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_broadcastq_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_maskz_broadcastq_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_set1_epi64(char *r, char **a) {
  (void) r; (void) a;
  long long x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_set1_epi64(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_set1_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  long long x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_mask_set1_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_set1_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  long long x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_maskz_set1_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_broadcast_f32x4(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 y = _mm512_broadcast_f32x4(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_broadcast_f32x4(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_mask_broadcast_f32x4(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_broadcast_f32x4(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m128 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 y = _mm512_maskz_broadcast_f32x4(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_broadcast_i32x4(char *r, char **a) {
  (void) r; (void) a;
  __m128i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_broadcast_i32x4(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_broadcast_i32x4(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m128i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_mask_broadcast_i32x4(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_broadcast_i32x4(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m128i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_maskz_broadcast_i32x4(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_broadcast_f64x4(char *r, char **a) {
  (void) r; (void) a;
  __m256d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d y = _mm512_broadcast_f64x4(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_broadcast_f64x4(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m256d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_mask_broadcast_f64x4(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_broadcast_f64x4(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m256d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d y = _mm512_maskz_broadcast_f64x4(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_broadcast_i64x4(char *r, char **a) {
  (void) r; (void) a;
  __m256i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_broadcast_i64x4(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_broadcast_i64x4(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m256i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_mask_broadcast_i64x4(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_broadcast_i64x4(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m256i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_maskz_broadcast_i64x4(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_rolv_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_rolv_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_rolv_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_rolv_epi32(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_rolv_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_rolv_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_rorv_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_rorv_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_rorv_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_rorv_epi32(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_rorv_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_rorv_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_rolv_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_rolv_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_rolv_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_rolv_epi64(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_rolv_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_rolv_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_rorv_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_rorv_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_rorv_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_rorv_epi64(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_rorv_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_rorv_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_cvtu32_sd(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  unsigned x1; memcpy(&x1, a[1], sizeof x1);
  __m128d y = _mm_cvtu32_sd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtepi32_epi8(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m128i y = _mm512_cvtepi32_epi8(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtepi32_storeu_epi8(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  _mm512_mask_cvtepi32_storeu_epi8((void *) a[0], x1, x2);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtepi32_epi8(char *r, char **a) {
  (void) r; (void) a;
  __m128i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m128i y = _mm512_mask_cvtepi32_epi8(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtepi32_epi8(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m128i y = _mm512_maskz_cvtepi32_epi8(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtsepi32_epi8(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m128i y = _mm512_cvtsepi32_epi8(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtsepi32_storeu_epi8(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  _mm512_mask_cvtsepi32_storeu_epi8((void *) a[0], x1, x2);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtsepi32_epi8(char *r, char **a) {
  (void) r; (void) a;
  __m128i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m128i y = _mm512_mask_cvtsepi32_epi8(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtsepi32_epi8(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m128i y = _mm512_maskz_cvtsepi32_epi8(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtusepi32_epi8(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m128i y = _mm512_cvtusepi32_epi8(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtusepi32_storeu_epi8(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  _mm512_mask_cvtusepi32_storeu_epi8((void *) a[0], x1, x2);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtusepi32_epi8(char *r, char **a) {
  (void) r; (void) a;
  __m128i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m128i y = _mm512_mask_cvtusepi32_epi8(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtusepi32_epi8(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m128i y = _mm512_maskz_cvtusepi32_epi8(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtepi32_epi16(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m256i y = _mm512_cvtepi32_epi16(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtepi32_storeu_epi16(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  _mm512_mask_cvtepi32_storeu_epi16((void *) a[0], x1, x2);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtepi32_epi16(char *r, char **a) {
  (void) r; (void) a;
  __m256i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m256i y = _mm512_mask_cvtepi32_epi16(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtepi32_epi16(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m256i y = _mm512_maskz_cvtepi32_epi16(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtsepi32_epi16(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m256i y = _mm512_cvtsepi32_epi16(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtsepi32_storeu_epi16(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  _mm512_mask_cvtsepi32_storeu_epi16((void *) a[0], x1, x2);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtsepi32_epi16(char *r, char **a) {
  (void) r; (void) a;
  __m256i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m256i y = _mm512_mask_cvtsepi32_epi16(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtsepi32_epi16(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m256i y = _mm512_maskz_cvtsepi32_epi16(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtusepi32_epi16(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m256i y = _mm512_cvtusepi32_epi16(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtusepi32_storeu_epi16(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  _mm512_mask_cvtusepi32_storeu_epi16((void *) a[0], x1, x2);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtusepi32_epi16(char *r, char **a) {
  (void) r; (void) a;
  __m256i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m256i y = _mm512_mask_cvtusepi32_epi16(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtusepi32_epi16(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m256i y = _mm512_maskz_cvtusepi32_epi16(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtepi64_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m256i y = _mm512_cvtepi64_epi32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtepi64_storeu_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  _mm512_mask_cvtepi64_storeu_epi32((void*) a[0], x1, x2);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtepi64_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m256i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m256i y = _mm512_mask_cvtepi64_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtepi64_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m256i y = _mm512_maskz_cvtepi64_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtsepi64_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m256i y = _mm512_cvtsepi64_epi32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtsepi64_storeu_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  _mm512_mask_cvtsepi64_storeu_epi32((void *) a[0], x1, x2);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtsepi64_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m256i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m256i y = _mm512_mask_cvtsepi64_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtsepi64_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m256i y = _mm512_maskz_cvtsepi64_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtusepi64_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m256i y = _mm512_cvtusepi64_epi32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtusepi64_storeu_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  _mm512_mask_cvtusepi64_storeu_epi32((void*) a[0], x1, x2);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtusepi64_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m256i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m256i y = _mm512_mask_cvtusepi64_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtusepi64_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m256i y = _mm512_maskz_cvtusepi64_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtepi64_epi16(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m128i y = _mm512_cvtepi64_epi16(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtepi64_storeu_epi16(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  _mm512_mask_cvtepi64_storeu_epi16((void *) a[0], x1, x2);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtepi64_epi16(char *r, char **a) {
  (void) r; (void) a;
  __m128i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m128i y = _mm512_mask_cvtepi64_epi16(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtepi64_epi16(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m128i y = _mm512_maskz_cvtepi64_epi16(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtsepi64_epi16(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m128i y = _mm512_cvtsepi64_epi16(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtsepi64_storeu_epi16(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  _mm512_mask_cvtsepi64_storeu_epi16((void *) a[0], x1, x2);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtsepi64_epi16(char *r, char **a) {
  (void) r; (void) a;
  __m128i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m128i y = _mm512_mask_cvtsepi64_epi16(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtsepi64_epi16(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m128i y = _mm512_maskz_cvtsepi64_epi16(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtusepi64_epi16(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m128i y = _mm512_cvtusepi64_epi16(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtusepi64_storeu_epi16(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  _mm512_mask_cvtusepi64_storeu_epi16((void *) a[0], x1, x2);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtusepi64_epi16(char *r, char **a) {
  (void) r; (void) a;
  __m128i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m128i y = _mm512_mask_cvtusepi64_epi16(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtusepi64_epi16(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m128i y = _mm512_maskz_cvtusepi64_epi16(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtepi64_epi8(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m128i y = _mm512_cvtepi64_epi8(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtepi64_storeu_epi8(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  _mm512_mask_cvtepi64_storeu_epi8((void *) a[0], x1, x2);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtepi64_epi8(char *r, char **a) {
  (void) r; (void) a;
  __m128i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m128i y = _mm512_mask_cvtepi64_epi8(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtepi64_epi8(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m128i y = _mm512_maskz_cvtepi64_epi8(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtsepi64_epi8(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m128i y = _mm512_cvtsepi64_epi8(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtsepi64_storeu_epi8(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  _mm512_mask_cvtsepi64_storeu_epi8((void *) a[0], x1, x2);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtsepi64_epi8(char *r, char **a) {
  (void) r; (void) a;
  __m128i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m128i y = _mm512_mask_cvtsepi64_epi8(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtsepi64_epi8(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m128i y = _mm512_maskz_cvtsepi64_epi8(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtusepi64_epi8(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m128i y = _mm512_cvtusepi64_epi8(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtusepi64_storeu_epi8(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  _mm512_mask_cvtusepi64_storeu_epi8((void *) a[0], x1, x2);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtusepi64_epi8(char *r, char **a) {
  (void) r; (void) a;
  __m128i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m128i y = _mm512_mask_cvtusepi64_epi8(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtusepi64_epi8(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m128i y = _mm512_maskz_cvtusepi64_epi8(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtepi32_pd(char *r, char **a) {
  (void) r; (void) a;
  __m256i x0; memcpy(&x0, a[0], sizeof x0);
  __m512d y = _mm512_cvtepi32_pd(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtepi32_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m256i x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_mask_cvtepi32_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtepi32_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m256i x1; memcpy(&x1, a[1], sizeof x1);
  __m512d y = _mm512_maskz_cvtepi32_pd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtepu32_pd(char *r, char **a) {
  (void) r; (void) a;
  __m256i x0; memcpy(&x0, a[0], sizeof x0);
  __m512d y = _mm512_cvtepu32_pd(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtepu32_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m256i x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_mask_cvtepu32_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtepu32_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m256i x1; memcpy(&x1, a[1], sizeof x1);
  __m512d y = _mm512_maskz_cvtepu32_pd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_loadu_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d y = _mm512_loadu_pd((void const *) a[0]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_loadu_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d y = _mm512_mask_loadu_pd(x0, x1, (void const *) a[2]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_loadu_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d y = _mm512_maskz_loadu_pd(x0, (void const *) a[1]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_storeu_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  _mm512_storeu_pd((void *) a[0], x1);
}
__attribute__((visibility("default"))) void o_mm512_mask_storeu_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  _mm512_mask_storeu_pd((void *) a[0], x1, x2);
}
__attribute__((visibility("default"))) void o_mm512_loadu_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 y = _mm512_loadu_ps((void const *) a[0]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_loadu_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 y = _mm512_mask_loadu_ps(x0, x1, (void const *) a[2]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_loadu_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 y = _mm512_maskz_loadu_ps(x0, (void const *) a[1]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_storeu_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  _mm512_storeu_ps((void *) a[0], x1);
}
__attribute__((visibility("default"))) void o_mm512_mask_storeu_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  _mm512_mask_storeu_ps((void *) a[0], x1, x2);
}
__attribute__((visibility("default"))) void o_mm_mask_load_ss(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 y = _mm_mask_load_ss(x0, x1, (const float *) a[2]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_maskz_load_ss(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128 y = _mm_maskz_load_ss(x0, (const float *) a[1]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask_load_sd(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128d y = _mm_mask_load_sd(x0, x1, (const double *) a[2]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_maskz_load_sd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128d y = _mm_maskz_load_sd(x0, (const double *) a[1]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask_move_ss(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __m128 x3; memcpy(&x3, a[3], sizeof x3);
  __m128 y = _mm_mask_move_ss(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_maskz_move_ss(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __m128 y = _mm_maskz_move_ss(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask_move_sd(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __m128d x3; memcpy(&x3, a[3], sizeof x3);
  __m128d y = _mm_mask_move_sd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_maskz_move_sd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128d x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __m128d y = _mm_maskz_move_sd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask_store_ss(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  _mm_mask_store_ss((float *) a[0], x1, x2);
}
__attribute__((visibility("default"))) void o_mm_mask_store_sd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  _mm_mask_store_sd((double *) a[0], x1, x2);
}
__attribute__((visibility("default"))) void o_mm512_loadu_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i y = _mm512_loadu_epi64((void const *) a[0]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_loadu_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_mask_loadu_epi64(x0, x1, (void const *) a[2]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_loadu_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_maskz_loadu_epi64(x0, (void const *) a[1]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_storeu_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  _mm512_storeu_epi64((void *) a[0], x1);
}
__attribute__((visibility("default"))) void o_mm512_mask_storeu_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  _mm512_mask_storeu_epi64((void *) a[0], x1, x2);
}
__attribute__((visibility("default"))) void o_mm512_loadu_si512(char *r, char **a) {
  (void) r; (void) a;
  __m512i y = _mm512_loadu_si512((void const *) a[0]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_loadu_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i y = _mm512_loadu_epi32((void const *) a[0]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_loadu_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_mask_loadu_epi32(x0, x1, (void const *) a[2]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_loadu_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_maskz_loadu_epi32(x0, (void const *) a[1]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_storeu_si512(char *r, char **a) {
  (void) r; (void) a;
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  _mm512_storeu_si512((void *) a[0], x1);
}
__attribute__((visibility("default"))) void o_mm512_storeu_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  _mm512_storeu_epi32((void *) a[0], x1);
}
__attribute__((visibility("default"))) void o_mm512_mask_storeu_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  _mm512_mask_storeu_epi32((void *) a[0], x1, x2);
}
__attribute__((visibility("default"))) void o_mm512_permutevar_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512d y = _mm512_permutevar_pd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_permutevar_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_mask_permutevar_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_permutevar_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_maskz_permutevar_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_permutevar_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512 y = _mm512_permutevar_ps(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_permutevar_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_mask_permutevar_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_permutevar_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_maskz_permutevar_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_permutex2var_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_permutex2var_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_permutex2var_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_permutex2var_epi64(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask2_permutex2var_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask8 x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask2_permutex2var_epi64(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_permutex2var_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_maskz_permutex2var_epi64(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_permutex2var_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_permutex2var_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_permutex2var_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_permutex2var_epi32(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask2_permutex2var_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask16 x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask2_permutex2var_epi32(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_permutex2var_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_maskz_permutex2var_epi32(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_permutex2var_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_permutex2var_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_permutex2var_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512d x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_mask_permutex2var_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask2_permutex2var_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask8 x2; memcpy(&x2, a[2], sizeof x2);
  __m512d x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_mask2_permutex2var_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_permutex2var_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512d x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_maskz_permutex2var_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_permutex2var_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_permutex2var_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_permutex2var_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_mask_permutex2var_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask2_permutex2var_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask16 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_mask2_permutex2var_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_permutex2var_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_maskz_permutex2var_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_permutexvar_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_permutexvar_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_permutexvar_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_permutexvar_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_permutexvar_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_permutexvar_epi64(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_permutexvar_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_permutexvar_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_permutexvar_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_permutexvar_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_permutexvar_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_permutexvar_epi32(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_permutexvar_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d y = _mm512_permutexvar_pd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_permutexvar_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512d x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_mask_permutexvar_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_permutexvar_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_maskz_permutexvar_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_permutexvar_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 y = _mm512_permutexvar_ps(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_permutexvar_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_mask_permutexvar_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_permutexvar_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_maskz_permutexvar_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_movehdup_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 y = _mm512_movehdup_ps(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_movehdup_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_mask_movehdup_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_movehdup_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 y = _mm512_maskz_movehdup_ps(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_moveldup_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 y = _mm512_moveldup_ps(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_moveldup_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_mask_moveldup_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_moveldup_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 y = _mm512_maskz_moveldup_ps(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_or_si512(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_or_si512(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_or_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_or_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_or_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_or_epi32(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_or_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_or_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_or_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_or_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_or_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_or_epi64(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_or_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_or_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_xor_si512(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_xor_si512(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_xor_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_xor_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_xor_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_xor_epi32(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_xor_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_xor_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_xor_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_xor_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_xor_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_xor_epi64(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_xor_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_xor_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_and_si512(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_and_si512(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_and_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_and_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_and_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_and_epi32(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_and_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_and_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_and_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_and_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_and_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_and_epi64(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_and_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_and_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_andnot_si512(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_andnot_si512(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_andnot_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_andnot_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_andnot_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_andnot_epi32(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_andnot_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_andnot_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_andnot_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_andnot_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_andnot_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_andnot_epi64(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_andnot_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_andnot_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_test_epi32_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask16 y = _mm512_test_epi32_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_test_epi32_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __mmask16 y = _mm512_mask_test_epi32_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_test_epi64_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask8 y = _mm512_test_epi64_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_test_epi64_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 y = _mm512_mask_test_epi64_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_testn_epi32_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask16 y = _mm512_testn_epi32_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_testn_epi32_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __mmask16 y = _mm512_mask_testn_epi32_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_testn_epi64_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask8 y = _mm512_testn_epi64_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_testn_epi64_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 y = _mm512_mask_testn_epi64_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_abs_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 y = _mm512_abs_ps(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_abs_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_mask_abs_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_abs_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d y = _mm512_abs_pd(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_abs_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_mask_abs_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_unpackhi_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_unpackhi_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_unpackhi_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_unpackhi_epi32(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_unpackhi_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_unpackhi_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_unpackhi_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_unpackhi_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_unpackhi_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_unpackhi_epi64(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_unpackhi_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_unpackhi_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_unpacklo_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_unpacklo_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_unpacklo_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_unpacklo_epi32(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_unpacklo_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_unpacklo_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_unpacklo_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_unpacklo_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_unpacklo_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_unpacklo_epi64(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_unpacklo_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_unpacklo_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_movedup_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d y = _mm512_movedup_pd(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_movedup_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_mask_movedup_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_movedup_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d y = _mm512_maskz_movedup_pd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_unpacklo_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d y = _mm512_unpacklo_pd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_unpacklo_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_mask_unpacklo_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_unpacklo_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_maskz_unpacklo_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_unpackhi_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d y = _mm512_unpackhi_pd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_unpackhi_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_mask_unpackhi_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_unpackhi_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_maskz_unpackhi_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_unpackhi_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 y = _mm512_unpackhi_ps(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_unpackhi_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_mask_unpackhi_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_unpackhi_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_maskz_unpackhi_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_stream_si512(char *r, char **a) {
  (void) r; (void) a;
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  _mm512_stream_si512((__m512i *) a[0], x1);
}
__attribute__((visibility("default"))) void o_mm512_stream_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  _mm512_stream_ps((float *) a[0], x1);
}
__attribute__((visibility("default"))) void o_mm512_stream_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  _mm512_stream_pd((double *) a[0], x1);
}
__attribute__((visibility("default"))) void o_mm512_stream_load_si512(char *r, char **a) {
  (void) r; (void) a;
  __m512i y = _mm512_stream_load_si512((void *) a[0]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_floor_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 y = _mm512_floor_ps(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_floor_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d y = _mm512_floor_pd(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_ceil_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 y = _mm512_ceil_ps(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_ceil_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d y = _mm512_ceil_pd(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_floor_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_mask_floor_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_floor_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_mask_floor_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_ceil_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_mask_ceil_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_ceil_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_mask_ceil_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmpeq_epi32_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask16 y = _mm512_cmpeq_epi32_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmpeq_epi32_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __mmask16 y = _mm512_mask_cmpeq_epi32_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmpeq_epi64_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 y = _mm512_mask_cmpeq_epi64_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmpeq_epi64_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask8 y = _mm512_cmpeq_epi64_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmpgt_epi32_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask16 y = _mm512_cmpgt_epi32_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmpgt_epi32_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __mmask16 y = _mm512_mask_cmpgt_epi32_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmpgt_epi64_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 y = _mm512_mask_cmpgt_epi64_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmpgt_epi64_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask8 y = _mm512_cmpgt_epi64_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmpge_epi32_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask16 y = _mm512_cmpge_epi32_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmpge_epi32_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __mmask16 y = _mm512_mask_cmpge_epi32_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmpge_epu32_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __mmask16 y = _mm512_mask_cmpge_epu32_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmpge_epu32_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask16 y = _mm512_cmpge_epu32_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmpge_epi64_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 y = _mm512_mask_cmpge_epi64_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmpge_epi64_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask8 y = _mm512_cmpge_epi64_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmpge_epu64_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 y = _mm512_mask_cmpge_epu64_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmpge_epu64_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask8 y = _mm512_cmpge_epu64_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmple_epi32_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __mmask16 y = _mm512_mask_cmple_epi32_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmple_epi32_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask16 y = _mm512_cmple_epi32_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmple_epu32_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __mmask16 y = _mm512_mask_cmple_epu32_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmple_epu32_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask16 y = _mm512_cmple_epu32_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmple_epi64_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 y = _mm512_mask_cmple_epi64_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmple_epi64_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask8 y = _mm512_cmple_epi64_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmple_epu64_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 y = _mm512_mask_cmple_epu64_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmple_epu64_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask8 y = _mm512_cmple_epu64_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmplt_epi32_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __mmask16 y = _mm512_mask_cmplt_epi32_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmplt_epi32_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask16 y = _mm512_cmplt_epi32_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmplt_epu32_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __mmask16 y = _mm512_mask_cmplt_epu32_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmplt_epu32_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask16 y = _mm512_cmplt_epu32_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmplt_epi64_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 y = _mm512_mask_cmplt_epi64_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmplt_epi64_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask8 y = _mm512_cmplt_epi64_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmplt_epu64_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 y = _mm512_mask_cmplt_epu64_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmplt_epu64_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask8 y = _mm512_cmplt_epu64_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmpneq_epi32_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask16 y = _mm512_cmpneq_epi32_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmpneq_epi32_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __mmask16 y = _mm512_mask_cmpneq_epi32_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmpneq_epu32_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __mmask16 y = _mm512_mask_cmpneq_epu32_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmpneq_epu32_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask16 y = _mm512_cmpneq_epu32_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmpneq_epi64_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 y = _mm512_mask_cmpneq_epi64_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmpneq_epi64_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask8 y = _mm512_cmpneq_epi64_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmpneq_epu64_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 y = _mm512_mask_cmpneq_epu64_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmpneq_epu64_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask8 y = _mm512_cmpneq_epu64_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_compress_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_mask_compress_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_compress_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d y = _mm512_maskz_compress_pd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_compressstoreu_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  _mm512_mask_compressstoreu_pd((void *) a[0], x1, x2);
}
__attribute__((visibility("default"))) void o_mm512_mask_compress_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_mask_compress_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_compress_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 y = _mm512_maskz_compress_ps(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_compressstoreu_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  _mm512_mask_compressstoreu_ps((void *) a[0], x1, x2);
}
__attribute__((visibility("default"))) void o_mm512_mask_compress_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_mask_compress_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_compress_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_maskz_compress_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_compressstoreu_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  _mm512_mask_compressstoreu_epi64((void *) a[0], x1, x2);
}
__attribute__((visibility("default"))) void o_mm512_mask_compress_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_mask_compress_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_compress_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_maskz_compress_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_compressstoreu_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  _mm512_mask_compressstoreu_epi32((void *) a[0], x1, x2);
}
__attribute__((visibility("default"))) void o_mm512_mask_expand_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_mask_expand_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_expand_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d y = _mm512_maskz_expand_pd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_expandloadu_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d y = _mm512_mask_expandloadu_pd(x0, x1, (void const *) a[2]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_expandloadu_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d y = _mm512_maskz_expandloadu_pd(x0, (void const *) a[1]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_expand_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_mask_expand_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_expand_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 y = _mm512_maskz_expand_ps(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_expandloadu_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 y = _mm512_mask_expandloadu_ps(x0, x1, (void const *) a[2]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_expandloadu_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 y = _mm512_maskz_expandloadu_ps(x0, (void const *) a[1]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_expand_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_mask_expand_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_expand_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_maskz_expand_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_expandloadu_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_mask_expandloadu_epi64(x0, x1, (void const *) a[2]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_expandloadu_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_maskz_expandloadu_epi64(x0, (void const *) a[1]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_expand_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_mask_expand_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_expand_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_maskz_expand_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_expandloadu_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_mask_expandloadu_epi32(x0, x1, (void const *) a[2]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_expandloadu_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_maskz_expandloadu_epi32(x0, (void const *) a[1]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_kortest_mask16_u8(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  unsigned char y = _kortest_mask16_u8(x0, x1, (unsigned char *) a[2]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_kortestz_mask16_u8(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  unsigned char y = _kortestz_mask16_u8(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_kortestc_mask16_u8(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  unsigned char y = _kortestc_mask16_u8(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_cvtmask16_u32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  unsigned int y = _cvtmask16_u32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_cvtu32_mask16(char *r, char **a) {
  (void) r; (void) a;
  unsigned int x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 y = _cvtu32_mask16(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_load_mask16(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 y = _load_mask16((__mmask16 *) a[0]); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_store_mask16(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  _store_mask16((__mmask16 *) a[0], x1);
}
__attribute__((visibility("default"))) void o_mm512_kand(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __mmask16 y = _mm512_kand(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_kandn(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __mmask16 y = _mm512_kandn(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_kor(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __mmask16 y = _mm512_kor(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_kortestz(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  int y = _mm512_kortestz(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_kortestc(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  int y = _mm512_kortestc(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_kxnor(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __mmask16 y = _mm512_kxnor(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_kxor(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __mmask16 y = _mm512_kxor(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_knot(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 y = _mm512_knot(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_kunpackb(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __mmask16 y = _mm512_kunpackb(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_max_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_max_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_max_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_max_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_max_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_max_epi64(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_min_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_min_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_min_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_min_epi64(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_min_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_min_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_max_epu64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_max_epu64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_max_epu64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_max_epu64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_max_epu64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_max_epu64(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_min_epu64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_min_epu64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_min_epu64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_min_epu64(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_min_epu64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_min_epu64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_max_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_max_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_max_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_max_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_max_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_max_epi32(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_min_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_min_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_min_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_min_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_min_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_min_epi32(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_max_epu32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_max_epu32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_max_epu32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_max_epu32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_max_epu32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_max_epu32(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_min_epu32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_min_epu32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_min_epu32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_maskz_min_epu32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_min_epu32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i x3; memcpy(&x3, a[3], sizeof x3);
  __m512i y = _mm512_mask_min_epu32(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_unpacklo_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 y = _mm512_unpacklo_ps(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_unpacklo_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_mask_unpacklo_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_unpacklo_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_maskz_unpacklo_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_blend_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_mask_blend_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_blend_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_mask_blend_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_blend_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_mask_blend_epi64(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_blend_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_mask_blend_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask_fmadd_sd(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __m128d x3; memcpy(&x3, a[3], sizeof x3);
  __m128d y = _mm_mask_fmadd_sd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask_fmadd_ss(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __m128 x3; memcpy(&x3, a[3], sizeof x3);
  __m128 y = _mm_mask_fmadd_ss(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask3_fmadd_sd(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  __m128d x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 x3; memcpy(&x3, a[3], sizeof x3);
  __m128d y = _mm_mask3_fmadd_sd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask3_fmadd_ss(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  __m128 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 x3; memcpy(&x3, a[3], sizeof x3);
  __m128 y = _mm_mask3_fmadd_ss(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_maskz_fmadd_sd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128d x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __m128d x3; memcpy(&x3, a[3], sizeof x3);
  __m128d y = _mm_maskz_fmadd_sd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_maskz_fmadd_ss(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __m128 x3; memcpy(&x3, a[3], sizeof x3);
  __m128 y = _mm_maskz_fmadd_ss(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask_fmsub_sd(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __m128d x3; memcpy(&x3, a[3], sizeof x3);
  __m128d y = _mm_mask_fmsub_sd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask_fmsub_ss(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __m128 x3; memcpy(&x3, a[3], sizeof x3);
  __m128 y = _mm_mask_fmsub_ss(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask3_fmsub_sd(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  __m128d x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 x3; memcpy(&x3, a[3], sizeof x3);
  __m128d y = _mm_mask3_fmsub_sd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask3_fmsub_ss(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  __m128 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 x3; memcpy(&x3, a[3], sizeof x3);
  __m128 y = _mm_mask3_fmsub_ss(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_maskz_fmsub_sd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128d x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __m128d x3; memcpy(&x3, a[3], sizeof x3);
  __m128d y = _mm_maskz_fmsub_sd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_maskz_fmsub_ss(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __m128 x3; memcpy(&x3, a[3], sizeof x3);
  __m128 y = _mm_maskz_fmsub_ss(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask_fnmadd_sd(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __m128d x3; memcpy(&x3, a[3], sizeof x3);
  __m128d y = _mm_mask_fnmadd_sd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask_fnmadd_ss(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __m128 x3; memcpy(&x3, a[3], sizeof x3);
  __m128 y = _mm_mask_fnmadd_ss(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask3_fnmadd_sd(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  __m128d x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 x3; memcpy(&x3, a[3], sizeof x3);
  __m128d y = _mm_mask3_fnmadd_sd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask3_fnmadd_ss(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  __m128 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 x3; memcpy(&x3, a[3], sizeof x3);
  __m128 y = _mm_mask3_fnmadd_ss(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_maskz_fnmadd_sd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128d x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __m128d x3; memcpy(&x3, a[3], sizeof x3);
  __m128d y = _mm_maskz_fnmadd_sd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_maskz_fnmadd_ss(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __m128 x3; memcpy(&x3, a[3], sizeof x3);
  __m128 y = _mm_maskz_fnmadd_ss(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask_fnmsub_sd(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __m128d x3; memcpy(&x3, a[3], sizeof x3);
  __m128d y = _mm_mask_fnmsub_sd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask_fnmsub_ss(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __m128 x3; memcpy(&x3, a[3], sizeof x3);
  __m128 y = _mm_mask_fnmsub_ss(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask3_fnmsub_sd(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  __m128d x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 x3; memcpy(&x3, a[3], sizeof x3);
  __m128d y = _mm_mask3_fnmsub_sd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask3_fnmsub_ss(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  __m128 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 x3; memcpy(&x3, a[3], sizeof x3);
  __m128 y = _mm_mask3_fnmsub_ss(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_maskz_fnmsub_sd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128d x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __m128d x3; memcpy(&x3, a[3], sizeof x3);
  __m128d y = _mm_maskz_fnmsub_sd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_maskz_fnmsub_ss(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __m128 x3; memcpy(&x3, a[3], sizeof x3);
  __m128 y = _mm_maskz_fnmsub_ss(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_sqrt_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d y = _mm512_sqrt_pd(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_sqrt_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_mask_sqrt_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_sqrt_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d y = _mm512_maskz_sqrt_pd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_sqrt_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 y = _mm512_sqrt_ps(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_sqrt_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_mask_sqrt_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_sqrt_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 y = _mm512_maskz_sqrt_ps(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_add_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d y = _mm512_add_pd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_add_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_mask_add_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_add_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_maskz_add_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_add_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 y = _mm512_add_ps(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_add_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_mask_add_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_add_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_maskz_add_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask_add_sd(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __m128d x3; memcpy(&x3, a[3], sizeof x3);
  __m128d y = _mm_mask_add_sd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_maskz_add_sd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128d x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __m128d y = _mm_maskz_add_sd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask_add_ss(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __m128 x3; memcpy(&x3, a[3], sizeof x3);
  __m128 y = _mm_mask_add_ss(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_maskz_add_ss(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __m128 y = _mm_maskz_add_ss(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_sub_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d y = _mm512_sub_pd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_sub_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_mask_sub_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_sub_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_maskz_sub_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_sub_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 y = _mm512_sub_ps(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_sub_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_mask_sub_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_sub_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_maskz_sub_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask_sub_sd(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __m128d x3; memcpy(&x3, a[3], sizeof x3);
  __m128d y = _mm_mask_sub_sd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_maskz_sub_sd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128d x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __m128d y = _mm_maskz_sub_sd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask_sub_ss(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __m128 x3; memcpy(&x3, a[3], sizeof x3);
  __m128 y = _mm_mask_sub_ss(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_maskz_sub_ss(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __m128 y = _mm_maskz_sub_ss(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mul_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d y = _mm512_mul_pd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_mul_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_mask_mul_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_mul_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_maskz_mul_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mul_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 y = _mm512_mul_ps(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_mul_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_mask_mul_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_mul_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_maskz_mul_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask_mul_sd(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __m128d x3; memcpy(&x3, a[3], sizeof x3);
  __m128d y = _mm_mask_mul_sd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_maskz_mul_sd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128d x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __m128d y = _mm_maskz_mul_sd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask_mul_ss(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __m128 x3; memcpy(&x3, a[3], sizeof x3);
  __m128 y = _mm_mask_mul_ss(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_maskz_mul_ss(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __m128 y = _mm_maskz_mul_ss(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_div_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d y = _mm512_div_pd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_div_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_mask_div_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_div_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_maskz_div_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_div_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 y = _mm512_div_ps(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_div_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_mask_div_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_div_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_maskz_div_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask_div_sd(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __m128d x3; memcpy(&x3, a[3], sizeof x3);
  __m128d y = _mm_mask_div_sd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_maskz_div_sd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128d x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __m128d y = _mm_maskz_div_sd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask_div_ss(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __m128 x3; memcpy(&x3, a[3], sizeof x3);
  __m128 y = _mm_mask_div_ss(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_maskz_div_ss(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __m128 y = _mm_maskz_div_ss(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_max_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d y = _mm512_max_pd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_max_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_mask_max_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_max_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_maskz_max_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_max_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 y = _mm512_max_ps(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_max_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_mask_max_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_max_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_maskz_max_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask_max_sd(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __m128d x3; memcpy(&x3, a[3], sizeof x3);
  __m128d y = _mm_mask_max_sd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_maskz_max_sd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128d x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __m128d y = _mm_maskz_max_sd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask_max_ss(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __m128 x3; memcpy(&x3, a[3], sizeof x3);
  __m128 y = _mm_mask_max_ss(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_maskz_max_ss(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __m128 y = _mm_maskz_max_ss(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_min_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d y = _mm512_min_pd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_min_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_mask_min_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_min_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_maskz_min_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_min_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 y = _mm512_min_ps(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_min_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_mask_min_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_min_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_maskz_min_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask_min_sd(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __m128d x3; memcpy(&x3, a[3], sizeof x3);
  __m128d y = _mm_mask_min_sd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_maskz_min_sd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128d x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __m128d y = _mm_maskz_min_sd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask_min_ss(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __m128 x3; memcpy(&x3, a[3], sizeof x3);
  __m128 y = _mm_mask_min_ss(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_maskz_min_ss(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __m128 y = _mm_maskz_min_ss(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_scalef_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d y = _mm512_scalef_pd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_scalef_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_mask_scalef_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_scalef_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_maskz_scalef_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_scalef_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 y = _mm512_scalef_ps(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_scalef_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_mask_scalef_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_scalef_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_maskz_scalef_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_scalef_sd(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  __m128d x1; memcpy(&x1, a[1], sizeof x1);
  __m128d y = _mm_scalef_sd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_scalef_ss(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  __m128 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 y = _mm_scalef_ss(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_fmadd_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_fmadd_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_fmadd_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_mask_fmadd_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask3_fmadd_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_mask3_fmadd_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_fmadd_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_maskz_fmadd_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_fmadd_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_fmadd_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_fmadd_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_mask_fmadd_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask3_fmadd_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __mmask16 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_mask3_fmadd_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_fmadd_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_maskz_fmadd_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_fmsub_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_fmsub_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_fmsub_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_mask_fmsub_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask3_fmsub_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_mask3_fmsub_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_fmsub_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_maskz_fmsub_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_fmsub_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_fmsub_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_fmsub_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_mask_fmsub_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask3_fmsub_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __mmask16 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_mask3_fmsub_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_fmsub_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_maskz_fmsub_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_fmaddsub_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_fmaddsub_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_fmaddsub_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_mask_fmaddsub_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask3_fmaddsub_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_mask3_fmaddsub_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_fmaddsub_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_maskz_fmaddsub_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_fmaddsub_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_fmaddsub_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_fmaddsub_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_mask_fmaddsub_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask3_fmaddsub_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __mmask16 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_mask3_fmaddsub_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_fmaddsub_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_maskz_fmaddsub_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_fmsubadd_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_fmsubadd_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_fmsubadd_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_mask_fmsubadd_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask3_fmsubadd_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_mask3_fmsubadd_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_fmsubadd_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_maskz_fmsubadd_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_fmsubadd_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_fmsubadd_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_fmsubadd_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_mask_fmsubadd_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask3_fmsubadd_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __mmask16 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_mask3_fmsubadd_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_fmsubadd_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_maskz_fmsubadd_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_fnmadd_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_fnmadd_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_fnmadd_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_mask_fnmadd_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask3_fnmadd_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_mask3_fnmadd_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_fnmadd_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_maskz_fnmadd_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_fnmadd_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_fnmadd_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_fnmadd_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_mask_fnmadd_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask3_fnmadd_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __mmask16 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_mask3_fnmadd_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_fnmadd_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_maskz_fnmadd_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_fnmsub_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_fnmsub_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_fnmsub_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_mask_fnmsub_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask3_fnmsub_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_mask3_fnmsub_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_fnmsub_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d x3; memcpy(&x3, a[3], sizeof x3);
  __m512d y = _mm512_maskz_fnmsub_pd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_fnmsub_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_fnmsub_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_fnmsub_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_mask_fnmsub_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask3_fnmsub_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __mmask16 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_mask3_fnmsub_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_fnmsub_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 x3; memcpy(&x3, a[3], sizeof x3);
  __m512 y = _mm512_maskz_fnmsub_ps(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvttpd_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m256i y = _mm512_cvttpd_epi32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvttpd_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m256i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m256i y = _mm512_mask_cvttpd_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvttpd_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m256i y = _mm512_maskz_cvttpd_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvttpd_epu32(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m256i y = _mm512_cvttpd_epu32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvttpd_epu32(char *r, char **a) {
  (void) r; (void) a;
  __m256i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m256i y = _mm512_mask_cvttpd_epu32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvttpd_epu32(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m256i y = _mm512_maskz_cvttpd_epu32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtpd_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m256i y = _mm512_cvtpd_epi32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtpd_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m256i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m256i y = _mm512_mask_cvtpd_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtpd_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m256i y = _mm512_maskz_cvtpd_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtpd_epu32(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m256i y = _mm512_cvtpd_epu32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtpd_epu32(char *r, char **a) {
  (void) r; (void) a;
  __m256i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m256i y = _mm512_mask_cvtpd_epu32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtpd_epu32(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m256i y = _mm512_maskz_cvtpd_epu32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvttps_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_cvttps_epi32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvttps_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_mask_cvttps_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvttps_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_maskz_cvttps_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvttps_epu32(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_cvttps_epu32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvttps_epu32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_mask_cvttps_epu32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvttps_epu32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_maskz_cvttps_epu32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtps_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_cvtps_epi32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtps_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_mask_cvtps_epi32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtps_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_maskz_cvtps_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtps_epu32(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_cvtps_epu32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtps_epu32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512i y = _mm512_mask_cvtps_epu32(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtps_epu32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i y = _mm512_maskz_cvtps_epu32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtsd_f64(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  double y = _mm512_cvtsd_f64(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtss_f32(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  float y = _mm512_cvtss_f32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_cvtu64_ss(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  unsigned long long x1; memcpy(&x1, a[1], sizeof x1);
  __m128 y = _mm_cvtu64_ss(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_cvtu64_sd(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  unsigned long long x1; memcpy(&x1, a[1], sizeof x1);
  __m128d y = _mm_cvtu64_sd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_cvtu32_ss(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  unsigned x1; memcpy(&x1, a[1], sizeof x1);
  __m128 y = _mm_cvtu32_ss(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtepi32_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512 y = _mm512_cvtepi32_ps(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtepi32_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_mask_cvtepi32_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtepi32_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512 y = _mm512_maskz_cvtepi32_ps(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtepu32_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512 y = _mm512_cvtepu32_ps(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtepu32_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_mask_cvtepu32_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtepu32_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512 y = _mm512_maskz_cvtepu32_ps(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_cvtss_u64(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  unsigned long long y = _mm_cvtss_u64(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_cvttss_u64(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  unsigned long long y = _mm_cvttss_u64(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_cvttss_i64(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  long long y = _mm_cvttss_i64(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtsi512_si32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  int y = _mm512_cvtsi512_si32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_cvtss_u32(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  unsigned y = _mm_cvtss_u32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_cvttss_u32(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  unsigned y = _mm_cvttss_u32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_cvttss_i32(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  int y = _mm_cvttss_i32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_cvtsd_i32(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  int y = _mm_cvtsd_i32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_cvtss_i32(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  int y = _mm_cvtss_i32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_cvtsd_u64(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  unsigned long long y = _mm_cvtsd_u64(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_cvttsd_u64(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  unsigned long long y = _mm_cvttsd_u64(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_cvttsd_i64(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  long long y = _mm_cvttsd_i64(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_cvtsd_i64(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  long long y = _mm_cvtsd_i64(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_cvtss_i64(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  long long y = _mm_cvtss_i64(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_cvti64_sd(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  long long x1; memcpy(&x1, a[1], sizeof x1);
  __m128d y = _mm_cvti64_sd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_cvti64_ss(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  long long x1; memcpy(&x1, a[1], sizeof x1);
  __m128 y = _mm_cvti64_ss(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_cvtsd_u32(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  unsigned y = _mm_cvtsd_u32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_cvttsd_u32(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  unsigned y = _mm_cvttsd_u32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_cvttsd_i32(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  int y = _mm_cvttsd_i32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtps_pd(char *r, char **a) {
  (void) r; (void) a;
  __m256 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d y = _mm512_cvtps_pd(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtps_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m256 x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_mask_cvtps_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtps_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m256 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d y = _mm512_maskz_cvtps_pd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtph_ps(char *r, char **a) {
  (void) r; (void) a;
  __m256i x0; memcpy(&x0, a[0], sizeof x0);
  __m512 y = _mm512_cvtph_ps(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtph_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m256i x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_mask_cvtph_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtph_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m256i x1; memcpy(&x1, a[1], sizeof x1);
  __m512 y = _mm512_maskz_cvtph_ps(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cvtpd_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m256 y = _mm512_cvtpd_ps(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cvtpd_ps(char *r, char **a) {
  (void) r; (void) a;
  __m256 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m256 y = _mm512_mask_cvtpd_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_cvtpd_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m256 y = _mm512_maskz_cvtpd_ps(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_getexp_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 y = _mm512_getexp_ps(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_getexp_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __m512 y = _mm512_mask_getexp_ps(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_getexp_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 y = _mm512_maskz_getexp_ps(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_getexp_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d y = _mm512_getexp_pd(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_getexp_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __m512d y = _mm512_mask_getexp_pd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_maskz_getexp_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d y = _mm512_maskz_getexp_pd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_getexp_ss(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  __m128 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 y = _mm_getexp_ss(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask_getexp_ss(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __m128 x3; memcpy(&x3, a[3], sizeof x3);
  __m128 y = _mm_mask_getexp_ss(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_maskz_getexp_ss(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128 x1; memcpy(&x1, a[1], sizeof x1);
  __m128 x2; memcpy(&x2, a[2], sizeof x2);
  __m128 y = _mm_maskz_getexp_ss(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_getexp_sd(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  __m128d x1; memcpy(&x1, a[1], sizeof x1);
  __m128d y = _mm_getexp_sd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_mask_getexp_sd(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  __mmask8 x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __m128d x3; memcpy(&x3, a[3], sizeof x3);
  __m128d y = _mm_mask_getexp_sd(x0, x1, x2, x3); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm_maskz_getexp_sd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m128d x1; memcpy(&x1, a[1], sizeof x1);
  __m128d x2; memcpy(&x2, a[2], sizeof x2);
  __m128d y = _mm_maskz_getexp_sd(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmpeq_pd_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __mmask8 y = _mm512_cmpeq_pd_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmpeq_pd_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 y = _mm512_mask_cmpeq_pd_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmplt_pd_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __mmask8 y = _mm512_cmplt_pd_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmplt_pd_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 y = _mm512_mask_cmplt_pd_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmple_pd_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __mmask8 y = _mm512_cmple_pd_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmple_pd_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 y = _mm512_mask_cmple_pd_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmpunord_pd_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __mmask8 y = _mm512_cmpunord_pd_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmpunord_pd_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 y = _mm512_mask_cmpunord_pd_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmpneq_pd_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __mmask8 y = _mm512_cmpneq_pd_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmpneq_pd_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 y = _mm512_mask_cmpneq_pd_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmpnlt_pd_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __mmask8 y = _mm512_cmpnlt_pd_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmpnlt_pd_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 y = _mm512_mask_cmpnlt_pd_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmpnle_pd_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __mmask8 y = _mm512_cmpnle_pd_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmpnle_pd_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 y = _mm512_mask_cmpnle_pd_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmpord_pd_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __mmask8 y = _mm512_cmpord_pd_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmpord_pd_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  __m512d x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 y = _mm512_mask_cmpord_pd_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmpeq_ps_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __mmask16 y = _mm512_cmpeq_ps_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmpeq_ps_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __mmask16 y = _mm512_mask_cmpeq_ps_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmplt_ps_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __mmask16 y = _mm512_cmplt_ps_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmplt_ps_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __mmask16 y = _mm512_mask_cmplt_ps_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmple_ps_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __mmask16 y = _mm512_cmple_ps_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmple_ps_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __mmask16 y = _mm512_mask_cmple_ps_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmpunord_ps_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __mmask16 y = _mm512_cmpunord_ps_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmpunord_ps_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __mmask16 y = _mm512_mask_cmpunord_ps_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmpneq_ps_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __mmask16 y = _mm512_cmpneq_ps_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmpneq_ps_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __mmask16 y = _mm512_mask_cmpneq_ps_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmpnlt_ps_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __mmask16 y = _mm512_cmpnlt_ps_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmpnlt_ps_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __mmask16 y = _mm512_mask_cmpnlt_ps_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmpnle_ps_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __mmask16 y = _mm512_cmpnle_ps_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmpnle_ps_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __mmask16 y = _mm512_mask_cmpnle_ps_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmpord_ps_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __mmask16 y = _mm512_cmpord_ps_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmpord_ps_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  __m512 x2; memcpy(&x2, a[2], sizeof x2);
  __mmask16 y = _mm512_mask_cmpord_ps_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_kmov(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __mmask16 y = _mm512_kmov(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_castpd_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512 y = _mm512_castpd_ps(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_castpd_si512(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_castpd_si512(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_castps_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d y = _mm512_castps_pd(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_castps_si512(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_castps_si512(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_castsi512_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512 y = _mm512_castsi512_ps(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_castsi512_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512d y = _mm512_castsi512_pd(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_castpd512_pd128(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m128d y = _mm512_castpd512_pd128(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_castps512_ps128(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m128 y = _mm512_castps512_ps128(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_castsi512_si128(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m128i y = _mm512_castsi512_si128(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_castpd512_pd256(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  __m256d y = _mm512_castpd512_pd256(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_castps512_ps256(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  __m256 y = _mm512_castps512_ps256(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_castsi512_si256(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m256i y = _mm512_castsi512_si256(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_castpd128_pd512(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d y = _mm512_castpd128_pd512(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_castps128_ps512(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 y = _mm512_castps128_ps512(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_castsi128_si512(char *r, char **a) {
  (void) r; (void) a;
  __m128i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_castsi128_si512(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_castpd256_pd512(char *r, char **a) {
  (void) r; (void) a;
  __m256d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d y = _mm512_castpd256_pd512(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_castps256_ps512(char *r, char **a) {
  (void) r; (void) a;
  __m256 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 y = _mm512_castps256_ps512(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_castsi256_si512(char *r, char **a) {
  (void) r; (void) a;
  __m256i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_castsi256_si512(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_zextpd128_pd512(char *r, char **a) {
  (void) r; (void) a;
  __m128d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d y = _mm512_zextpd128_pd512(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_zextps128_ps512(char *r, char **a) {
  (void) r; (void) a;
  __m128 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 y = _mm512_zextps128_ps512(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_zextsi128_si512(char *r, char **a) {
  (void) r; (void) a;
  __m128i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_zextsi128_si512(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_zextpd256_pd512(char *r, char **a) {
  (void) r; (void) a;
  __m256d x0; memcpy(&x0, a[0], sizeof x0);
  __m512d y = _mm512_zextpd256_pd512(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_zextps256_ps512(char *r, char **a) {
  (void) r; (void) a;
  __m256 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 y = _mm512_zextps256_ps512(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_zextsi256_si512(char *r, char **a) {
  (void) r; (void) a;
  __m256i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i y = _mm512_zextsi256_si512(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmpeq_epu32_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask16 y = _mm512_cmpeq_epu32_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmpeq_epu32_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __mmask16 y = _mm512_mask_cmpeq_epu32_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmpeq_epu64_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 y = _mm512_mask_cmpeq_epu64_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmpeq_epu64_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask8 y = _mm512_cmpeq_epu64_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmpgt_epu32_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask16 y = _mm512_cmpgt_epu32_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmpgt_epu32_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __mmask16 y = _mm512_mask_cmpgt_epu32_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_cmpgt_epu64_mask(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __m512i x2; memcpy(&x2, a[2], sizeof x2);
  __mmask8 y = _mm512_mask_cmpgt_epu64_mask(x0, x1, x2); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_cmpgt_epu64_mask(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  __mmask8 y = _mm512_cmpgt_epu64_mask(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_reduce_add_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  int y = _mm512_reduce_add_epi32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_reduce_mul_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  int y = _mm512_reduce_mul_epi32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_reduce_and_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  int y = _mm512_reduce_and_epi32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_reduce_or_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  int y = _mm512_reduce_or_epi32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_reduce_add_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  int y = _mm512_mask_reduce_add_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_reduce_mul_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  int y = _mm512_mask_reduce_mul_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_reduce_and_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  int y = _mm512_mask_reduce_and_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_reduce_or_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  int y = _mm512_mask_reduce_or_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_reduce_min_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  int y = _mm512_reduce_min_epi32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_reduce_max_epi32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  int y = _mm512_reduce_max_epi32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_reduce_min_epu32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  unsigned int y = _mm512_reduce_min_epu32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_reduce_max_epu32(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  unsigned int y = _mm512_reduce_max_epu32(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_reduce_min_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  int y = _mm512_mask_reduce_min_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_reduce_max_epi32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  int y = _mm512_mask_reduce_max_epi32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_reduce_min_epu32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  unsigned int y = _mm512_mask_reduce_min_epu32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_reduce_max_epu32(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  unsigned int y = _mm512_mask_reduce_max_epu32(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_reduce_add_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  float y = _mm512_reduce_add_ps(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_reduce_mul_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  float y = _mm512_reduce_mul_ps(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_reduce_add_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  float y = _mm512_mask_reduce_add_ps(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_reduce_mul_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  float y = _mm512_mask_reduce_mul_ps(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_reduce_min_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  float y = _mm512_reduce_min_ps(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_reduce_max_ps(char *r, char **a) {
  (void) r; (void) a;
  __m512 x0; memcpy(&x0, a[0], sizeof x0);
  float y = _mm512_reduce_max_ps(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_reduce_min_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  float y = _mm512_mask_reduce_min_ps(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_reduce_max_ps(char *r, char **a) {
  (void) r; (void) a;
  __mmask16 x0; memcpy(&x0, a[0], sizeof x0);
  __m512 x1; memcpy(&x1, a[1], sizeof x1);
  float y = _mm512_mask_reduce_max_ps(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_reduce_add_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  long long y = _mm512_reduce_add_epi64(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_reduce_mul_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  long long y = _mm512_reduce_mul_epi64(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_reduce_and_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  long long y = _mm512_reduce_and_epi64(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_reduce_or_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  long long y = _mm512_reduce_or_epi64(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_reduce_add_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  long long y = _mm512_mask_reduce_add_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_reduce_mul_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  long long y = _mm512_mask_reduce_mul_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_reduce_and_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  long long y = _mm512_mask_reduce_and_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_reduce_or_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  long long y = _mm512_mask_reduce_or_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_reduce_min_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  long long y = _mm512_reduce_min_epi64(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_reduce_max_epi64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  long long y = _mm512_reduce_max_epi64(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_reduce_min_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  long long y = _mm512_mask_reduce_min_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_reduce_max_epi64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  long long y = _mm512_mask_reduce_max_epi64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_reduce_min_epu64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  unsigned long long y = _mm512_reduce_min_epu64(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_reduce_max_epu64(char *r, char **a) {
  (void) r; (void) a;
  __m512i x0; memcpy(&x0, a[0], sizeof x0);
  unsigned long long y = _mm512_reduce_max_epu64(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_reduce_min_epu64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  unsigned long long y = _mm512_mask_reduce_min_epu64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_reduce_max_epu64(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512i x1; memcpy(&x1, a[1], sizeof x1);
  unsigned long long y = _mm512_mask_reduce_max_epu64(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_reduce_add_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  double y = _mm512_reduce_add_pd(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_reduce_mul_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  double y = _mm512_reduce_mul_pd(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_reduce_add_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  double y = _mm512_mask_reduce_add_pd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_reduce_mul_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  double y = _mm512_mask_reduce_mul_pd(x0, x1); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_reduce_min_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  double y = _mm512_reduce_min_pd(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_reduce_max_pd(char *r, char **a) {
  (void) r; (void) a;
  __m512d x0; memcpy(&x0, a[0], sizeof x0);
  double y = _mm512_reduce_max_pd(x0); memcpy(r, &y, sizeof y);
}
__attribute__((visibility("default"))) void o_mm512_mask_reduce_min_pd(char *r, char **a) {
  (void) r; (void) a;
  __mmask8 x0; memcpy(&x0, a[0], sizeof x0);
  __m512d x1; memcpy(&x1, a[1], sizeof x1);
  double y = _mm512_mask_reduce_min_pd(x0, x1); memcpy(r, &y, sizeof y);
}
