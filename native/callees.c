/* Functions for Unsafe.call and its relatives: each counts its runs and returns what the harness put in place. */
#include <stdint.h>
#include <string.h>

#define OUT __attribute__((visibility("default")))
OUT long runs;
OUT unsigned char source[70000];
OUT long order[64];
OUT long ordered;

static void ran(long id) {
    runs++;
    if (ordered < 64) order[ordered++] = id;
}

OUT void f_void(void) { ran(1); }
#define SCALAR(name, type, id) OUT type f_##name(void) { type v; ran(id); memcpy(&v, source, sizeof v); return v; }
SCALAR(char, signed char, 2)
SCALAR(short, short, 3)
SCALAR(int, int, 4)
SCALAR(uint, unsigned, 5)
SCALAR(llong, long long, 6)
SCALAR(ullong, unsigned long long, 7)
SCALAR(pointer, void *, 8)
SCALAR(uchar, unsigned char, 9)
SCALAR(ushort, unsigned short, 10)
/* the register's upper half is rubbish, as a compiler may leave it */
OUT long long f_dirty(void) { ran(11); long long v; memcpy(&v, source, sizeof v); return v; }

#define STRUCT(n) struct s##n { unsigned char b[n]; }; OUT struct s##n f_struct##n(void) { \
    struct s##n v; ran(1000 + n); memcpy(&v, source, n); return v; }
#define TEN(a) STRUCT(a##0) STRUCT(a##1) STRUCT(a##2) STRUCT(a##3) STRUCT(a##4) STRUCT(a##5) STRUCT(a##6) STRUCT(a##7) \
    STRUCT(a##8) STRUCT(a##9)
STRUCT(1) STRUCT(2) STRUCT(3) STRUCT(4) STRUCT(5) STRUCT(6) STRUCT(7) STRUCT(8) STRUCT(9)
TEN(1) TEN(2) TEN(3) TEN(4) TEN(5) TEN(6) TEN(7) TEN(10) TEN(12) TEN(25) TEN(51)
STRUCT(1000) STRUCT(1024) STRUCT(1025) STRUCT(4096) STRUCT(5000) STRUCT(8192) STRUCT(65536) STRUCT(65541) STRUCT(70000)

/* integer pairs and mixtures, all of class INTEGER */
struct pair { long long a, b; };
OUT struct pair f_pair(void) { struct pair v; ran(20); memcpy(&v, source, sizeof v); return v; }
struct mix { int a; char b; short c; void *d; };
OUT struct mix f_mix(void) { struct mix v; ran(21); memcpy(&v, source, sizeof v); return v; }
struct three { int a, b, c; };
OUT struct three f_three(void) { struct three v; ran(22); memcpy(&v, source, sizeof v); return v; }
struct five { long long a[5]; };
OUT struct five f_five(void) { struct five v; ran(23); memcpy(&v, source, sizeof v); return v; }
