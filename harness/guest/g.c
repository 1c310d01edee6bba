/*
 * Runs on the emulated machine, next to the library: the few C library functions it needs, the run-time
 * helpers the compiler calls, and the derived parameter sets.
 */
#include "tiny_sphincs.h"
#include <string.h>
void *memcpy(void *d, const void *s, size_t n) {
    volatile unsigned char *a = d; const unsigned char *b = s;
    if (!(((unsigned long)d | (unsigned long)s) & 3)) for (; n >= 4; n -= 4, a += 4, b += 4) *(volatile unsigned *)a = *(const volatile unsigned *)b;
    while (n--) *a++ = *b++;
    return d;
}
void *memmove(void *d, const void *s, size_t n) {
    volatile unsigned char *a = d; const unsigned char *b = s;
    if ((unsigned long)d <= (unsigned long)s) while (n--) *a++ = *b++; else while (n--) a[n] = b[n];
    return d;
}
void *memset(void *d, int c, size_t n) {
    volatile unsigned char *a = d;
    if (!((unsigned long)d & 3)) for (; n >= 4; n -= 4, a += 4) *(volatile unsigned *)a = (unsigned char)c * 0x01010101u;
    while (n--) *a++ = (unsigned char)c;
    return d;
}
int memcmp(const void *x, const void *y, size_t n) { const unsigned char *a = x, *b = y; for (; n; n--, a++, b++) if (*a != *b) return *a < *b ? -1 : 1; return 0; }
void *memchr(const void *x, int c, size_t n) { const unsigned char *a = x; for (; n; n--, a++) if (*a == (unsigned char)c) return (void *)a; return 0; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) a++, b++, n--; return n ? (unsigned char)*a - (unsigned char)*b : 0; }
void abort(void) { __builtin_trap(); }
int abs(int x) { return x < 0 ? -x : x; }

typedef unsigned long long U; typedef long long L; typedef unsigned int W;
#ifdef __BIG_ENDIAN__
typedef union { U u; struct { W h, l; } w; } P;
#elif __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__
typedef union { U u; struct { W h, l; } w; } P;
#else
typedef union { U u; struct { W l, h; } w; } P;
#endif
U __ashldi3(U a, int b) { P p, r; p.u = a; if (b & 32) { r.w.l = 0; r.w.h = p.w.l << (b & 31); } else if (!b) return a; else { r.w.l = p.w.l << b; r.w.h = p.w.h << b | p.w.l >> (32 - b); } return r.u; }
U __lshrdi3(U a, int b) { P p, r; p.u = a; if (b & 32) { r.w.h = 0; r.w.l = p.w.h >> (b & 31); } else if (!b) return a; else { r.w.h = p.w.h >> b; r.w.l = p.w.l >> b | p.w.h << (32 - b); } return r.u; }
L __ashrdi3(L a, int b) { P p, r; p.u = (U)a; if (b & 32) { r.w.h = (W)((int)p.w.h >> 31); r.w.l = (W)((int)p.w.h >> (b & 31)); } else if (!b) return a; else { r.w.h = (W)((int)p.w.h >> b); r.w.l = p.w.l >> b | p.w.h << (32 - b); } return (L)r.u; }
U __muldi3(U a, U b) { P x, y; x.u = a; y.u = b; P r; r.u = (U)x.w.l * y.w.l; r.w.h += x.w.h * y.w.l + x.w.l * y.w.h; return r.u; }
static U dm(U a, U b, U *rem) { U q = 0, r = 0; for (int i = 63; i >= 0; i--) { r = r << 1 | (a >> i & 1); if (r >= b) { r -= b; q |= 1ULL << i; } } *rem = r; return q; }
U __udivdi3(U a, U b) { U r; if (!b) __builtin_trap(); return dm(a, b, &r); }
U __umoddi3(U a, U b) { U r; if (!b) __builtin_trap(); dm(a, b, &r); return r; }
L __divdi3(L a, L b) { U r; if (!b) __builtin_trap(); U q = dm(a < 0 ? -(U)a : (U)a, b < 0 ? -(U)b : (U)b, &r); return (L)((a < 0) != (b < 0) ? -q : q); }
L __moddi3(L a, L b) { U r; if (!b) __builtin_trap(); dm(a < 0 ? -(U)a : (U)a, b < 0 ? -(U)b : (U)b, &r); return (L)(a < 0 ? -r : r); }

unsigned g_ctx_size(void) { return sizeof(struct ts_context); }
unsigned g_ctx_align(void) { return _Alignof(struct ts_context); }
unsigned g_facts(void) { return sizeof(void *) | sizeof(size_t) << 4 | sizeof(unsigned) << 8 | ((char)-1 < 0) << 12; }

#ifndef VP_PLAIN
#include "internal.h"
#include "ref.h"
/* derived sets; the table is filled by the host through g_mk, so that there is one list of them */
struct gset { struct ts_parameter_set buf; int mode; };
static struct gset G[64]; static int NG;
#define GS(c) ((const struct gset *)(c)->ps)
static unsigned adrlen(const struct gset *t) { return t->buf.sha2 ? 22 : 32; }
static void a_prf_msg(unsigned char *out, const unsigned char *opt, const unsigned char *msg, size_t len, struct ts_context *c) {
    const struct gset *t = GS(c); int n = t->buf.n; abs_t s; abs_init(&s, ABS_PRFMSG); abs_add(&s, c->public_key - n, n); abs_add(&s, opt, n); abs_add(&s, msg, len); abs_out(&s, out, n, t->mode);
}
static void a_hash_msg(unsigned char *out, size_t outlen, const unsigned char *R, const unsigned char *msg, size_t len, struct ts_context *c) {
    const struct gset *t = GS(c); int n = t->buf.n;
    if (t->mode & 2) { for (size_t i = 0; i < outlen; i++) out[i] = i < len ? msg[i] : 0; return; }
    abs_t s; abs_init(&s, ABS_HMSG); abs_add(&s, R, n); abs_add(&s, c->public_key, 2 * n); abs_add(&s, msg, len); abs_out(&s, out, outlen, t->mode);
}
static void a_begin(abs_t *s, const struct ts_context *c, unsigned tag) { const struct gset *t = GS(c); abs_init(s, tag); abs_add(s, c->public_key, t->buf.n); abs_add(s, c->adr, adrlen(t)); }
static void a_prf(unsigned char *out, struct ts_context *c) { const struct gset *t = GS(c); abs_t s; a_begin(&s, c, ABS_PRF); abs_add(&s, c->public_key - 2 * t->buf.n, t->buf.n); abs_out(&s, out, t->buf.n, t->mode); }
static void a_f(unsigned char *out, const unsigned char *in, struct ts_context *c) { const struct gset *t = GS(c); abs_t s; a_begin(&s, c, ABS_F); abs_add(&s, in, t->buf.n); abs_out(&s, out, t->buf.n, t->mode); }
static void a_init_t(union t_iterator *it, struct ts_context *c) { abs_t s; a_begin(&s, c, ABS_F); memcpy(it, &s, sizeof s); }
static void a_next_t(union t_iterator *it, const unsigned char *in, const struct ts_context *c) { abs_t s; memcpy(&s, it, sizeof s); abs_add(&s, in, GS(c)->buf.n); memcpy(it, &s, sizeof s); }
static void a_final_t(unsigned char *out, union t_iterator *it, const struct ts_context *c) { const struct gset *t = GS(c); abs_t s; memcpy(&s, it, sizeof s); abs_out(&s, out, t->buf.n, t->mode); }
static void a_pre(struct ts_context *c) { (void)c; }
/* parameters packed by the host: base set, n | k<<8 | t<<16 | d<<24, mh | absmode<<8 | abstract<<16 */
const void *g_mk(const struct ts_parameter_set *b, unsigned x, unsigned y) {
    struct gset *o = &G[NG++]; unsigned n = x & 255, k = x >> 8 & 255, t = x >> 16 & 255, d = x >> 24, mh = y & 255;
    if (n > TS_MAX_HASH || t > TS_MAX_T || mh > TS_MAX_MERKLE_H) { NG--; return 0; }
    o->buf = *b; o->buf.n = n; o->buf.k = k; o->buf.t = t; o->buf.h = d * mh; o->buf.d = d; o->buf.merkle_h = mh; o->mode = y >> 8 & 255;
    if (y >> 16 & 1) {
        o->buf.prf_msg = a_prf_msg; o->buf.hash_msg = a_hash_msg; o->buf.prf = a_prf; o->buf.f = a_f; o->buf.init_t = a_init_t; o->buf.next_t = a_next_t; o->buf.final_t = a_final_t;
        o->buf.compute_prehash = b->sha2 ? a_pre : 0;
    }
    return &o->buf;
}
#endif
