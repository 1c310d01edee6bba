#include "common.h"
#include <sys/time.h>
#include <sys/wait.h>

/* ================================================================ parameter sets */
struct tset SETS[64]; int NSETS;
struct tset TOYS[64]; int NTOYS;
struct tset ABST[64]; int NABST;
struct tset EXTS[16]; int NEXTS;
struct hcount HC;
int derived_dropped;

#ifndef VP_PLAIN
#define TSET(c) ((const struct tset *)((const char *)(c)->ps - offsetof(struct tset, buf)))
static size_t abs_adrlen(const struct tset *t) { return t->r.sha2adr ? 22 : 32; }
static void abs_prf_msg(unsigned char *out, const unsigned char *opt, const unsigned char *msg, size_t len, struct ts_context *c) {
    const struct tset *t = TSET(c); int n = t->r.n; abs_t s; HC.msg++;
    abs_init(&s, ABS_PRFMSG); abs_add(&s, c->public_key - n, n); abs_add(&s, opt, n); abs_add(&s, msg, len); abs_out(&s, out, n, t->r.absmode);
}
static void abs_hash_msg(unsigned char *out, size_t outlen, const unsigned char *R, const unsigned char *msg, size_t len, struct ts_context *c) {
    const struct tset *t = TSET(c); int n = t->r.n; HC.msg++;
    if (t->r.absmode & 2) { for (size_t i = 0; i < outlen; i++) out[i] = i < len ? msg[i] : 0; return; }
    abs_t s; abs_init(&s, ABS_HMSG); abs_add(&s, R, n); abs_add(&s, c->public_key, 2 * n); abs_add(&s, msg, len); abs_out(&s, out, outlen, t->r.absmode);
}
static void abs_begin(abs_t *s, const struct ts_context *c, unsigned tag) {
    const struct tset *t = TSET(c);
    abs_init(s, tag); abs_add(s, c->public_key, t->r.n); abs_add(s, c->adr, abs_adrlen(t));
}
static void abs_prf(unsigned char *out, struct ts_context *c) {
    const struct tset *t = TSET(c); abs_t s; HC.prf++;
    abs_begin(&s, c, ABS_PRF); abs_add(&s, c->public_key - 2 * t->r.n, t->r.n); abs_out(&s, out, t->r.n, t->r.absmode);
}
static void abs_f(unsigned char *out, const unsigned char *in, struct ts_context *c) {
    const struct tset *t = TSET(c); abs_t s; HC.f++;
    abs_begin(&s, c, ABS_F); abs_add(&s, in, t->r.n); abs_out(&s, out, t->r.n, t->r.absmode);
}
static void abs_init_t(union t_iterator *it, struct ts_context *c) { abs_t s; HC.t_init++; abs_begin(&s, c, ABS_F); memcpy(it, &s, sizeof s); }
static void abs_next_t(union t_iterator *it, const unsigned char *in, const struct ts_context *c) {
    abs_t s; HC.t_next++; memcpy(&s, it, sizeof s); abs_add(&s, in, TSET(c)->r.n); memcpy(it, &s, sizeof s);
}
static void abs_final_t(unsigned char *out, union t_iterator *it, const struct ts_context *c) {
    const struct tset *t = TSET(c); abs_t s; HC.t_final++; memcpy(&s, it, sizeof s); abs_out(&s, out, t->r.n, t->r.absmode);
}

static void abs_pre(struct ts_context *c) { (void)c; HC.pre++; }
static const struct ts_parameter_set *base_for(int fam, int n) {
    for (int i = 0; i < NSETS; i++) if (SETS[i].r.fam == fam && SETS[i].r.n == n) return SETS[i].ps;
    return 0;
}
static int no22, no32;
int mk_set(struct tset *o, const char *name, int fam, int n, int k, int t, int d, int mh, int absmode, int sha2adr) {
    const struct ts_parameter_set *b;
    memset(o, 0, sizeof *o);
    if (fam == FAM_ABS && (sha2adr ? no22 : no32)) return 0;
    if (n > TS_MAX_HASH || t > TS_MAX_T || mh > TS_MAX_MERKLE_H) return 0;
    if (fam == FAM_ABS) {
        b = 0; for (int i = 0; i < NSETS && !b; i++) if ((SETS[i].r.fam == FAM_SHA2) == (sha2adr != 0)) b = SETS[i].ps;
    } else b = base_for(fam, n);
    if (!b) return 0;
    snprintf(o->name, sizeof o->name, "%s", name);
    o->buf = *b;
    o->buf.n = n; o->buf.k = k; o->buf.t = t; o->buf.h = d * mh; o->buf.d = d; o->buf.merkle_h = mh;
    if (fam == FAM_ABS) {
        o->buf.prf_msg = abs_prf_msg; o->buf.hash_msg = abs_hash_msg; o->buf.prf = abs_prf; o->buf.f = abs_f;
        o->buf.init_t = abs_init_t; o->buf.next_t = abs_next_t; o->buf.final_t = abs_final_t; o->buf.compute_prehash = sha2adr ? abs_pre : 0;
    }
    o->ps = &o->buf; o->real = 0;
    o->r = (rps_t){ .n = n, .k = k, .t = t, .h = d * mh, .d = d, .mh = mh, .fam = fam, .sha2adr = sha2adr || fam == FAM_SHA2, .absmode = absmode };
    return 1;
}
/*
 * Derived sets rest on an understanding of the library's internal structures.  Each class of them is used only if it is
 * demonstrably understood here: some set of the class gives the reference's key and signature for some message.
 * (A class nothing of which works is a class this machinery does not fit; the published sets are explored regardless.)
 */
static int fits(struct tset *t) {
    int n = t->r.n, L = ref_sig_len(&t->r), ok = 0; struct ts_context *c = calloc(1, sizeof *c); u8 *a = malloc(L), *b = malloc(L), sk[128], sk2[128], pk[64], msg[64];
    for (int i = 0; i < 3 && !ok; i++) {
        fill(msg, 64, 1000 + i); fill(RNG_bytes, sizeof RNG_bytes, i); RNG_pos = 0; ref_keygen(&t->r, RNG_bytes, sk);
        if (ts_gen_key(sk2, pk, t->ps, rng_fixed) != 1 || memcmp(sk, sk2, 4 * n)) continue;
        RNG_pos = 0; ref_sign(&t->r, sk, RNG_bytes, msg, 64, b); ts_init_sign(c, msg, 64, t->ps, sk, rng_fixed); ok = ts_sign(a, L, c) == (unsigned)L && !memcmp(a, b, L);
    }
    free(a); free(b); free(c); RNG_pos = 0; RNG_calls = 0; memset(&HC, 0, sizeof HC); return ok;
}
static int class_fits(struct tset *t, int cnt, int want22) {
    int any = 0; for (int i = 0; i < cnt; i++) any |= want22 < 0 || t[i].r.sha2adr == want22;
    if (!any) return 1;
    fflush(stdout); pid_t p = fork(); if (p < 0) return 1;
    if (!p) {
        signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL); alarm(20); int nul = dup(1); (void)nul; close(1); close(2);
        for (int i = 0; i < cnt; i++) if ((want22 < 0 || t[i].r.sha2adr == want22) && fits(&t[i])) _exit(0);
        _exit(1);
    }
    int st = 0; if (waitpid(p, &st, 0) != p) return 1;
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
static int unknown_fields(const struct ts_parameter_set *b) {   /* members this harness does not know of */
    struct ts_parameter_set z; memset(&z, 0, sizeof z);
    z.n = b->n; z.k = b->k; z.t = b->t; z.h = b->h; z.d = b->d; z.merkle_h = b->merkle_h; z.sha2 = b->sha2;
    z.prf_msg = b->prf_msg; z.hash_msg = b->hash_msg; z.prf = b->prf; z.f = b->f; z.init_t = b->init_t; z.next_t = b->next_t; z.final_t = b->final_t; z.compute_prehash = b->compute_prehash;
    return memcmp(&z, b, sizeof z) != 0;
}
static void drop(struct tset *t, int *cnt, int want22) { int o = 0; for (int i = 0; i < *cnt; i++) if (want22 >= 0 && t[i].r.sha2adr != want22) { t[o] = t[i]; t[o].ps = &t[o].buf; o++; } *cnt = o; }
static void check_derived(void) {
    int odd = 0; for (int i = 0; i < NSETS; i++) odd |= unknown_fields(SETS[i].ps);
    if (odd || !class_fits(TOYS, NTOYS, -1)) { drop(TOYS, &NTOYS, -1); derived_dropped |= 1; }
    if (odd || !class_fits(ABST, NABST, 0)) { drop(ABST, &NABST, 0); drop(EXTS, &NEXTS, 0); derived_dropped |= 2; no32 = 1; }
    if (odd || !class_fits(ABST, NABST, 1)) { drop(ABST, &NABST, 1); drop(EXTS, &NEXTS, 1); derived_dropped |= 4; no22 = 1; }
}
#else
int mk_set(struct tset *o, const char *name, int fam, int n, int k, int t, int d, int mh, int absmode, int sha2adr) { return 0; }
static void check_derived(void) { derived_dropped = 7; }
#endif
static void add_real(const char *name, const struct ts_parameter_set *ps, int fam, int n, int k, int t, int h, int d) {
    struct tset *o = &SETS[NSETS++]; memset(o, 0, sizeof *o);
    snprintf(o->name, sizeof o->name, "%s", name); o->ps = ps; o->real = 1;
    o->r = (rps_t){ .n = n, .k = k, .t = t, .h = h, .d = d, .mh = h / d, .fam = fam, .sha2adr = fam == FAM_SHA2 };
}
static void add_toy(const char *name, int fam, int n, int k, int t, int d, int mh) { if (mk_set(&TOYS[NTOYS], name, fam, n, k, t, d, mh, 0, 0)) NTOYS++; }
static void add_abs(const char *name, int n, int k, int t, int d, int mh, int mode, int a22) { if (mk_set(&ABST[NABST], name, FAM_ABS, n, k, t, d, mh, mode, a22)) NABST++; }

void sets_init(void) {
    if (NSETS) return;
    /* the structure table is the specification's, typed in here, not read from the code */
#if TS_SUPPORT_SHAKE
    add_real("shake_128f", &ts_ps_shake_128f_simple, FAM_SHAKE, 16, 33, 6, 66, 22);
#endif
#if TS_SUPPORT_SHAKE && TS_SUPPORT_S
    add_real("shake_128s", &ts_ps_shake_128s_simple, FAM_SHAKE, 16, 14, 12, 63, 7);
#endif
#if TS_SUPPORT_SHAKE && (TS_SUPPORT_L3 || TS_SUPPORT_L5)
    add_real("shake_192f", &ts_ps_shake_192f_simple, FAM_SHAKE, 24, 33, 8, 66, 22);
#if TS_SUPPORT_S
    add_real("shake_192s", &ts_ps_shake_192s_simple, FAM_SHAKE, 24, 17, 14, 63, 7);
#endif
#endif
#if TS_SUPPORT_SHAKE && TS_SUPPORT_L5
    add_real("shake_256f", &ts_ps_shake_256f_simple, FAM_SHAKE, 32, 35, 9, 68, 17);
#if TS_SUPPORT_S
    add_real("shake_256s", &ts_ps_shake_256s_simple, FAM_SHAKE, 32, 22, 14, 64, 8);
#endif
#endif
#if TS_SUPPORT_SHA2
    add_real("sha2_128f", &ts_ps_sha2_128f_simple, FAM_SHA2, 16, 33, 6, 66, 22);
#endif
#if TS_SUPPORT_SHA2 && TS_SUPPORT_S
    add_real("sha2_128s", &ts_ps_sha2_128s_simple, FAM_SHA2, 16, 14, 12, 63, 7);
#endif
#if TS_SUPPORT_SHA2 && (TS_SUPPORT_L3 || TS_SUPPORT_L5)
    add_real("sha2_192f", &ts_ps_sha2_192f_simple, FAM_SHA2, 24, 33, 8, 66, 22);
#if TS_SUPPORT_S
    add_real("sha2_192s", &ts_ps_sha2_192s_simple, FAM_SHA2, 24, 17, 14, 63, 7);
#endif
#endif
#if TS_SUPPORT_SHA2 && TS_SUPPORT_L5
    add_real("sha2_256f", &ts_ps_sha2_256f_simple, FAM_SHA2, 32, 35, 9, 68, 17);
#if TS_SUPPORT_S
    add_real("sha2_256s", &ts_ps_sha2_256s_simple, FAM_SHA2, 32, 22, 14, 64, 8);
#endif
#endif
    /* toy structures: the real call-backs, trees small enough to exhaust */
    add_toy("toy_shake_16", FAM_SHAKE, 16, 2, 2, 2, 2);
    add_toy("toy_shake_24", FAM_SHAKE, 24, 3, 1, 2, 1);
    add_toy("toy_shake_32", FAM_SHAKE, 32, 2, 2, 2, 1);
    add_toy("toy_sha2_16", FAM_SHA2, 16, 2, 2, 2, 2);
    add_toy("toy_sha2_24", FAM_SHA2, 24, 3, 1, 2, 1);
    add_toy("toy_sha2_32", FAM_SHA2, 32, 2, 2, 2, 1);
    /* abstract hash, small structures: names say n, k, t, d, mh, m = masked alphabet, x = digest forced by the message */
    add_abs("abs32_16_k2t2d2m2", 16, 2, 2, 2, 2, 0, 0);
    add_abs("abs22_16_k2t2d2m2", 16, 2, 2, 2, 2, 0, 1);
    add_abs("abs32_24_k3t1d3m1", 24, 3, 1, 3, 1, 0, 0);
    add_abs("abs22_32_k1t3d2m3", 32, 1, 3, 2, 3, 0, 1);
    add_abs("abs32_16_mask", 16, 2, 2, 2, 2, 1, 0);
    add_abs("abs22_24_mask", 24, 3, 2, 2, 1, 1, 1);
    add_abs("abs32_32_mask", 32, 2, 1, 2, 2, 1, 0);
    add_abs("abs32_16_force", 16, 2, 2, 2, 2, 2, 0);
    add_abs("abs22_24_force", 24, 3, 1, 3, 1, 2, 1);
    /* abstract hash on the published structures, digest forced */
    static const struct { const char *nm; int n, k, t, d, mh; } st[6] = {
        {"128f",16,33,6,22,3},{"128s",16,14,12,7,9},{"192f",24,33,8,22,3},{"192s",24,17,14,7,9},{"256f",32,35,9,17,4},{"256s",32,22,14,8,8} };
    for (int i = 0; i < 6; i++) for (int a = 0; a < 2; a++) {
        char nm[40]; snprintf(nm, sizeof nm, "abs%d_%s", a ? 22 : 32, st[i].nm);
        add_abs(nm, st[i].n, st[i].k, st[i].t, st[i].d, st[i].mh, 2, a);
    }
    static const struct { const char *nm; int n, k, t, d, mh, a; } ex[] = { {"ext32_16",16,1,1,20,1,0}, {"ext22_24",24,1,1,20,1,1}, {"ext32_32",32,1,1,20,1,0}, {"ext22_16",16,1,1,20,1,1}, {"ext32_24",24,1,1,20,1,0}, {"ext22_32",32,1,1,20,1,1},
        {"ext22_128f",16,33,6,22,3,1}, {"ext32_192f",24,33,8,22,3,0}, {"ext22_256f",32,35,9,17,4,1} };
    for (unsigned i = 0; i < sizeof ex / sizeof *ex; i++) if (mk_set(&EXTS[NEXTS], ex[i].nm, FAM_ABS, ex[i].n, ex[i].k, ex[i].t, ex[i].d, ex[i].mh, 4, ex[i].a)) NEXTS++;
    check_derived();
}
struct tset *set_by_name(const char *name) {
    for (int i = 0; i < NSETS; i++) if (!strcmp(SETS[i].name, name)) return &SETS[i];
    for (int i = 0; i < NTOYS; i++) if (!strcmp(TOYS[i].name, name)) return &TOYS[i];
    for (int i = 0; i < NABST; i++) if (!strcmp(ABST[i].name, name)) return &ABST[i];
    for (int i = 0; i < NEXTS; i++) if (!strcmp(EXTS[i].name, name)) return &EXTS[i];
    return 0;
}

/* ================================================================ reporting */
int tier_thorough; const char *JOB = "";
static struct { char k[32]; u64 v; } ST[64]; static int nst;
void stat_add(const char *key, u64 v) {
    static int last; if (last < nst && !strcmp(ST[last].k, key)) { ST[last].v += v; return; }
    for (int i = 0; i < nst; i++) if (!strcmp(ST[i].k, key)) { ST[i].v += v; last = i; return; }
    snprintf(ST[nst].k, 32, "%s", key); ST[nst].v = v; nst++;
}
static void flush_stats(void) { for (int i = 0; i < nst; i++) printf("S %s %llu\n", ST[i].k, (unsigned long long)ST[i].v); nst = 0; fflush(stdout); }
static int nsamples;
void sample(const char *fmt, ...) {
    if (nsamples++ >= 3) return;
    va_list ap; va_start(ap, fmt); printf("X "); vprintf(fmt, ap); printf("\n"); va_end(ap);
}
static const char *cf; static long ca, cb, cc, cd;
void cur(const char *fmt, long a, long b, long c, long d) { cf = fmt; ca = a; cb = b; cc = c; cd = d; }
static void printcur(FILE *f) { if (cf) { fprintf(f, cf, ca, cb, cc, cd); } else fprintf(f, "start"); }
void viol(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); printf("V "); vprintf(fmt, ap); printf(" [case: "); printcur(stdout); printf("]\n"); va_end(ap);
    flush_stats(); fflush(stdout); _exit(10);
}
void note_capped(const char *what) { printf("C %s\n", what); }
void job_line(const char *fmt, ...) { va_list ap; va_start(ap, fmt); printf("J "); vprintf(fmt, ap); printf("\n"); va_end(ap); }

static void onsig(int sig) {
    char b[512]; int n = snprintf(b, sizeof b, "\nH signal %d [case: ", sig);
    if (cf) n += snprintf(b + n, sizeof b - n, cf, ca, cb, cc, cd);
    n += snprintf(b + n, sizeof b - n, "]\n");
    fflush(stdout); if (write(1, b, n)) {} _exit(sig == SIGALRM ? 12 : 11);
}
#if defined(__SANITIZE_ADDRESS__)
#define HAVE_ASAN 1
#endif
const char *__asan_default_options(void);
const char *__asan_default_options(void) { return "exitcode=13:detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=0"; }
const char *__ubsan_default_options(void);
const char *__ubsan_default_options(void) { return "print_stacktrace=1:halt_on_error=1"; }
static void setup_signals(void) {
    static char alt[65536]; stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt }; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
#ifndef HAVE_ASAN
    int s[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM };
#else
    int s[] = { SIGALRM };
#endif
    for (unsigned i = 0; i < sizeof s / sizeof *s; i++) sigaction(s[i], &sa, 0);
}

/* ================================================================ buffers */
static size_t pg(size_t len) { return (len + 4095) / 4096 * 4096 + (len == 0 ? 4096 : 0); }
u8 *gbuf(size_t len, int tail) {
    size_t m = pg(len);
    u8 *p = mmap(0, m + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    mprotect(p, 4096, PROT_NONE); mprotect(p + 4096 + m, 4096, PROT_NONE);
    return tail ? p + 4096 + m - len : p + 4096;
}
void gfree(u8 *p, size_t len, int tail) { size_t m = pg(len); u8 *b = tail ? p + len - m - 4096 : p - 4096; munmap(b, m + 8192); }
void fill(u8 *p, size_t len, u64 x) {
    x = x * 0x9E3779B97F4A7C15ULL + 0x1234567;
    for (size_t i = 0; i < len; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; p[i] = (u8)(x >> 24); }
}
u64 hash64(const void *v, size_t len, u64 h) {
    const u8 *p = v; h ^= len * 0x9E3779B97F4A7C15ULL;
    while (len >= 8) { u64 w; memcpy(&w, p, 8); h = (h ^ w) * 0x9FB21C651E98DF25ULL; h ^= h >> 35; p += 8; len -= 8; }
    u64 w = 0; memcpy(&w, p, len); h = (h ^ w) * 0x9FB21C651E98DF25ULL; h ^= h >> 32; h *= 0xD6E8FEB86659FD93ULL; return h ^ h >> 29;
}
char *hex(const void *v, size_t len) {
    static char b[4][260]; static int i; char *o = b[i++ & 3]; const u8 *p = v; if (len > 120) len = 120;
    for (size_t j = 0; j < len; j++) sprintf(o + 2 * j, "%02x", p[j]);
    o[2 * len] = 0; return o;
}
u8 RNG_bytes[256]; size_t RNG_pos; int RNG_calls;
int rng_fixed(unsigned char *p, size_t n) {
    RNG_calls++; for (size_t i = 0; i < n; i++) p[i] = RNG_bytes[(RNG_pos + i) % sizeof RNG_bytes];
    RNG_pos += n; return 1;
}
int rng_fail(unsigned char *p, size_t n) { RNG_calls++; memset(p, 0xEE, n); return 0; }

/* ================================================================ library static data */
size_t lib_static_size(void) { return (size_t)(ts_lib_data_end - ts_lib_data_begin) + (size_t)(ts_lib_bss_end - ts_lib_bss_begin); }
void lib_static_save(u8 *o) {
    size_t a = ts_lib_data_end - ts_lib_data_begin, b = ts_lib_bss_end - ts_lib_bss_begin;
    memcpy(o, ts_lib_data_begin, a); memcpy(o + a, ts_lib_bss_begin, b);
}
void lib_static_load(const u8 *i) {
    size_t a = ts_lib_data_end - ts_lib_data_begin, b = ts_lib_bss_end - ts_lib_bss_begin;
    memcpy(ts_lib_data_begin, i, a); memcpy(ts_lib_bss_begin, i + a, b);
}

/* ================================================================ contexts */
struct ts_context *CTX;
void key_for(const struct tset *s, u64 seed, u8 *sk) { u8 b[96]; fill(b, 3 * s->r.n, seed); ref_keygen(&s->r, b, sk); }
void impl_sign_all(const struct tset *s, struct ts_context *c, const u8 *sk, const void *msg, size_t len, const u8 *optrand, u8 *sig) {
    unsigned L = ref_sig_len(&s->r), got;
    if (optrand) { memcpy(RNG_bytes, optrand, s->r.n); RNG_pos = 0; }
    ts_init_sign(c, msg, len, s->ps, sk, optrand ? rng_fixed : 0);
    got = ts_sign(sig, L, c);
    if (got != L) viol("%s: ts_sign(%u) for the whole signature returned %u", s->name, L, got);
}
int impl_verify_all(const struct tset *s, struct ts_context *c, const u8 *pk, const void *msg, size_t len, const u8 *sig, size_t siglen) {
    ts_init_verify(c, msg, len, s->ps, pk);
    if (siglen) ts_update_verify(sig, siglen, c);
    return ts_verify(c);
}
int seen_add(struct seen *s, u64 a, u64 b) {
    if (!a && !b) a = 1;
    if (2 * (s->n + 1) > s->cap) {
        struct seen o = *s; s->cap = o.cap ? 2 * o.cap : 1024; s->k = calloc(2 * s->cap, 8); s->n = 0;
        for (size_t i = 0; i < o.cap; i++) if (o.k[2*i] || o.k[2*i+1]) seen_add(s, o.k[2*i], o.k[2*i+1]);
        free(o.k);
    }
    size_t i = (a ^ b * 31) & (s->cap - 1);
    while (s->k[2*i] || s->k[2*i+1]) { if (s->k[2*i] == a && s->k[2*i+1] == b) return 0; i = (i + 1) & (s->cap - 1); }
    s->k[2*i] = a; s->k[2*i+1] = b; s->n++; return 1;
}
void seen_free(struct seen *s) { free(s->k); memset(s, 0, sizeof *s); }

#ifndef NO_MAIN
int main(int argc, char **argv) {
    const char *job = 0;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--thorough")) tier_thorough = 1;
        else if (!strcmp(argv[i], "--list")) job = "--list";
        else job = argv[i];
    }
    setvbuf(stdout, 0, _IOFBF, 1 << 16);
    sets_init();
    if (!job) return 2;
    if (!strcmp(job, "--list")) { list_jobs(); fflush(stdout); return 0; }
    setup_signals();
    CTX = (struct ts_context *)gbuf(sizeof *CTX, 1);   /* sizeof is a multiple of the alignment */
#ifndef EMU
    if (derived_dropped) note_capped("sets derived from the internal structures do not fit this tree; published sets only for those classes");
#endif
    JOB = job; run_job(job); flush_stats(); printf("OK\n"); fflush(stdout);
    return 0;
}
#endif
