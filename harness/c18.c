/*
 * C18: RAM.  Operations run on a dedicated painted stack, with the context on it as a caller would have it; the figure is
 * everything below the caller's frame (context included).  Built in the minimal configuration of one parameter set.
 *   real:  the published set itself, against 1.25 times the published table
 *   toy:   the set's call-backs and n on small trees: every message length, content and chunk size; peaks must not differ
 *   shape: abstract hash, published structure against the small structure: the trees' height costs no stack
 * With -DMON: no store of the library goes anywhere but the stack and the buffers handed over.
 */
#include "common.h"
#include "stk.h"
#include <stdint.h>
#ifndef VPSET
#error VPSET
#endif
static const struct { const char *nm; unsigned ctx, gen, sig, ver; } TABLE[] = {      /* as published in ramspace.out */
    { "sha2_128f", 472, 976, 1024, 992 }, { "sha2_128s", 568, 1072, 1120, 1088 }, { "sha2_192f", 768, 1296, 1456, 1408 }, { "sha2_192s", 912, 1440, 1600, 1552 },
    { "sha2_256f", 872, 1408, 1568, 1536 }, { "sha2_256s", 1032, 1568, 1728, 1696 }, { "shake_128f", 672, 1104, 1120, 928 }, { "shake_128s", 768, 1200, 1216, 1024 },
    { "shake_192f", 776, 1216, 1232, 1040 }, { "shake_192s", 920, 1360, 1376, 1184 }, { "shake_256f", 880, 1312, 1328, 1136 }, { "shake_256s", 1040, 1472, 1488, 1296 } };
static struct tset *R0; static int watching; static u64 heapcalls, ops, calls; static struct seen outs;
#define HEAP(name, ret, par, arg) ret __real_##name par; ret __wrap_##name par; ret __wrap_##name par { if (watching) heapcalls++; return __real_##name arg; }
HEAP(malloc, void *, (size_t a), (a)) HEAP(calloc, void *, (size_t a, size_t b), (a, b)) HEAP(realloc, void *, (void *p, size_t a), (p, a)) HEAP(aligned_alloc, void *, (size_t a, size_t b), (a, b))
HEAP(posix_memalign, int, (void **p, size_t a, size_t b), (p, a, b)) HEAP(mmap, void *, (void *p, size_t a, int b, int c, int d, off_t e), (p, a, b, c, d, e)) HEAP(sbrk, void *, (intptr_t a), (a)) HEAP(strdup, char *, (const char *a), (a))
/* one operation */
enum { GEN, SIGN, VERIFY }; static const char *ON[] = { "key generation", "signing", "verification" };
static struct { struct tset *s; int op; const u8 *msg; size_t len; unsigned chunk, limit; const u8 *sig; u8 *out; int result, over; u8 *top; struct ts_context *ctx; unsigned char *pk; } O;
static u8 *sk, *pkb, seed[96]; static unsigned MAXL;
static int rng(unsigned char *p, size_t k) { for (size_t i = 0; i < k; i++) p[i] = seed[i % 96]; return 1; }
static unsigned *curve; static unsigned ncurve; static void mark(unsigned pos);
#ifdef MON
extern void (*vpmon_hook)(uintptr_t, size_t, int); static u64 stores;
static void hook(uintptr_t a, size_t k, int w) {
    if (!w || !watching) return; stores++; u8 *p = (u8 *)a; int n = O.s->r.n;
    if (p >= stk_mem && p + k <= stk_mem + STK_SIZE) return;                                   /* stack, context included */
    if (O.op == SIGN && p >= O.out && p + k <= O.out + MAXL) return;
    if (O.op == GEN && ((p >= sk && p + k <= sk + 4 * n) || (p >= pkb && p + k <= pkb + 2 * n))) return;
    if (p >= (u8 *)seed && p < (u8 *)seed + 96) return;
    watching = 0; int st = (p >= (u8 *)ts_lib_data_begin && p < (u8 *)ts_lib_data_end) || (p >= (u8 *)ts_lib_bss_begin && p < (u8 *)ts_lib_bss_end);
    viol("%s: %s stores %zu bytes to %s", O.s->name, ON[O.op], k, st ? "static storage of the package" : "memory that is neither stack, context nor an output buffer");
}
#endif
static void __attribute__((noinline)) body(void *unused) {
    struct ts_context c; (void)unused; u8 *f = (u8 *)__builtin_frame_address(0); O.top = f; O.ctx = &c; int n = O.s->r.n; (void)n;
    if (O.op == GEN) { watching = 1; O.result = ts_gen_key(sk, pkb, O.s->ps, rng); watching = 0; O.ctx = 0; calls++; return; }
    if (O.op == SIGN) { watching = 1; ts_init_sign(&c, O.msg, O.len, O.s->ps, sk, rng); watching = 0; mark(0);
        unsigned p = 0; while (p < O.limit) { watching = 1; unsigned r = ts_sign(O.out + p, O.over || O.chunk < O.limit - p ? O.chunk : O.limit - p, &c); watching = 0; calls++; if (!r) break; p += r; mark(p); } O.result = p == O.limit; return; }
    watching = 1; ts_init_verify(&c, O.msg, O.len, O.s->ps, O.pk); watching = 0; mark(0);
    for (unsigned p = 0; p < O.limit; p += O.chunk) { unsigned k = O.chunk < O.limit - p ? O.chunk : O.limit - p; watching = 1; ts_update_verify(O.sig + p, k, &c); watching = 0; calls++; mark(p + k); }
    watching = 1; O.result = ts_verify(&c); watching = 0;
}
/* lowest touched byte, from two paintings */
static unsigned lowest(unsigned pat) { unsigned i = 0; while (i < STK_SIZE && stk_mem[i] == pat) i++; return i; }
static unsigned curpat, runmax; static int tracking;
static void mark(unsigned pos) { if (!tracking) return; unsigned l = lowest(curpat), d = O.top - (stk_mem + l); if (d > runmax) runmax = d; if (ncurve < MAXL + 8) { curve[2 * ncurve] = pos; curve[2 * ncurve++ + 1] = d; } memset(stk_mem, curpat, l < 64 ? 0 : (size_t)((u8 *)&l - stk_mem) - 512); }
static unsigned measure(int op, struct tset *s, const u8 *msg, size_t len, unsigned chunk, unsigned limit, const u8 *sg, u8 *out, const char *what) {
    unsigned best = 0; size_t ss = lib_static_size(); static u8 *st0, *st1; if (!st0) { st0 = malloc(ss + 1); st1 = malloc(ss + 1); }
    O.s = s; O.op = op; O.msg = msg; O.len = len; O.chunk = chunk; O.limit = limit; O.sig = sg; O.out = out; O.pk = sk + 2 * s->r.n;
    for (int v = 0; v < 2; v++) {
        curpat = v ? 0x78 : 0xA9; stk_paint(curpat); runmax = 0; lib_static_save(st0); heapcalls = 0; cur("%ld, message %ld bytes, pieces of %ld", op, len, chunk, 0); stk_run(body, 0); ops++; lib_static_save(st1);
        if (heapcalls) viol("%s: %s (%s) called the heap allocator %llu times", s->name, ON[op], what, (unsigned long long)heapcalls);
        if (memcmp(st0, st1, ss)) viol("%s: %s (%s) changed static storage of the package", s->name, ON[op], what);
        if (!O.result) viol("%s: %s (%s) fails", s->name, ON[op], what);
        unsigned d = O.top - (stk_mem + lowest(curpat)); if (runmax > d) d = runmax; if (d > best) best = d;
    }
    return best;
}
#define SLACK 160     /* call paths differ by a few stack frames (80 bytes observed: absorbing a long message); more is growth */
static void spread(const char *nm, int op, unsigned lo, unsigned hi, const char *w) { if (hi > lo + SLACK) viol("%s: the RAM used by %s depends on %s: between %u and %u bytes", nm, ON[op], w, lo, hi); }
/* how much more stack than at other places of the same kind does the signature need at one place */
static void progress(struct tset *s, int op) {
    unsigned n = s->r.n, L = ref_sig_len(&s->r), ft = s->r.t + 1, lay = 2 * n + 3 + s->r.mh; (void)L; unsigned lo[2] = { ~0u, ~0u }, hi[2] = { 0, 0 };
    unsigned nb = s->r.k + s->r.d, *pk = calloc(nb, sizeof *pk);
    for (unsigned i = 0; i < ncurve; i++) { unsigned e = curve[2 * i] / n; if (e < 1 || curve[2 * i] % n) continue; e--; unsigned b = e == 0 ? 0 : e <= s->r.k * ft ? (e - 1) / ft : s->r.k + (e - 1 - s->r.k * ft) / lay; if (b < nb && curve[2 * i + 1] > pk[b]) pk[b] = curve[2 * i + 1]; }
    /* the first tree and the last layer also carry the start and the end of the operation */
    for (unsigned b = 1; b + 1 < nb; b++) { int q = b >= (unsigned)s->r.k; if (b == (unsigned)s->r.k) continue; if (!pk[b]) continue; if (pk[b] < lo[q]) lo[q] = pk[b]; if (pk[b] > hi[q]) hi[q] = pk[b]; }
    for (int q = 0; q < 2; q++) if (hi[q]) spread(s->name, op, lo[q], hi[q], q ? "the hypertree layer reached" : "the FORS tree reached");
    free(pk);
}
static void bound(const char *what, unsigned got, unsigned pub) { if (4 * got > 5 * pub) viol("%s: %s needs %u bytes of RAM, the published figure is %u (more than 25%% above)", VPSET, what, got, pub); }
static struct tset *toy(void) { static char nm[40]; snprintf(nm, sizeof nm, "toy_%s_%d", R0->r.fam == FAM_SHA2 ? "sha2" : "shake", R0->r.n); return set_by_name(nm); }
#define R_F (VPSET[sizeof VPSET - 2] == 'f')
void list_jobs(void) {
#ifdef MON
    job_line("mon:0 5");
#else
    #ifdef C20
    job_line("figures:0 1"); return;
#endif
    job_line("real:0 50"); if (derived_dropped) return; job_line("toy:0 10"); if (tier_thorough || R_F) job_line("toy:1 10"); job_line("shape:0 %d", 20);
#endif
}
void run_job(const char *job) {
    char kind[16]; int part; if (sscanf(job, "%15[^:]:%d", kind, &part) != 2) exit(3); R0 = set_by_name(VPSET); if (!R0) exit(3);
    unsigned ti = 0; while (strcmp(TABLE[ti].nm, VPSET)) ti++; int n = R0->r.n; sk = gbuf(4 * n, 1); pkb = gbuf(2 * n, 1); fill(seed, 96, 4); stk_paint(0);
    struct tset *T = toy(); if (!T) T = R0; static struct tset At, Ar; int a22 = R0->r.fam == FAM_SHA2;
    if (derived_dropped) { } else if (!mk_set(&At, "abs_small", FAM_ABS, n, 2, 2, 2, 2, 2, a22) || !mk_set(&Ar, "abs_published", FAM_ABS, n, R0->r.k, R0->r.t, R0->r.d, R0->r.mh, 2, a22)) exit(3);
    MAXL = ref_sig_len(&R0->r); u8 *sig = gbuf(MAXL, 1), *out = gbuf(MAXL, 1), msg[1000]; fill(msg, sizeof msg, 9); unsigned L;
    curve = calloc(2 * (MAXL + 9), sizeof *curve); printf("%s", "");
#ifdef MON
    vpmon_hook = hook;
    key_for(T, 3, sk); L = ref_sig_len(&T->r); int ls[] = { 0, 1, 63, 64, 200, 700 };
    if (T == R0 && R0->r.mh > 6) {      /* no small trees here: a part of the signature, and a whole verification */
        ref_sign(&R0->r, sk, seed, msg, 33, sig); unsigned part_ = n * (2 + 2 * (R0->r.t + 1));
        for (int c = 0; c < 2; c++) { measure(SIGN, R0, msg, 33, c ? 7 * n : n - 1, part_, 0, out, "instrumented"); measure(VERIFY, R0, msg, 33, c ? MAXL : n - 1, MAXL, sig, 0, "instrumented"); seen_add(&outs, hash64(out, part_, 1), c); }
    } else
    for (int l = 0; l < (T == R0 ? 2 : 6); l++) for (unsigned c = T == R0 ? 2 : 0; c < 5; c++) { unsigned ch[] = { 1, n - 1, n, 3 * n + 1, L }; key_for(T, 3, sk); measure(SIGN, T, msg, ls[l], ch[c], L, 0, out, "instrumented"); seen_add(&outs, hash64(out, L, 1), c + 1); measure(VERIFY, T, msg, ls[l], ch[c], L, out, 0, "instrumented"); measure(GEN, T, 0, 0, 0, 0, 0, 0, "instrumented"); }
    if (R0->r.mh <= 6) { key_for(R0, 3, sk); measure(SIGN, R0, msg, 33, 77, 3000, 0, out, "instrumented, first 3000 bytes"); measure(GEN, R0, 0, 0, 0, 0, 0, 0, "instrumented"); }
    STATES(outs.n); TRANS(calls); EXECS(ops); stat_add("stores_checked", stores); sample("%s: %llu stores of the library, all on the stack, in the context or in output buffers", VPSET, (unsigned long long)stores); return;
#endif
    if (sizeof(struct ts_context) * 4 > TABLE[ti].ctx * 5) viol("%s: the context has %zu bytes, the published figure is %u", VPSET, sizeof(struct ts_context), TABLE[ti].ctx);
    if (!strcmp(kind, "figures")) {   /* what the RAM report tool ought to find, for C20 */
        unsigned Lt = ref_sig_len(&T->r); memcpy(msg, "abc", 3); unsigned g = measure(GEN, T, 0, 0, 0, 0, 0, 0, "figures") - sizeof(struct ts_context); key_for(T, 3, sk); unsigned a = measure(SIGN, T, msg, 3, 1, Lt, 0, out, "figures"), b = measure(VERIFY, T, msg, 3, Lt, Lt, out, 0, "figures");
        printf("X F %zu %u %u %u\n", sizeof(struct ts_context), g, a, b); return;
    }
    /* composite figure for the published set: measured on small trees, plus what the published tree heights add */
    if (!strcmp(kind, "real")) {
        unsigned g = measure(GEN, R0, 0, 0, 0, 0, 0, 0, "published set"); unsigned L = MAXL, lim = R0->r.mh > 6 && !tier_thorough ? n * (2 + R0->r.t) + 1 : L;
        if (!(R0->r.fam == FAM_SHAKE && R0->r.mh > 6)) { } unsigned s, v;
        tracking = lim == L; ncurve = 0; s = measure(SIGN, R0, msg, 3, 33, lim, 0, out, "published set"); tracking = 0; bound("signing", s, TABLE[ti].sig);
        if (lim == L) { unsigned s2 = measure(SIGN, R0, msg, 3, L, L, 0, out, "published set, one request"), s3 = measure(SIGN, R0, msg, 3, 5000, L, 0, out, "published set, requests of 5000"); unsigned l2 = s2 < s3 ? s2 : s3, h2 = s2 < s3 ? s3 : s2; spread(R0->name, SIGN, s < l2 ? s : l2, s > h2 ? s : h2, "the piece size"); }
        else if (tier_thorough == 0) { unsigned s2 = measure(SIGN, R0, msg, 3, lim, lim, 0, out, "published set, one request"); spread(R0->name, SIGN, s < s2 ? s : s2, s < s2 ? s2 : s, "the piece size"); }
        key_for(R0, 3, sk); ref_sign(&R0->r, sk, seed, msg, 3, sig); v = measure(VERIFY, R0, msg, 3, L, L, sig, 0, "published set"); unsigned v2 = measure(VERIFY, R0, msg, 3, 1, L, sig, 0, "published set"); spread(R0->name, VERIFY, v < v2 ? v : v2, v < v2 ? v2 : v, "the piece size");
        /* key generation has its own context inside, the harness's own is not used */
        g -= sizeof(struct ts_context) < g ? sizeof(struct ts_context) : 0; bound("key generation", g, TABLE[ti].gen); bound("verification", v, TABLE[ti].ver);
        STATES(4); TRANS(calls); EXECS(ops); sample("%s: context %zu (published %u), key generation %u (%u), signing %u (%u)%s, verification %u (%u)", VPSET, sizeof(struct ts_context), TABLE[ti].ctx, g, TABLE[ti].gen, s, TABLE[ti].sig, lim < L ? " up to the first FORS tree" : "", v, TABLE[ti].ver);
    } else if (!strcmp(kind, "toy")) {
        /* every message length, several contents, every chunk size: one peak */
        struct tset *s = T; L = ref_sig_len(&s->r); unsigned lo[3] = { ~0u, ~0u, ~0u }, hi[3] = { 0 }; int N = 300; u64 c = 0;
        for (int l = part; l <= N; l += tier_thorough ? 2 : 5) for (int f = 0; f < 2; f++) { if (f) memset(msg, l % 3 ? 0xff : 0, sizeof msg); else fill(msg, sizeof msg, l); key_for(s, 1 + l % 5, sk); unsigned ch = l % 4 == 0 ? L : 1 + (l * 7) % L; c++;
            unsigned a = measure(SIGN, s, msg, l, ch, L, 0, out, "small trees"); seen_add(&outs, hash64(out, L, 1), 1); unsigned b = measure(VERIFY, s, msg, l, 1 + (l * 5) % L, L, out, 0, "small trees"); unsigned d[2] = { a, b };
            for (int q = 0; q < 2; q++) { if (d[q] < lo[q]) lo[q] = d[q]; if (d[q] > hi[q]) hi[q] = d[q]; } }
        for (int q = 0; q < 2; q++) spread(s->name, q ? VERIFY : SIGN, lo[q], hi[q], "the message or its length");
        for (unsigned ch = 1 + part; ch <= L; ch += tier_thorough ? 2 : ch < 3u * n ? 4 : 62) { unsigned a = measure(SIGN, s, msg, 77, ch, L, 0, out, "small trees"), b = measure(VERIFY, s, msg, 77, ch, L, out, 0, "small trees"); unsigned d[2] = { a, b }; c++; for (int q = 0; q < 2; q++) { if (d[q] < lo[q]) lo[q] = d[q]; if (d[q] > hi[q]) hi[q] = d[q]; } }
        /* requests far larger than the signature, and long messages */
        static const unsigned big[] = { 1, 100, 3000, 4096, 8192, 16384, 20001, 32768, 65535, 65536, 100000, 1u << 24, 0x7fffffff, 0xffffffff };
        O.over = 1; for (unsigned i = 0; i < sizeof big / sizeof *big; i++) { unsigned a = measure(SIGN, s, msg, 77, big[i] < L ? L : big[i], L, 0, out, "small trees, a request beyond the end"); c++; if (a < lo[0]) lo[0] = a; if (a > hi[0]) hi[0] = a; } O.over = 0;
        for (int q = 0; q < 2; q++) spread(s->name, q ? VERIFY : SIGN, lo[q], hi[q], "the piece size");
        u8 *lm = malloc(1 << 20); fill(lm, 1 << 20, 7); static const unsigned ml[] = { 1000, 2000, 4095, 4096, 5000, 8192, 10000, 16384, 32768, 65535, 65536, 100000, 1 << 20 };
        for (unsigned i = 0; i < sizeof ml / sizeof *ml; i++) { unsigned a = measure(SIGN, s, lm, ml[i], L, L, 0, out, "small trees, long message"), b = measure(VERIFY, s, lm, ml[i], L, L, out, 0, "small trees, long message"); unsigned d[2] = { a, b }; c++; for (int q = 0; q < 2; q++) { if (d[q] < lo[q]) lo[q] = d[q]; if (d[q] > hi[q]) hi[q] = d[q]; } } free(lm);
        for (int q = 0; q < 2; q++) spread(s->name, q ? VERIFY : SIGN, lo[q], hi[q], "the message or its length");
        for (int op = SIGN; op <= VERIFY; op++) { tracking = 1; ncurve = 0; measure(op, s, msg, 77, n, L, out, out, "small trees, progress"); tracking = 0; progress(s, op); }
        key_for(s, 2, sk); for (int g = 0; g < 40; g++) { fill(seed, 96, g); unsigned a = measure(GEN, s, 0, 0, 0, 0, 0, 0, "small trees"); if (a < lo[2]) lo[2] = a; if (a > hi[2]) hi[2] = a; } spread(s->name, GEN, lo[2], hi[2], "the seed");
        unsigned x0 = measure(SIGN, &At, msg, 64, n, ref_sig_len(&At.r), 0, out, "abstract"), limS = R0->r.mh > 6 ? n * (2 + R0->r.t) + 1 : MAXL; unsigned x1 = measure(SIGN, &Ar, msg, 64, MAXL, limS, 0, out, "abstract"); unsigned add = x1 > x0 ? x1 - x0 : 0; bound("signing (small trees, plus what the published heights add)", hi[0] + add, TABLE[ti].sig); bound("verification (small trees)", hi[1], TABLE[ti].ver);
        STATES(outs.n); TRANS(calls); EXECS(ops); stat_add("peak_ram_cases", c); sample("%s: %llu messages/piece sizes: signing %u..%u bytes, verification %u..%u, key generation %u..%u (harness context included)", s->name, (unsigned long long)c, lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]);
    } else {
        /* abstract hash on the published trees: whole operation, every piece start of one element marked */
        struct tset *s = &Ar; L = MAXL; key_for(s, 5, sk); fill(msg, 64, 3); tracking = 1; ncurve = 0; unsigned a = measure(SIGN, s, msg, 64, n, L, 0, out, "abstract, published trees"); progress(s, SIGN); ncurve = 0; unsigned b = measure(VERIFY, s, msg, 64, n, L, out, 0, "abstract, published trees"); progress(s, VERIFY); tracking = 0;
        unsigned g = measure(GEN, s, 0, 0, 0, 0, 0, 0, "abstract"); key_for(&At, 5, sk); unsigned L2 = ref_sig_len(&At.r); unsigned a0 = measure(SIGN, &At, msg, 64, n, L2, 0, out, "abstract, small trees"), b0 = measure(VERIFY, &At, msg, 64, n, L2, out, 0, "abstract, small trees"), g0 = measure(GEN, &At, 0, 0, 0, 0, 0, 0, "abstract");
        STATES(ncurve); TRANS(calls); EXECS(ops); sample("abstract hash, published trees of %s: signing %u (small trees %u), verification %u (%u), key generation %u (%u)", VPSET, a, a0, b, b0, g, g0);
        struct tset *T2 = T; L = ref_sig_len(&T2->r); key_for(T2, 1, sk); unsigned r = measure(SIGN, T2, msg, 64, n, L, 0, out, "small trees"); measure(VERIFY, T2, msg, 64, n, L, out, 0, "small trees"); bound("signing (small trees, plus what the published trees add)", r + (a > a0 ? a - a0 : 0), TABLE[ti].sig); unsigned rg = measure(GEN, T2, 0, 0, 0, 0, 0, 0, "small trees") - sizeof(struct ts_context); bound("key generation (small trees, plus what the published trees add)", rg + (g > g0 ? g - g0 : 0), TABLE[ti].gen);
    }
}
