/*
 * C19: caller buffers are consulted only while the documentation says so.  Every buffer that may be released is
 * made inaccessible the moment the call returns; runs over all piece sizes and all two-piece splits.
 */
#include "common.h"
static struct tset *S; static int n, L; static u64 cnt, calls; static struct seen outs;
static int armed; static u8 opt[32];
static int rng(unsigned char *p, size_t k) { if (!armed) viol("%s: the random function is used after the call it was passed to", S->name); for (size_t i = 0; i < k; i++) p[i] = opt[i % 32]; return 1; }
static u8 *pool; static size_t poolsz; static unsigned slot;
/* a fresh page-aligned region per call out of a ring; the region is inaccessible outside its own call */
static u8 *get(size_t len) { size_t m = (len + 4095) / 4096 * 4096 + 4096; if ((slot + 0) * 4096ul + m > poolsz) slot = 0; u8 *b = pool + slot * 4096ul; slot += m / 4096; mprotect(b, m - 4096, PROT_READ | PROT_WRITE); return b + (m - 4096) - len; }
static void put(u8 *p, size_t len) { size_t m = (len + 4095) / 4096 * 4096; u8 *b = p + len - m; memset(p, 0xDB, len); if (m) mprotect(b, m, PROT_NONE); }
static u8 *sk, *pk, *exp_, *out;
static void sign_run(const unsigned *seq, int ns, unsigned tail, size_t len, int withrng) {
    u8 *m = get(len); fill(m, len, 4); cnt++; cur("signing, pieces of %ld (first %ld), message length %ld", tail, ns ? seq[0] : tail, len, 0);
    armed = 1; memset(CTX, 0xC6, sizeof *CTX); ts_init_sign(CTX, m, len, S->ps, sk, withrng ? rng : 0); armed = 0; calls++;
    put(m, len);                                                  /* the message is gone */
    for (unsigned p = 0, q = 0; p < (unsigned)L; q++) {
        unsigned k = (int)q < ns ? seq[q] : tail, want = k < L - p ? k : L - p; u8 *d = get(want); calls++;
        unsigned got = ts_sign(d, k, CTX); if (got != want) viol("%s: signing with released buffers stops at %u", S->name, p);
        memcpy(out + p, d, got); put(d, want); p += got; if (!k && q > 50000) break;
    }
    if (memcmp(out, exp_, L)) { int q = 0; while (out[q] == exp_[q]) q++; viol("%s: after releasing buffers the signature differs at byte %d (pieces of %u, message length %zu)", S->name, q, tail, len); }
    u8 *d = get(4); calls++; if (ts_sign(d, 4, CTX)) viol("%s: bytes after the end", S->name); put(d, 4);
    seen_add(&outs, hash64(CTX, sizeof *CTX, 1), tail);
}
static void verify_run(const unsigned *seq, int ns, unsigned tail, size_t len, int good) {
    u8 *m = get(len); fill(m, len, 4); cnt++; cur("verifying, pieces of %ld (first %ld), message length %ld, genuine %ld", tail, ns ? seq[0] : tail, len, good);
    memset(CTX, 0x6C, sizeof *CTX); ts_init_verify(CTX, m, len, S->ps, pk); calls++;
    mprotect((u8 *)((size_t)m & ~4095ul), 4096, PROT_READ);      /* still consulted, never written */
    for (unsigned p = 0, q = 0; p < (unsigned)L; q++) {
        unsigned k = (int)q < ns ? seq[q] : tail; if (k > L - p) k = L - p; u8 *d = get(k); memcpy(d, exp_ + p, k);
        if (!good && p + k == (unsigned)L && k) d[k - 1] ^= 1;
        calls++; int r = ts_update_verify(d, k, CTX); put(d, k);
        if (good && r != 1) viol("%s: verification with released buffers: piece at %u reported as %d", S->name, p, r);
        p += k;
    }
    calls++; if (ts_verify(CTX) != good) viol("%s: verification with released chunk buffers: verdict %d (pieces of %u, message length %zu)", S->name, !good, tail, len);
    mprotect((u8 *)((size_t)m & ~4095ul), 4096, PROT_READ | PROT_WRITE); put(m, len);
    seen_add(&outs, hash64(CTX, sizeof *CTX, 1), tail);
}
void list_jobs(void) {
    for (int i = 0; i < NTOYS; i++) for (int q = 0; q < 2; q++) job_line("%s:%s:0 20", q ? "v" : "s", TOYS[i].name);
    for (int i = 0; i < NABST; i++) for (int q = 0; q < 2; q++) job_line("%s:%s:0 %d", q ? "v" : "s", ABST[i].name, 10);
    for (int i = 0; i < NSETS; i++) for (int q = 0; q < 2; q++) if (q || SETS[i].r.mh <= 6 || tier_thorough || SETS[i].r.n == 16) job_line("%s:%s:0 %d", q ? "v" : "s", SETS[i].name, SETS[i].r.mh > 6 ? 40 : 20);
}
void run_job(const char *job) {
    char kind[16], name[40]; int part; if (sscanf(job, "%15[^:]:%39[^:]:%d", kind, name, &part) != 3) exit(3);
    S = set_by_name(name); if (!S) exit(3); n = S->r.n; L = ref_sig_len(&S->r); int sign = *kind == 's', real = S->r.d >= 7;
    poolsz = 256ul << 20; pool = mmap(0, poolsz, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    sk = gbuf(4 * n, 1); pk = gbuf(2 * n, 1); exp_ = malloc(L); out = malloc(L); key_for(S, 71, sk); memcpy(pk, sk + 2 * n, 2 * n); fill(opt, 32, 9);
    mprotect((u8 *)((size_t)pk & ~4095ul), 4096, PROT_READ); mprotect((u8 *)((size_t)sk & ~4095ul), 4096, PROT_READ);
    u8 msg[600]; static const size_t ml[] = { 40, 0, 1, 300 };
    for (int w = 0; w < (S->real && !tier_thorough ? 1 : 4); w++) {
        size_t len = ml[w]; fill(msg, len, 4); 
        if (S->real && S->r.mh > 6) impl_sign_all(S, CTX, sk, msg, len, opt, exp_); else ref_sign(&S->r, sk, opt, msg, len, exp_);
        unsigned lim = real ? 0 : w ? 3 : (unsigned)(2 * n + 3);
        for (unsigned k = 1; k <= lim; k++) { if (sign) sign_run(0, 0, k, len, 1); else { verify_run(0, 0, k, len, 1); verify_run(0, 0, k, len, 0); } }
        unsigned some[] = { (unsigned)n, (unsigned)n + 1, 7 * (unsigned)n - 1, (unsigned)L, (unsigned)L + 9, 5 };
        for (int i = 0; i < (S->real && sign ? (S->r.mh > 6 ? 1 : 2) : real ? 5 : 6); i++) { unsigned k = some[S->real && sign && i ? 3 : i]; if (S->real && sign && !i) k = n + 1; if (sign) sign_run(0, 0, k, len, 1); else { verify_run(0, 0, k, len, 1); verify_run(0, 0, k, len, 0); } }
        /* every two-piece split */
        if (!w && !S->real) for (unsigned c = 0; c <= (unsigned)L; c += real ? (tier_thorough ? n : 41 * n - 1) : S->r.fam == FAM_ABS || tier_thorough ? 1 : sign ? n / 2 + 1 : 3) { unsigned sq[1] = { c }; if (sign) sign_run(sq, 1, L, len, 1); else verify_run(sq, 1, L, len, 1); }
    }
    if (sign && !S->real) { fill(msg, 40, 4); ref_sign(&S->r, sk, 0, msg, 40, exp_); sign_run(0, 0, n + 1, 40, 0); }
    STATES(outs.n); TRANS(calls); EXECS(cnt);
    sample("%s %s: %llu runs, %llu calls, every buffer inaccessible after its call", sign ? "signing" : "verifying", S->name, (unsigned long long)cnt, (unsigned long long)calls);
}
