/* C15: message lengths: the randomizer, the signed position and the verifier's position are functions of the entire message */
#include "common.h"
#include <sys/syscall.h>
#include "c15_long.h"
static struct tset *S; static int n; static unsigned L; static u64 calls, runs; static u8 *sk, R0[32]; static struct seen outs;
/* real sets: R and the first FORS secret (it depends on the whole hypertree position and on the first FORS index) */
static void head(const u8 *m, size_t len, int rnd, const char *what) {
    u8 o[64], e[64], dg[64]; unsigned fi[64], leaf; u64 tree; memcpy(RNG_bytes, R0, n); RNG_pos = 0; memset(CTX, 0x5d, sizeof *CTX);
    ts_init_sign(CTX, m, len, S->ps, sk, rnd ? rng_fixed : 0); calls += 2; runs++; if (ts_sign(o, 2 * n, CTX) != 2u * n) viol("%s: no signature for a message of %zu bytes", S->name, len);
    ref_prf_msg(&S->r, sk, rnd ? R0 : sk + 2 * n, m, len, e); ref_hash_msg(&S->r, sk + 2 * n, e, m, len, dg, ref_digest_len(&S->r)); ref_position(&S->r, dg, fi, &tree, &leaf); ref_fors_sk(&S->r, sk, tree, leaf, fi[0], e + n);
    if (memcmp(o, e, n)) viol("%s: message of %zu bytes (%s): R is %s, the specification's is %s", S->name, len, what, hex(o, n), hex(e, n));
    if (memcmp(o + n, e + n, n)) viol("%s: message of %zu bytes (%s): the signed position is not the specification's (first FORS secret differs)", S->name, len, what);
    seen_add(&outs, hash64(o, 2 * n, 1), 3);
}
static int verify(const u8 *m, size_t len, const u8 *sig, unsigned c) { memset(CTX, 0xd5, sizeof *CTX); ts_init_verify(CTX, m, len, S->ps, sk + 2 * n); for (unsigned p = 0; p < L; p += c) { calls++; ts_update_verify(sig + p, c < L - p ? c : L - p, CTX); } runs++; return ts_verify(CTX); }
static void toy(int lo, int hi, int step) {
    u8 *buf = gbuf(hi + 8, 1), *sig = gbuf(L, 1), *e = malloc(L); fill(buf, hi + 8, 55);
    for (int len = lo; len <= hi; len += step) {
        u8 *m = buf + 4; int tight = len % 3 == 0; if (tight) { m = buf + hi + 8 - len; }
        cur("message of %ld bytes", len, 0, 0, 0); ref_sign(&S->r, sk, R0, m, len, e); impl_sign_all(S, CTX, sk, m, len, R0, sig); runs++; calls++;
        if (memcmp(sig, e, L)) { unsigned q = 0; while (sig[q] == e[q]) q++; viol("%s: message of %d bytes: the signature differs from the specification's at byte %u", S->name, len, q); }
        seen_add(&outs, hash64(sig, L, 1), 4);
        if (verify(m, len, e, len % 2 ? L : 7) != 1) viol("%s: the genuine signature of a message of %d bytes is rejected", S->name, len);
        /* one byte more or less at either end, or changed anywhere */
        for (int v = 0; v < 4; v++) { const u8 *m2 = v == 0 ? m : v == 1 ? m + 1 : v == 2 ? m : m - 1; size_t l2 = v < 2 ? (size_t)len - 1 : (size_t)len + 1; if (len == 0 && v < 2) continue; if (tight && v == 2) continue; cur("signature of %ld bytes checked for variant %ld", len, v, 0, 0);
            int a = verify(m2, l2, e, L), w = ref_verify(&S->r, sk + 2 * n, m2, l2, e, L); if (a != w) viol("%s: the signature of a message of %d bytes checked for the message %s at the %s: verdict %d, the specification's %d", S->name, len, v < 2 ? "with a byte removed" : "with a byte added", v == 0 || v == 2 ? "end" : "front", a, w); }
        int bs = tier_thorough ? 1 : len < 40 ? 1 : 7; for (int b = len % bs; b < len; b += bs) { m[b] ^= 1 << (b + len) % 8; cur("signature of %ld bytes checked with byte %ld changed", len, b, 0, 0); int a = verify(m, len, e, L), w = ref_verify(&S->r, sk + 2 * n, m, len, e, L); m[b] ^= 1 << (b + len) % 8; if (a != w) viol("%s: the signature of a message of %d bytes checked with message byte %d changed: verdict %d, the specification's %d", S->name, len, b, a, w); }
    }
    sample("%s: messages of %d..%d bytes step %d signed, verified, and verified with one byte changed, added or removed", S->name, lo, hi, step);
}
/* lengths that cannot be hashed: the call-backs must be handed exactly the caller's pointer and length */
#ifndef VP_PLAIN
static const void *wp, *gp[2]; static size_t gl[2]; static int gc[2];
static void p_msg(unsigned char *out, const unsigned char *opt, const unsigned char *msg, size_t len, struct ts_context *c) { (void)c; (void)opt; gp[0] = msg; gl[0] = len; gc[0]++; memset(out, 3, n); }
static void h_msg(unsigned char *out, size_t ol, const unsigned char *R, const unsigned char *msg, size_t len, struct ts_context *c) { (void)c; (void)R; gp[1] = msg; gl[1] = len; gc[1]++; memset(out, 0x5a, ol); }
static void pass(void) {
    struct tset T = *S; T.ps = &T.buf; T.buf.prf_msg = p_msg; T.buf.hash_msg = h_msg; u8 *sig = gbuf(L, 1); u64 c = 0;
    for (int b = 0; b < 64; b++) for (int d = -1; d <= 1; d++) { size_t len = (1ull << b) + d; wp = (const void *)(0x10000 + 0x1001ull * b + d); memset(gc, 0, sizeof gc); memset(gl, 0, sizeof gl); c++; calls += 4;
        cur("length 2^%ld%+ld, signing", b, d, 0, 0); memset(CTX, 7, sizeof *CTX); ts_init_sign(CTX, wp, len, T.ps, sk, 0); ts_sign(sig, L, CTX);
        if (gc[0] != 1 || gc[1] != 1 || gl[0] != len || gl[1] != len || gp[0] != wp || gp[1] != wp) viol("%s: signing a message of %zu bytes at %p: PRF_msg got %zu bytes at %p, H_msg %zu bytes at %p", S->name, len, wp, gl[0], gp[0], gl[1], gp[1]);
        memset(gc, 0, sizeof gc); cur("length 2^%ld%+ld, verifying", b, d, 0, 0); memset(CTX, 7, sizeof *CTX); ts_init_verify(CTX, wp, len, T.ps, sk + 2 * n); ts_update_verify(sig, L, CTX); ts_verify(CTX);
        if (gc[0] || gc[1] != 1 || gl[1] != len || gp[1] != wp) viol("%s: verifying a message of %zu bytes at %p: H_msg got %zu bytes at %p", S->name, len, wp, gl[1], gp[1]); runs += 2; }
    STATES(c); sample("%s: lengths 2^0-1 .. 2^63+1 reach the message hashes of both sides unchanged", S->name);
}
#else
static void pass(void) {}
#endif
static u8 *longmap(u64 len) {
    u64 tot = (len + 0xfffff) & ~0xfffffull; int fd = syscall(SYS_memfd_create, "x", 0); if (fd < 0 || ftruncate(fd, 1 << 20)) exit(3);
    u8 *b = mmap(0, tot, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (b == MAP_FAILED) exit(3);
    for (u64 o = 0; o < tot; o += 1 << 20) if (mmap(b + o, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); exit(3); }
    for (int i = 0; i < 1 << 20; i++) b[i] = (u8)((i * 2654435761u) >> 24) ^ (i & 0x55);
    return b;
}
/* 2^32+5 bytes: R and the digest of the whole message were computed with Python's hashlib for this fixed key */
static void unhex(u8 *o, const char *h, int l) { for (int i = 0; i < l; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); o[i] = v; } }
static void huge(int side) {
    u64 len = (1ull << 32) + 5; u8 *m = longmap(len), R[32], dg[64], *e = malloc(L), *sig = gbuf(L, 1); int found = 0;
    for (int i = 0; i < 96; i++) sk[i % (3 * n)] = i % (3 * n) + 1; { u8 sd[96]; memcpy(sd, sk, 3 * n); ref_keygen(&S->r, sd, sk); }
    for (unsigned i = 0; i < sizeof LONGS / sizeof *LONGS; i++) if (!strcmp(LONGS[i].set, S->name)) { if (strlen(LONGS[i].root) != 2u * n) exit(3); u8 rt[32]; unhex(rt, LONGS[i].root, n); if (memcmp(rt, sk + 3 * n, n)) { printf("long table is for another key\n"); exit(3); } unhex(R, LONGS[i].R, n); unhex(dg, LONGS[i].digest, ref_digest_len(&S->r)); found = 1; }
    if (!found) exit(3);
    ref_sign_digest(&S->r, sk, R, dg, e); cur("message of 2^32+5 bytes", 0, 0, 0, 0);
    if (side == 0) { memset(CTX, 9, sizeof *CTX); ts_init_sign(CTX, m, len, S->ps, sk, 0); calls += 2; runs++; if (ts_sign(sig, L, CTX) != L) viol("%s: message of 2^32+5 bytes: short signature", S->name); if (memcmp(sig, e, n)) viol("%s: message of 2^32+5 bytes: R is %s, the specification's is %s", S->name, hex(sig, n), hex(R, n)); if (memcmp(sig, e, L)) viol("%s: message of 2^32+5 bytes: signature for another digest", S->name); }
    else if (verify(m, len, e, L) != 1) viol("%s: the genuine signature of a message of 2^32+5 bytes is rejected", S->name);
    STATES(1); sample("%s: message of 2^32+5 bytes %s", S->name, side ? "verified" : "signed");
}
void list_jobs(void) {
    for (int i = 0; i < NSETS; i++) job_line("head:%s:0 8", SETS[i].name);
    for (int i = 0; i < NTOYS; i++) { for (int q = 0; q < 4; q++) job_line("toy:%s:%d 10", TOYS[i].name, q); job_line("pass:%s:0 1", TOYS[i].name); for (int q = 0; q < 2; q++) if (tier_thorough || strcmp(TOYS[i].name, "toy_shake_24")) job_line("huge:%s:%d %d", TOYS[i].name, q, q ? 50 : 100); }
}
void run_job(const char *job) {
    char kind[16], name[40]; int part; if (sscanf(job, "%15[^:]:%39[^:]:%d", kind, name, &part) != 3) exit(3);
    S = set_by_name(name); if (!S) exit(3); n = S->r.n; L = ref_sig_len(&S->r); fill(R0, 32, 61); sk = gbuf(4 * n, 1);
    if (*kind == 'h' && kind[1] == 'e') {
        /* a real set: the root is only data here, so any 4n bytes are a key */
        fill(sk, 4 * n, 62); int N = tier_thorough ? 3000 : 700; u8 *m = gbuf(N, 1); fill(m, N, 63);
        for (int l = 0; l <= N; l++) { cur("message of %ld bytes", l, 0, 0, 0); head(m + N - l, l, 1, "suffix of one stream"); head(m, l, 0, "prefix of one stream, deterministic"); }
        static const int ls[] = { 1, 2, 15, 16, 17, 31, 32, 33, 55, 56, 63, 64, 65, 71, 72, 73, 87, 88, 95, 96, 111, 112, 127, 128, 129, 135, 136, 137, 200, 256, 272, 300 };
        for (unsigned i = 0; i < sizeof ls / sizeof *ls; i++) { u64 base = outs.n; int l = ls[i]; for (int b = 0; b < l; b++) for (int w = 0; w < (tier_thorough ? 8 : 1); w++) { int bit = tier_thorough ? w : b % 8; m[b] ^= 1 << bit; cur("message of %ld bytes, byte %ld changed", l, b, 0, 0); head(m, l, 1, "one byte changed"); m[b] ^= 1 << bit; } (void)base; }
        int top = tier_thorough ? 24 : 20; u8 *big = gbuf((1u << top) + 200, 1); fill(big, (1u << top) + 200, 66);
        for (int k = 9; k <= top; k++) for (int d = -1; d <= 1; d++) for (int o = 0; o < 3; o++) {     /* lengths around powers of two, and the same less what precedes the message in its hash */
            size_t l = (1u << k) + d - (o == 1 ? 2 * n : o == 2 ? 3 * n : 0); if (o && !tier_thorough && (k + o) % 2) continue; cur("message of %ld bytes", l, 0, 0, 0); head(big + (1u << top) + 200 - l, l, (k + d) & 1, "long"); }
        sample("%s: R and position for every length 0..%d, and with every byte of %zu lengths changed", S->name, N, sizeof ls / sizeof *ls);
    } else if (*kind == 't') { key_for(S, 64, sk); int N = tier_thorough ? 1200 : 420; toy(part, N, 4); }
    else if (*kind == 'p') { key_for(S, 65, sk); pass(); TRANS(calls); EXECS(runs); return; }
    else { huge(part); TRANS(calls); EXECS(runs); return; }
    STATES(outs.n); TRANS(calls); EXECS(runs);
}
