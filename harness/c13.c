/*
 * C13: the incremental SHA-256, SHA-512 and SHAKE256 interfaces.
 * A state is (bytes fed, image of the hash context), for SHAKE256 also (bytes squeezed, image); from every state every
 * update length is tried, the successor is matched against the states already known at its position, and every state
 * is finalised with every output length.  Very long inputs run over one small file mapped again and again.
 */
#include "common.h"
#include "sha2.h"
#include "fips202.h"
#include <sys/syscall.h>
typedef union { SHA256_CTX a; SHA512_CTX b; SHAKE256_CTX c; } hctx;
static int A, blk, dlen; static size_t csz; static u64 ntr, nfin, nst;     /* algorithm: 0 SHA-256, 1 SHA-512, 2 SHAKE256 */
static void h_init(hctx *h) { if (A == 0) ts_SHA256_init(&h->a); else if (A == 1) ts_SHA512_init(&h->b); else ts_shake256_inc_init(&h->c); }
static void h_upd(hctx *h, const u8 *p, size_t l) { if (A == 0) ts_SHA256_update(&h->a, p, l); else if (A == 1) ts_SHA512_update(&h->b, p, l); else ts_shake256_inc_absorb(&h->c, p, l); }
static void h_final(hctx *h, u8 *o, int l, int plain) {
    if (A == 0) { if (plain) ts_SHA256_final(o, &h->a); else ts_SHA256_final_trunc(o, &h->a, l); }
    else if (A == 1) { if (plain) ts_SHA512_final(o, &h->b); else ts_SHA512_final_trunc(o, &h->b, l); }
    else { ts_shake256_inc_finalize(&h->c); ts_shake256_inc_squeeze(o, l, &h->c); }
}
static void refh(u8 *o, int l, const u8 *m, size_t n) { u8 t[64]; if (A == 0) { ref_sha256(t, m, n); memcpy(o, t, l); } else if (A == 1) { ref_sha512(t, m, n); memcpy(o, t, l); } else ref_shake256(o, l, m, n); }
static const char *NAME[] = { "SHA-256", "SHA-512", "SHAKE256" };
static hctx *H; static u8 *D, *ob; static char what[100];
/* finalise the context in H for a message of n bytes in all output lengths; H is preserved */
static void finals(const u8 *want, size_t n, const char *how) {
    hctx keep; memcpy(&keep, H, csz); int step = A == 0 ? 4 : A == 1 ? 8 : 1, max = A == 2 ? 40 : dlen;
    for (int l = A == 2 ? 0 : step; l <= max + (A == 2 ? 0 : step); l += step) {     /* the last turn: the untruncated function */
        int plain = l > max, w = plain ? dlen : l; u8 *o = ob + 256 - w; memset(ob, 0xA7, 256); memcpy(H, &keep, csz); h_final(H, o, w, plain); nfin++;
        if (memcmp(o, want, w)) viol("%s of %zu bytes (%s), %d output bytes: %s, the standard says %s", NAME[A], n, how, w, hex(o, w), hex(want, w));
        for (u8 *q = ob; q < o; q++) if (*q != 0xA7) viol("%s: %d output bytes were asked for, byte %d before the buffer was written", NAME[A], w, (int)(o - q));
        if (w < max) { o = ob; memset(ob, 0xA7, 256); memcpy(H, &keep, csz); h_final(H, o, w, plain); for (int q = w; q < 256; q++) if (ob[q] != 0xA7) viol("%s: %d output bytes were asked for, byte %d was written", NAME[A], w, q); }
    }
    memcpy(H, &keep, csz);
}
struct img { hctx c; struct img *nx; };
static void bfs(int garbage, int fine) {
    int P = (tier_thorough ? 12 : 5) * blk + 2; struct img **st = calloc(P + 1, sizeof *st); u8 *m = malloc(P), want[64]; fill(m, P, 31 + A); int *cnt = calloc(P + 1, sizeof *cnt);
    memset(H, garbage, csz); h_init(H); st[0] = malloc(sizeof **st); memcpy(&st[0]->c, H, csz); st[0]->nx = 0; cnt[0] = 1;
    for (int p = 0; p <= P; p++) {
        refh(want, A == 2 ? 40 : dlen, m, p);
        for (struct img *s = st[p]; s; s = s->nx) {
            nst++; memcpy(H, &s->c, csz); cur("finalising after %ld bytes", p, 0, 0, 0); snprintf(what, sizeof what, "split into updates"); finals(want, p, what);
            for (int k = 0; k <= P - p; k++) {
                if (!fine && k > 3 && (p + k) % blk > 1 && (p + k) % blk < blk - 10 && k % 7) continue;
                int al = k & 7; u8 *in = D + 4096 - k; if (al == 0 || k + 16 > 4096) memcpy(in, m + p, k); else { in = D + al; memcpy(in, m + p, k); }
                cur("update of %ld bytes after %ld", k, p, 0, 0); memcpy(H, &s->c, csz); h_upd(H, in, k); ntr++;
                if (memcmp(in, m + p, k)) viol("%s: the input of an update of %d bytes after %d was modified", NAME[A], k, p);
                struct img *t = st[p + k]; while (t && memcmp(&t->c, H, csz)) t = t->nx;
                if (!t) { if (++cnt[p + k] > 64) { note_capped("more than 64 context images at one position"); continue; } t = malloc(sizeof *t); memcpy(&t->c, H, csz); struct img **q = &st[p + k]; while (*q) q = &(*q)->nx; t->nx = 0; *q = t; }
            }
        }
    }
    sample("%s: every split of every length up to %d, last digest %s", NAME[A], P, hex(want, 16));
}
/* SHAKE256: the output side */
static void squeeze(int inlen) {
    int P = 2 * blk + 5; u8 *m = malloc(inlen + 1), want[600]; fill(m, inlen, 77); ref_shake256(want, P, m, inlen); struct img **st = calloc(P + 1, sizeof *st); int *cnt = calloc(P + 1, sizeof *cnt);
    memset(H, 0x5A, csz); h_init(H); h_upd(H, m, inlen); ts_shake256_inc_finalize(&H->c); st[0] = malloc(sizeof **st); memcpy(&st[0]->c, H, csz); st[0]->nx = 0;
    for (int p = 0; p <= P; p++) for (struct img *s = st[p]; s; s = s->nx) { nst++; for (int k = 0; k <= P - p; k++) {
        u8 *o = ob + 600 - k; cur("input %ld: squeezing %ld bytes after %ld", inlen, k, p, 0); memcpy(H, &s->c, csz); o[-1] = 0x17; ts_shake256_inc_squeeze(o, k, &H->c); ntr++;
        if (memcmp(o, want + p, k)) viol("SHAKE256 of %d bytes: output bytes %d to %d differ from the standard's", inlen, p, p + k); if (o[-1] != 0x17) viol("SHAKE256: squeezing %d bytes wrote before the buffer", k);
        struct img *t = st[p + k]; while (t && memcmp(&t->c, H, csz)) t = t->nx;
        if (!t) { if (++cnt[p + k] > 64) { note_capped("more than 64 context images at one position"); continue; } t = malloc(sizeof *t); memcpy(&t->c, H, csz); struct img **q = &st[p + k]; while (*q) q = &(*q)->nx; t->nx = 0; *q = t; }
    } }
    for (int p = 0; p <= P; p++) for (struct img *s = st[p], *n; s; s = n) { n = s->nx; free(s); }
    free(st); free(cnt); free(m); sample("SHAKE256 of %d bytes: every split of %d output bytes", inlen, P);
}
/* the state saved after exactly one block, resumed in any context */
static void resume(void) {
    u8 *m = malloc(4 * blk), want[64]; fill(m, 4 * blk, 5); u64 saved[8]; 
    for (int c1 = 0; c1 <= blk; c1++) {
        memset(H, 0xE1, csz); h_init(H); h_upd(H, m, c1); h_upd(H, m + c1, blk - c1); memset(saved, 0x44, sizeof saved); cur("saving after %ld+", c1, 0, 0, 0);
        if (A == 0) ts_SHA256_save_state((uint32_t *)saved, &H->a); else ts_SHA512_save_state(saved, &H->b);
        for (int r = 0; r <= 2 * blk + 1; r++) { if (c1 % 16 != 1 && r % 8 != 7) continue; refh(want, dlen, m, blk + r); for (int g = 0; g < 3; g++) {
            memset(H, g == 0 ? 0 : g == 1 ? 0xff : 0x6B, csz); if (g == 2) { h_init(H); h_upd(H, m + 3, 37); }
            cur("resuming, then %ld bytes, context pattern %ld", r, g, 0, 0); u64 s2[8]; memcpy(s2, saved, sizeof s2);
            if (A == 0) ts_SHA256_restore_state_after_64(&H->a, (uint32_t *)s2); else ts_SHA512_restore_state_after_128(&H->b, s2);
            int c2 = g == 0 ? r : (r * 5 + c1) % (r + 1); h_upd(H, m + blk, c2); h_upd(H, m + blk + c2, r - c2); ntr += 4; nst++; finals(want, blk + r, "resumed after one block");
            if (memcmp(s2, saved, sizeof s2)) viol("%s: resuming modified the saved state", NAME[A]);
        } }
    }
    sample("%s: saved after one block in %d splits, resumed with 0..%d more bytes", NAME[A], blk + 1, 2 * blk + 1);
}
/* long inputs: a 1 MiB pattern repeated; expected digests for the named lengths were computed with Python's hashlib */
static u8 *longmap(u64 len) {
    u64 tot = (len + 0xfffff) & ~0xfffffull; int fd = syscall(SYS_memfd_create, "x", 0); if (fd < 0 || ftruncate(fd, 1 << 20)) exit(3);
    u8 *b = mmap(0, tot, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (b == MAP_FAILED) exit(3);
    for (u64 o = 0; o < tot; o += 1 << 20) if (mmap(b + o, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); exit(3); }
    for (int i = 0; i < 1 << 20; i++) b[i] = (u8)((i * 2654435761u) >> 24) ^ (i & 0x55);
    return b;
}
#include "c13_long.h"
static void refinc(u8 *o, const u8 *b, u64 len) {
    if (A == 0) { rsha256 r; rsha256_init(&r); rsha256_add(&r, b, len); rsha256_end(&r, o); } else if (A == 1) { rsha512 r; rsha512_init(&r); rsha512_add(&r, b, len); rsha512_end(&r, o); } else { rshake r; rshake_init(&r); rshake_add(&r, b, len); rshake_end(&r, o, 40); }
}
/* one pass: the states at base-1, base, ... are finalised; base reached by one update of b0 bytes and one of the rest */
static void huge(int sh, int variant) {
    u64 base = 1ull << sh; u8 *b = longmap(base + (4 << 20)); u8 want[64]; static const int extra[] = { -1, 0, 1, 137 };
    u64 first = variant == 0 ? base - 1 : variant == 1 ? base + 137 : base / 2 + 11; u64 pos = 0; memset(H, 0x6D, csz); h_init(H);
    cur("update of 2^%ld%+ld bytes", sh, variant == 0 ? -1 : variant == 1 ? 137 : 0, 0, 0); h_upd(H, b, first); ntr++; pos = first;
    for (int e = 0; e < 4; e++) {
        u64 len = base + extra[e]; if (len < pos) continue; if (len > pos) { cur("2^%ld%+ld bytes, last update %ld bytes", sh, extra[e], (long)(len - pos), 0); h_upd(H, b + pos, len - pos); ntr++; pos = len; }
        const char *hx = 0; for (unsigned i = 0; i < sizeof LONGS / sizeof *LONGS; i++) if (LONGS[i].alg == A && LONGS[i].sh == sh && LONGS[i].extra == extra[e]) hx = LONGS[i].hex;
        int l = A == 2 ? 40 : dlen; if (!hx) exit(3); for (int i = 0; i < l; i++) { unsigned v; sscanf(hx + 2 * i, "%2x", &v); want[i] = v; }
        if (tier_thorough && e == 3 && variant == 0) { u8 w2[64]; refinc(w2, b, len); if (memcmp(w2, want, l)) { printf("reference and hashlib differ\n"); exit(3); } }
        nst++; char how[60]; snprintf(how, sizeof how, "2^%d%+d bytes, first update %llu", sh, extra[e], (unsigned long long)first); finals(want, len, how);
    }
    sample("%s: 2^%d-1, +0, +1, +137 bytes, first update of %llu bytes", NAME[A], sh, (unsigned long long)first);
}
void list_jobs(void) {
    for (int a = 0; a < 3; a++) { for (int g = 0; g < 2; g++) job_line("bfs:%d:%d 5", a, g); if (a < 2) job_line("resume:%d:0 4", a); job_line("lens:%d:0 3", a);
        for (int v = 0; v < 3; v++) { job_line("huge:%d:%d %d", a, 2900 + v, TS_SHAKE256_OPT == 2 ? 120 : 30); if (tier_thorough || TS_SHAKE256_OPT == 0) job_line("huge:%d:%d %d", a, 3200 + v, a == 2 ? 100 : 90); } }
    for (int q = 0; q < 4; q++) job_line("squeeze:2:%d 5", q);
}
void run_job(const char *job) {
    char kind[16]; int x; if (sscanf(job, "%15[^:]:%d:%d", kind, &A, &x) != 3) exit(3);
    blk = A == 0 ? 64 : A == 1 ? 128 : 136; dlen = A == 0 ? 32 : A == 1 ? 64 : 32; csz = A == 0 ? sizeof(SHA256_CTX) : A == 1 ? sizeof(SHA512_CTX) : sizeof(SHAKE256_CTX);
    H = (hctx *)gbuf(csz, 1); D = gbuf(4096, 1); ob = gbuf(600, 1);
    u8 *ob0 = ob; if (strcmp(kind, "squeeze")) ob = ob0 + 600 - 256;
    if (!strcmp(kind, "bfs")) bfs(x ? 0xFF : 0x3B, tier_thorough || x);
    else if (!strcmp(kind, "squeeze")) { for (int l = x; l <= 2 * blk + 2; l += 4) squeeze(l); }
    else if (!strcmp(kind, "resume")) resume();
    else if (!strcmp(kind, "lens")) { int N = tier_thorough ? 20000 : 2600; u8 *m = gbuf(N, 1), want[64]; fill(m, N, 8); for (int l = 0; l <= N; l++) { cur("single update of %ld bytes", l, 0, 0, 0); refh(want, A == 2 ? 40 : dlen, m + N - l, l); memset(H, l, csz); h_init(H); h_upd(H, m + N - l, l); ntr++; nst++; finals(want, l, "one update"); } sample("%s: every length up to %d in one update", NAME[A], N); }
    else if (!strcmp(kind, "huge")) huge(x / 100, x % 100);
    STATES(nst); TRANS(ntr); EXECS(nfin);
}
