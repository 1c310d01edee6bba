/*
 * C23: what the library does depends on its inputs alone, not on the machine it was compiled for: not on byte order or
 * word size, not on where the caller's buffers lie, not on operations the language leaves undefined.
 * The same explorations run on the host (library built with the undefined-behaviour or the memory sanitizer) and on
 * interpreted 32-bit machines that stop at misaligned accesses; every result is compared with the reference model.
 */
#include "mach.h"
#include <sys/wait.h>
#include <fcntl.h>
static struct mset *S; static int n, L; static u64 calls, ctxs; static struct seen outs; static u8 *sig0, key0[128], opt0[32];
static void note(struct ts_context *c) {
    calls++;
#ifndef MSAN
    ctxs += seen_add(&outs, hash64(c, m_ctx_size(), 7), hash64(c, m_ctx_size(), 8));
#endif
}
static int rng(unsigned char *p, size_t k) { memcpy(p, opt0, k < 32 ? k : 32); return 1; }
static u8 seed0[96]; static size_t seedpos; static int rngkey(unsigned char *p, size_t k) { for (size_t i = 0; i < k; i++) p[i] = seed0[(seedpos + i) % 96]; seedpos += k; return 1; }
static void same(const char *what, const u8 *a, const u8 *b, size_t k) { for (size_t i = 0; i < k; i++) if (a[i] != b[i]) viol("%s on %s: byte %zu of %s is %02x, the reference has %02x", S->name, m_name, i, what, a[i], b[i]); }
static u8 *put(const void *p, size_t len, unsigned off) { u8 *b = m_alloc(len, off); memcpy(b, p, len); return b; }

static void sign1(const u8 *msg, size_t len, int det, unsigned a_sk, unsigned a_msg, unsigned a_dst, const unsigned *piece, int np) {
    m_reset(); struct ts_context *c = m_ctx(); u8 *sk = put(key0, 4 * n, a_sk), *m = put(msg, len, a_msg); unsigned p = 0, i = 0;
    m_init_sign(c, m, len, S, sk, det ? 0 : rng); note(c);
    u8 *all = malloc(L);
    while (p < (unsigned)L) {
        unsigned k = piece[i % np], w = k < L - p ? k : L - p; i++; u8 *d = m_alloc(w, a_dst); unsigned g = m_sign(d, k, c); note(c);
        if (g != w) viol("%s on %s: ts_sign(%u) after %u of %d bytes returns %u", S->name, m_name, k, p, L, g);
        memcpy(all + p, d, w); p += w; if (i > 400 && i % 400 == 0) { u8 *save = malloc(m_ctx_size()); memcpy(save, c, m_ctx_size()); free(save); }
    }
    { u8 *d = m_alloc(n, a_dst); unsigned g = m_sign(d, n, c); note(c); if (g) viol("%s on %s: ts_sign after the end returns %u", S->name, m_name, g); }
    same("the signature", all, sig0, L); same("the private key (which is only read)", sk, key0, 4 * n); same("the message (which is only read)", m, msg, len); free(all);
}
static int ver1(const u8 *msg, size_t len, const u8 *sig, size_t sl, unsigned a_pk, unsigned a_msg, unsigned a_src, const unsigned *piece, int np) {
    m_reset(); struct ts_context *c = m_ctx(); u8 *pk = put(key0 + 2 * n, 2 * n, a_pk), *m = put(msg, len, a_msg); size_t p = 0; unsigned i = 0;
    m_init_verify(c, m, len, S, pk); note(c);
    while (p < sl) { unsigned k = piece[i % np]; if (k > sl - p) k = sl - p; i++; u8 *d = put(sig + p, k, a_src); m_update(d, k, c); note(c); p += k; }
    int r = m_verify(c); note(c); return r;
}
static void prep(const u8 *msg, size_t len, int det) {
    fill(opt0, 32, 5); fill(seed0, 96, 17); ref_keygen(&S->r, seed0, key0);
    sig0 = realloc(sig0, L); ref_sign(&S->r, key0, det ? 0 : opt0, msg, len, sig0);
}
static void expect(int got, int want, const char *what) { if (got != want) viol("%s on %s: ts_verify of %s returns %d, expected %d", S->name, m_name, what, got, want); }
static u8 MSG[300];

static void full(int heavy) {
    static const size_t lens[] = { 0, 1, 37, 64, 200 }; unsigned all = L;
    if (m_size(S, 0) != 4u * n || m_size(S, 1) != 2u * n || m_size(S, 2) != (unsigned)L) viol("%s on %s: published sizes are %u, %u, %u", S->name, m_name, m_size(S, 0), m_size(S, 1), m_size(S, 2));
    for (int i = 0; i < (heavy ? 1 : 5); i++) for (int det = 0; det < (heavy ? 1 : 2); det++) {
        size_t len = heavy ? 37 : lens[i]; cur("signing and verifying %ld message bytes (deterministic: %ld)", len, det, 0, 0); prep(MSG, len, det);
        if (heavy < 2) sign1(MSG, len, det, 1, 3, 1, &all, 1);
        expect(ver1(MSG, len, sig0, L, 1, 1, 3, &all, 1), 1, "a genuine signature");
        if (heavy) break;
    }
}
static int sparse;      /* the hash functions take their time on an interpreted machine */
static void gen(void) {
    for (int s = 0; s < (S->real || sparse ? 1 : 3); s++) for (int a = 0; a < (S->real ? 1 : 64); a++) for (int nopk = 0; nopk < (S->real ? 1 : 2); nopk++) {
        if (sparse && (a & 7) && a >> 3 && (a & 7) != a >> 3) continue;
        cur("key generation, seed %ld, buffers at offsets %ld, %ld", s, a & 7, a >> 3, 0); fill(seed0, 96, 40 + s); u8 k[128]; ref_keygen(&S->r, seed0, k); seedpos = 0;
        m_reset(); unsigned x = S->real ? 1 : a; u8 *sk = m_alloc(4 * n, x & 7), *pk = nopk ? 0 : m_alloc(2 * n, x >> 3); int r = m_gen(S, sk, pk, rngkey); calls++; ctxs++;
        if (r != 1) viol("%s on %s: key generation returns %d", S->name, m_name, r);
        same("the private key", sk, k, 4 * n); if (pk) same("the public key", pk, k + 2 * n, 2 * n);
    }
}
static void align(void) {
    unsigned all = L, odd[] = { (unsigned)n + 1 }; prep(MSG, 37, 0); int few = sparse;
    for (int x = 0; x < 512; x++) {
        unsigned a = x & 7, b = x >> 3 & 7, c = x >> 6; if (few && !(a == b && b == c) && (a != 0) + (b != 0) + (c != 0) > 1) continue;
        cur("key, message and signature at offsets %ld, %ld, %ld", a, b, c, 0);
        sign1(MSG, 37, 0, a, b, c, &all, 1); expect(ver1(MSG, 37, sig0, L, a, b, c, &all, 1), 1, "a genuine signature");
        if (!few) { sign1(MSG, 37, 0, a, b, c, odd, 1); expect(ver1(MSG, 37, sig0, L, a, b, c, odd, 1), 1, "a genuine signature"); }
    }
}
static void cut(void) {
    prep(MSG, 37, 0);
    for (int k = 0; k <= L; k += sparse ? S->r.fam == FAM_SHAKE ? 257 : 131 : 1) { unsigned pc[] = { (unsigned)k, (unsigned)(L - k) }; cur("in two pieces, the first of %ld bytes", k, 0, 0, 0); if (k == 0) { pc[0] = L; } if (k == L) { pc[1] = 1; } sign1(MSG, 37, 0, k, 1, k, pc, 2); expect(ver1(MSG, 37, sig0, L, 1, k, k, pc, 2), 1, "a genuine signature"); }
    for (unsigned k = n > 24 ? 5 : 3; k <= 2u * n + 1; k += sparse ? 13 : 1) { cur("in pieces of %ld bytes", k, 0, 0, 0); sign1(MSG, 37, 0, 1, 1, 1, &k, 1); expect(ver1(MSG, 37, sig0, L, 1, 1, 1, &k, 1), 1, "a genuine signature"); }
    for (unsigned big = 0; big < 3; big++) { unsigned k = big == 0 ? 0xffffffffu : big == 1 ? 0x7fffffffu : 0x80000001u; cur("ts_sign asked for %ld bytes", k, 0, 0, 0); sign1(MSG, 37, 0, 1, 1, 1, &k, 1); }
}
static void flip(void) {
    prep(MSG, 37, 0); unsigned all = L; u8 *f = malloc(L + 1); memcpy(f, sig0, L);
    int st = sparse ? 23 : 1;
    for (int i = 0; i < L; i += st) { f[i] ^= 1 << i % 8; cur("byte %ld of the signature changed", i, 0, 0, 0); expect(ver1(MSG, 37, f, L, 1, 1, 3, &all, 1), ref_verify(&S->r, key0 + 2 * n, MSG, 37, f, L), "a changed signature"); f[i] = sig0[i]; }
    for (int i = 0; i < 37; i += sparse ? 9 : 1) { u8 m[64]; memcpy(m, MSG, 37); m[i] ^= 0x80 >> i % 8; cur("byte %ld of the message changed", i, 0, 0, 0); expect(ver1(m, 37, sig0, L, 1, 1, 3, &all, 1), ref_verify(&S->r, key0 + 2 * n, m, 37, sig0, L), "another message's signature"); }
    for (int i = 0; i < L; i += st) { cur("%ld bytes fed", i, 0, 0, 0); unsigned k = i ? i : 1; expect(ver1(MSG, 37, sig0, i, 1, 1, 1, &k, 1), 0, "a truncated signature"); }
    f[L] = 0; cur("one byte too many", 0, 0, 0, 0); unsigned k = L + 1; expect(ver1(MSG, 37, f, L + 1, 1, 1, 1, &k, 1), 0, "a signature with a byte too many"); free(f);
}
/* the digest is the message: every bit of the tree and leaf indices, on the published structures */
static void walk(void) {
    int dl = ref_digest_len(&S->r), bits = 8 * dl, tree0 = (S->r.k * S->r.t + 7) / 8, heavy = S->r.mh > 4; unsigned all = L; u8 m[64];
    for (int w = -2; w < bits; w++) {
        if (w >= 0 && w < 8 * tree0 && w % (heavy ? 37 : 11)) continue;
        if (sparse && w >= 8 * tree0 && (heavy ? w % 11 : w % 2) && w < bits - 12 && w > 8 * tree0 + 8) continue;
        memset(m, w == -2 ? 0xff : 0, 64); if (w >= 0) m[w / 8] = 0x80 >> w % 8;
        cur("digest %ld (-2 all ones, -1 zero, otherwise the bit that is set)", w, 0, 0, 0); prep(m, dl, 0);
        int sg = !heavy && (w < 0 || (w % 24 == 3 && S->r.mh < 4) || w == bits - 1 || !sparse);
        if (!sg || w < 0) expect(ver1(m, dl, sig0, L, 1, 1, 1, &all, 1), 1, "a genuine signature");
        if (sg) sign1(m, dl, 0, 1, 1, 1, &all, 1);
    }
}
static int toy(void) { return !S->real && !strstr(S->name, "28") && !strstr(S->name, "92") && !strstr(S->name, "56"); }
#ifdef EMU
static int fits(void) {
    unsigned all; n = S->r.n; L = ref_sig_len(&S->r); all = L; prep(MSG, 64, 0); m_reset(); struct ts_context *c = m_ctx(); u8 *sk = put(key0, 4 * n, 0), *m = put(MSG, 64, 0), *d = m_alloc(L, 0);
    m_init_sign(c, m, 64, S, sk, rng); return m_sign(d, all, c) == all && !memcmp(d, sig0, L);
}
static void classes(void) {     /* derived sets are used only where they are demonstrably understood; see common.c */
    static const char *cl[] = { "toy_shake", "toy_sha2", "abs32_", "abs22_" };
    for (int k = 0; k < 4; k++) {
        int ok = 0; fflush(stdout); pid_t p = fork(); if (p < 0) exit(3);
        if (!p) {
            int z = open("/dev/null", O_WRONLY); dup2(z, 1); dup2(z, 2);
            for (int i = 0; i < NMS; i++) if (!strncmp(MS[i].name, cl[k], strlen(cl[k]))) { S = &MS[i]; if (!toy()) continue; pid_t q = fork(); if (!q) { alarm(6); _exit(fits() ? 0 : 1); } int st = 0; waitpid(q, &st, 0); if (WIFEXITED(st) && !WEXITSTATUS(st)) _exit(0); }
            _exit(1);
        }
        int st = 0; waitpid(p, &st, 0); ok = WIFEXITED(st) && !WEXITSTATUS(st); if (ok) continue;
        int o = 0; for (int i = 0; i < NMS; i++) if (strncmp(MS[i].name, cl[k], strlen(cl[k]))) MS[o++] = MS[i];
        if (NMS != o && JOB[0]) note_capped("sets derived from the internal structures do not fit this tree; published sets only for those classes");
        NMS = o;
    }
}
#else
static void classes(void) { }
#endif
void list_jobs(void) {
    mach_init(); classes();
    for (int i = 0; i < NMS; i++) { S = &MS[i]; int heavy = S->r.mh > 4, w = S->r.n * S->r.d;
        if (toy()) { job_line("full:%s 5", S->name); job_line("gen:%s 10", S->name); job_line("align:%s 30", S->name); job_line("cut:%s 30", S->name); job_line("flip:%s 30", S->name); }
        else if (!S->real) job_line("walk:%s %d", S->name, heavy ? 60 : w / 8);
        else { job_line("full:%s %d", S->name, heavy ? 20 : w / 4); if (!heavy || tier_thorough) job_line("gen:%s %d", S->name, heavy ? 40 : 5); }
    }
}
void run_job(const char *job) {
    char kind[16], name[40]; if (sscanf(job, "%15[^:]:%39s", kind, name) != 2) exit(3);
    mach_init(); S = ms_by_name(name); if (!S) exit(3); n = S->r.n; L = ref_sig_len(&S->r); fill(MSG, sizeof MSG, 3);
    fill(opt0, 32, 5);
#ifdef EMU
    static const char *dense[] = { "align:abs22_16", "cut:abs32_16", "flip:abs22_16", "flip:abs32_16", "gen:abs32_16" };
#else
    static const char *dense[] = { "align:abs", "align:toy_sha2", "align:toy_shake_16", "gen:", "flip:abs", "cut:abs", "flip:toy_sha2", };
#endif
    sparse = !tier_thorough; for (unsigned i = 0; i < sizeof dense / sizeof *dense; i++) if (!strncmp(job, dense[i], strlen(dense[i]))) sparse = 0;
    if (!strcmp(kind, "full")) full(S->real ? S->r.mh > 4 ? 2 : 1 : 0); else if (!strcmp(kind, "gen")) gen(); else if (!strcmp(kind, "align")) align(); else if (!strcmp(kind, "cut")) cut(); else if (!strcmp(kind, "flip")) flip(); else if (!strcmp(kind, "walk")) walk(); else exit(3);
    STATES(ctxs); TRANS(calls); EXECS(calls); if (m_insns) stat_add("machine_instructions", m_insns);
}
