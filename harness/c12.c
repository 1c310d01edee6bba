/* C12: one build configuration: every parameter set it enables against the reference's results (computed once, in $VP_EXP) */
#include "common.h"
#ifndef TS_SHAKE256_OPT
#define TS_SHAKE256_OPT 0
#endif
#ifndef TS_SUPPORT_L3
#define TS_SUPPORT_L3 0
#endif
static u64 calls, execs, sets; static struct seen outs;
static const u8 *MSG; static size_t MLEN; static u8 mbuf[200], R0[32], seed[96];
static int rng3(unsigned char *p, size_t k) { static size_t pos; if (!p) { pos = 0; return 0; } for (size_t i = 0; i < k; i++) p[i] = pos + i < 96 ? seed[pos + i] : 0xBD; pos += k; return 1; }
static void inputs(struct tset *s) { fill(mbuf, 200, 12); MSG = mbuf; MLEN = s->r.absmode & 2 ? 64 : 187; fill(R0, 32, 13); fill(seed, 96, 14); }
static char *path(struct tset *s) { static char b[600]; const char *d = getenv("VP_EXP"); if (!d) exit(3); snprintf(b, sizeof b, "%s/%s", d, s->name); return b; }
static void expect(struct tset *s) {
    int n = s->r.n, L = ref_sig_len(&s->r); u8 sk[128], *sig = malloc(L); inputs(s);
    ref_keygen(&s->r, seed, sk); ref_sign(&s->r, sk, R0, MSG, MLEN, sig);
    FILE *f = fopen(path(s), "wb"); if (!f || fwrite(sk, 1, 4 * n, f) != (size_t)(4 * n) || fwrite(sig, 1, L, f) != (size_t)L || fclose(f)) exit(3);
    free(sig);
}
static void test(struct tset *s) {
    int n = s->r.n; unsigned L = ref_sig_len(&s->r); u8 *sk = gbuf(4 * n, 1), *sig = gbuf(L, 1), *exps = gbuf(L, 1), *pk = gbuf(2 * n, 1), *sk2 = gbuf(4 * n, 1); inputs(s); sets++;
    FILE *f = fopen(path(s), "rb"); if (!f || fread(sk, 1, 4 * n, f) != (size_t)(4 * n) || fread(exps, 1, L, f) != L) { printf("no expectation for %s\n", s->name); exit(3); } fclose(f);
    int slow = s->real && s->r.mh > 6, keccak2 = TS_SHAKE256_OPT == 2 && s->r.fam == FAM_SHAKE && s->real;
    cur("sizes", 0, 0, 0, 0);
    if (ts_size_signature(s->ps) != L || ts_size_private_key(s->ps) != 4u * n || ts_size_public_key(s->ps) != 2u * n) viol("%s: reported sizes are not the specification's", s->name);
    if (!(slow && keccak2) || tier_thorough) {
        cur("key generation", 0, 0, 0, 0); rng3(0, 0); calls++; execs++; memset(sk2, 0x31, 4 * n);
        if (ts_gen_key(sk2, pk, s->ps, rng3) != 1) viol("%s: key generation fails", s->name);
        if (memcmp(sk2, sk, 4 * n) || memcmp(pk, sk + 2 * n, 2 * n)) viol("%s: key generation gives another key in this configuration: root %s instead of %s", s->name, hex(sk2 + 3 * n, n), hex(sk + 3 * n, n));
    } else memcpy(pk, sk + 2 * n, 2 * n);
    unsigned lim = slow && !tier_thorough ? (unsigned)n * (1 + (keccak2 ? 1 : 2) * (s->r.t + 1)) : L;
    for (int v = 0; v < (s->real && (slow || keccak2) ? 1 : 2); v++) {
        cur("signing, variant %ld", v, 0, 0, 0); memset(CTX, v ? 0 : 0xC3, sizeof *CTX); memcpy(RNG_bytes, R0, n); RNG_pos = 0; execs++;
        ts_init_sign(CTX, MSG, MLEN, s->ps, sk, rng_fixed); unsigned c = v ? L : 3u * n + 5;
        for (unsigned p = 0; p < lim; p += c) { unsigned k = c < lim - p ? c : lim - p; calls++; if (ts_sign(sig + p, k, CTX) != k) viol("%s: the signature ends early at %u", s->name, p); }
        if (memcmp(sig, exps, lim)) { unsigned q = 0; while (sig[q] == exps[q]) q++; viol("%s: another signature in this configuration: byte %u, element %u of %u", s->name, q, q / n, L / n); }
        if (lim == L) { calls++; u8 x[1]; if (ts_sign(x, 1, CTX)) viol("%s: signature too long", s->name); }
    }
    seen_add(&outs, hash64(sig, lim, 1), hash64(s->name, strlen(s->name), 2));
    for (int v = 0; v < 3; v++) {      /* genuine; one element altered; message altered */
        unsigned off = (L / n * 5 / 7) * n + 3; u8 m2[200]; memcpy(m2, MSG, 200); if (v == 1) exps[off] ^= 0x10; if (v == 2) m2[s->r.absmode & 2 ? 0 : 7] ^= 1;
        int w = v == 0 ? 1 : s->real || s->r.h > 20 ? 0 : ref_verify(&s->r, pk, m2, MLEN, exps, L);
        cur("verification, variant %ld", v, 0, 0, 0); memset(CTX, v == 1 ? 0 : 0x3C, sizeof *CTX); ts_init_verify(CTX, m2, MLEN, s->ps, pk); unsigned c = v ? L : 2u * n + 7; execs++;
        for (unsigned p = 0; p < L; p += c) { calls++; ts_update_verify(exps + p, c < L - p ? c : L - p, CTX); }
        int r = ts_verify(CTX); if (v == 1) exps[off] ^= 0x10; if (r != w) viol("%s: verdict %d in this configuration for %s", s->name, r, v == 0 ? "a genuine signature" : v == 1 ? "a signature with one bit altered" : "another message");
    }
    gfree(sk, 4 * n, 1); gfree(sig, L, 1); gfree(exps, L, 1); gfree(pk, 2 * n, 1); gfree(sk2, 4 * n, 1);
}
static int part_of(struct tset *s) { return s->real ? (s->r.fam == FAM_SHA2) : s->r.fam != FAM_ABS ? 2 : s->r.mh > 6 ? 3 + (s->r.n > 16) : 2; }
static void all(void (*f)(struct tset *), int part) {
    for (int i = 0; i < NSETS; i++) if (part_of(&SETS[i]) == part) f(&SETS[i]);
    for (int i = 0; i < NTOYS; i++) if (part_of(&TOYS[i]) == part) f(&TOYS[i]);
    for (int i = 0; i < NABST; i++) if (part_of(&ABST[i]) == part) f(&ABST[i]);
}
static int have; static void inc(struct tset *s) { (void)s; have++; }
void list_jobs(void) {
    if (getenv("VP_EXPECT")) {
        for (int i = 0; i < NSETS; i++) job_line("expect:%s %d", SETS[i].name, SETS[i].r.mh);
        for (int i = 0; i < NTOYS; i++) job_line("expect:%s 1", TOYS[i].name);
        for (int i = 0; i < NABST; i++) job_line("expect:%s 1", ABST[i].name);
        return;
    }
    for (int p = 0; p < 5; p++) { have = 0; all(inc, p); if (have) job_line("config:%d %d", p, p == 0 && TS_SHAKE256_OPT == 2 ? 50 : 5); }
}
void run_job(const char *job) {
    int part; char nm[64];
    if (sscanf(job, "expect:%63s", nm) == 1) { expect(set_by_name(nm)); return; }
    if (sscanf(job, "config:%d", &part) != 1) exit(3);
    all(test, part); STATES(outs.n); TRANS(calls); EXECS(execs); stat_add("set_config_pairs", sets);
    sample("L5=%d L3=%d SHAKE=%d SHA2=%d S=%d SHA2_OPT=%d SHAKE_OPT=%d: %llu sets agree with the reference", TS_SUPPORT_L5, TS_SUPPORT_L3, TS_SUPPORT_SHAKE, TS_SUPPORT_SHA2, TS_SUPPORT_S, TS_SHA2_OPTIMIZATION, TS_SHAKE256_OPT, (unsigned long long)sets);
}
