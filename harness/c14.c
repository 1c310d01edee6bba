/* C14: reported sizes = the specification's = what key generation writes, the signer delivers, the verifier needs */
#include "common.h"
static const struct { const char *nm; unsigned sk, pk, sig; } SPEC[] = {
    { "128f", 64, 32, 17088 }, { "128s", 64, 32, 7856 }, { "192f", 96, 48, 35664 }, { "192s", 96, 48, 16224 }, { "256f", 128, 64, 49856 }, { "256s", 128, 64, 29792 } };
static u64 calls;
static u8 seed[96]; static int rng(unsigned char *p, size_t k) { for (size_t i = 0; i < k; i++) p[i] = i < 96 ? seed[i] : 0; return 1; }
static void want(struct tset *s, unsigned *sk, unsigned *pk, unsigned *sig) {
    int n = s->r.n; *sk = 4 * n; *pk = 2 * n; *sig = n * (1 + s->r.k * (s->r.t + 1) + s->r.h + s->r.d * (2 * n + 3));
    if (s->real) for (int i = 0; i < 6; i++) if (strstr(s->name, SPEC[i].nm)) { if (*sk != SPEC[i].sk || *pk != SPEC[i].pk || *sig != SPEC[i].sig) { printf("spec table broken\n"); exit(3); } }
}
static void sizes(struct tset *s) {
    unsigned a, b, c; want(s, &a, &b, &c); calls += 3;
    if (ts_size_private_key(s->ps) != a) viol("%s: reported private key size %u, specification %u", s->name, ts_size_private_key(s->ps), a);
    if (ts_size_public_key(s->ps) != b) viol("%s: reported public key size %u, specification %u", s->name, ts_size_public_key(s->ps), b);
    if (ts_size_signature(s->ps) != c) viol("%s: reported signature size %u, specification %u", s->name, ts_size_signature(s->ps), c);
}
void list_jobs(void) {
    job_line("grid:all:0 1");
    for (int i = 0; i < NSETS; i++) job_line("set:%s:0 %d", SETS[i].name, SETS[i].r.mh > 6 ? 60 : 10);
    for (int i = 0; i < NTOYS; i++) job_line("set:%s:0 5", TOYS[i].name);
    for (int i = 0; i < NABST; i++) job_line("set:%s:0 5", ABST[i].name);
}
void run_job(const char *job) {
    char kind[16], name[40]; int part; if (sscanf(job, "%15[^:]:%39[^:]:%d", kind, name, &part) != 3) exit(3);
    if (*kind == 'g') {     /* the size functions on every structure a parameter set could have */
        struct tset s; u64 c = 0; static const int ns[] = { 16, 24, 32 };
        for (int a = 0; a < 3; a++) for (int k = 1; k <= 35; k++) for (int t = 1; t <= 14; t++) for (int d = 1; d <= 24; d++) for (int mh = 1; mh <= 9; mh++) {
            if (d * mh > 255) continue;
            cur("structure n=%ld k=%ld t=%ld d=%ld", ns[a], k, t, d); if (!mk_set(&s, "grid", FAM_ABS, ns[a], k, t, d, mh, 0, 0)) continue; sizes(&s); c++;
        }
        for (int i = 0; i < NSETS; i++) sizes(&SETS[i]);
        STATES(c); TRANS(calls); EXECS(c + NSETS); sample("%llu parameter structures, sizes equal the formula", (unsigned long long)c); return;
    }
    struct tset *s = set_by_name(name); if (!s) exit(3); int n = s->r.n; unsigned a, b, L; want(s, &a, &b, &L); sizes(s);
    /* key generation writes exactly that much: two runs over different canvases show which bytes were written */
    u8 *sk[2], *pk[2]; cur("key generation", 0, 0, 0, 0); fill(seed, 96, 5);
    for (int v = 0; v < 2; v++) { sk[v] = gbuf(a + 64, 1); pk[v] = gbuf(b + 64, 1); memset(sk[v], v ? 0xff : 0, a + 64); memset(pk[v], v ? 0xff : 0, b + 64); calls++; if (ts_gen_key(sk[v] + 32, pk[v] + 32, s->ps, rng) != 1) viol("%s: key generation fails", s->name); }
    for (unsigned i = 0; i < a + 64; i++) { int w = sk[0][i] == sk[1][i], e = i >= 32 && i < 32 + a; if (w != e) viol("%s: key generation %s byte %d of the private key (size %u)", s->name, w ? "wrote" : "did not write", (int)i - 32, a); }
    for (unsigned i = 0; i < b + 64; i++) { int w = pk[0][i] == pk[1][i], e = i >= 32 && i < 32 + b; if (w != e) viol("%s: key generation %s byte %d of the public key (size %u)", s->name, w ? "wrote" : "did not write", (int)i - 32, b); }
    /* the signer delivers exactly that much */
    u8 *sig = gbuf(L + 4 * n, 1), *k = sk[0] + 32; u64 runs = 0; unsigned ch[] = { L + 3 * (unsigned)n, (unsigned)n + 1, (unsigned)n * 5, 1, 255 }; int slow = s->real && s->r.mh > 6;
    for (int c = 0; c < (slow ? 1 : s->real ? 2 : 5); c++) {
        cur("signing in requests of %ld", ch[c], 0, 0, 0); unsigned tot = 0, g; ts_init_sign(CTX, "abc", 3, s->ps, k, 0); runs++;
        while ((g = ts_sign(sig + tot, ch[c] > L + 2 * n - tot ? L + 2 * n - tot : ch[c], CTX)) != 0) { calls++; tot += g; if (tot > L + n) break; }
        if (tot != L) viol("%s: the signer delivered %u bytes before reporting the end, the signature size is %u", s->name, tot, L);
    }
    /* the verifier needs exactly that much: success at every length up to L + 2n */
    for (int c = 0; c < 2; c++) {
        cur("verifying in pieces of %ld", c ? n : 1, 0, 0, 0); ts_init_verify(CTX, "abc", 3, s->ps, pk[0] + 32); runs++; u8 z[64] = { 0 };
        for (unsigned p = 0; p < L + 2 * n;) { calls += 2; if ((ts_verify(CTX) != 0) != (p == L)) viol("%s: verdict %d after %u bytes, the signature size is %u", s->name, p != L, p, L); unsigned m = c ? n : 1; if (p < L) ts_update_verify(sig + p, m, CTX); else ts_update_verify(z, m, CTX); p += m; }
    }
    STATES(L); TRANS(calls); EXECS(runs + 2); sample("%s: sk %u pk %u sig %u; delivered and needed exactly %u", s->name, a, b, L, L);
}
