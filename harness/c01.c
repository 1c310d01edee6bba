/* C01: key generation equals the specification's, for enumerated seeds, with and without a public key buffer */
#include "common.h"
static u8 *skb[2], *pkb[2]; static int n; static struct tset *S; static u64 ncases;
static u8 SD[96]; static size_t rpos; static int rcalls;
static int rng(unsigned char *p, size_t k) { rcalls++; for (size_t i = 0; i < k; i++) p[i] = rpos + i < 96 ? SD[rpos + i] : 0xBD; rpos += k; return 1; }
static void one(const u8 *seed, const char *what) {
    u8 exp[128]; ref_keygen(&S->r, seed, exp); memcpy(SD, seed, 3 * n);
    for (int v = 0; v < 3; v++) {          /* no public key; with; with, buffers flush to the start of a page */
        int side = v == 2; u8 *sk = skb[side], *pk = pkb[side];
        cur("keygen case %ld variant %ld", ncases, v, 0, 0);
        memset(sk, 0x77, 4 * n); memset(pk, 0x99, 2 * n); rpos = 0; rcalls = 0;
        int r = ts_gen_key(sk, v ? pk : 0, S->ps, rng); ncases++;
        if (r != 1) viol("%s: ts_gen_key returned %d with a working random source (seed %s %s)", S->name, r, what, hex(seed, 3 * n));
        if (rpos != (size_t)(3 * n)) viol("%s: ts_gen_key asked for %zu random bytes instead of %d", S->name, rpos, 3 * n);
        if (memcmp(sk, exp, 4 * n)) { int q = 0; while (sk[q] == exp[q]) q++; viol("%s: private key differs from the specification's at byte %d of %d (%s public key buffer, seed %s %s)", S->name, q, 4 * n, v ? "with" : "no", what, hex(seed, 3 * n)); }
        if (v && memcmp(pk, exp + 2 * n, 2 * n)) { int q = 0; while (pk[q] == exp[2 * n + q]) q++; viol("%s: public key differs from PK.seed||PK.root at byte %d (seed %s %s)", S->name, q, what, hex(seed, 3 * n)); }
        if (!v) for (int q = 0; q < 2 * n; q++) if (pk[q] != 0x99) viol("%s: wrote to a public key buffer that was not passed", S->name);
    }
}
void list_jobs(void) {
    for (int i = 0; i < NSETS; i++) job_line("parts:%s:0 %d", SETS[i].name, SETS[i].r.mh > 6 ? 60 : 5);
    for (int i = 0; i < NTOYS; i++) for (int q = 0; q < 3; q++) job_line("bytes:%s:%d 10", TOYS[i].name, q);
    for (int i = 0; i < NABST; i++) { if (ABST[i].r.d < 7) for (int q = 0; q < 3; q++) job_line("bytes:%s:%d 5", ABST[i].name, q); else job_line("parts:%s:0 8", ABST[i].name); }
}
void run_job(const char *job) {
    char kind[16], name[40]; int part; if (sscanf(job, "%15[^:]:%39[^:]:%d", kind, name, &part) != 3) exit(3);
    S = set_by_name(name); if (!S) exit(3); n = S->r.n; u8 seed[96];
    for (int i = 0; i < 2; i++) { skb[i] = gbuf(4 * n, !i); pkb[i] = gbuf(2 * n, !i); }
    struct seen out = { 0 };
    if (!strcmp(kind, "parts")) {
        /* each third of the seed: zero, all ones, counting, or equal to the first third */
        int slow = S->real && S->r.mh > 6, lim = slow ? (tier_thorough ? 27 : 4) : 64, step = 0;
        for (int c = 0; c < 64; c++) {
            if (slow && !tier_thorough && c != 0 && c != 21 && c != 42 && c != 59) continue;
            if (step++ >= lim) break;
            for (int p = 0; p < 3; p++) { int m = (c >> (2 * p)) & 3; for (int i = 0; i < n; i++) seed[p * n + i] = m == 0 ? 0 : m == 1 ? 0xff : m == 2 ? p * n + i : (p ? seed[i] : 0x80 ^ i); }
            one(seed, "parts"); seen_add(&out, hash64(skb[0], 4 * n, 1), hash64(skb[0], 4 * n, 2));
        }
    } else {
        static const u8 few[] = { 0, 1, 2, 4, 8, 16, 32, 64, 128, 255, 254, 127, 15, 240 };
        int all = tier_thorough || (S->r.fam == FAM_ABS && n == 16), nv = all ? 256 : (int)sizeof few;
        for (int pos = part * n; pos < (part + 1) * n; pos++) for (int b = 0; b < (all ? 2 : 1); b++) for (int v = 0; v < nv; v++) {
            if (b) memset(seed, 0, sizeof seed); else fill(seed, 3 * n, 41);
            seed[pos] = all ? v : few[v];
            one(seed, "bytes"); seen_add(&out, hash64(skb[0], 4 * n, 1), hash64(skb[0], 4 * n, 2));
        }
    }
    STATES(out.n); TRANS(ncases); EXECS(ncases / 3);
    sample("%s: %s of seed part %d: %llu key generations, %zu distinct keys; last seed %s -> root %s", S->name, kind, part, (unsigned long long)ncases, out.n, hex(seed, 3 * n), hex(skb[0] + 3 * n, n));
}
