/*
 * C11: the random source.  Every outcome of every call of it: missing, failing after writing any number of bytes
 * at any of its calls, delivering; key generation and signing.  Calls outside keygen / signing start are errors.
 */
#include "common.h"
static struct tset *S; static int n, L; static u64 cnt, calls; static struct seen outs;
static int armed, ncall, fail_call, fail_after; static size_t asked; static u8 data[1024]; static size_t lens[64];
static int rng(unsigned char *p, size_t k) {
    if (!armed) viol("%s: the random function is called outside key generation / signing start", S->name);
    if (ncall < 64) lens[ncall] = k;
    int i = ncall++;
    if (i == fail_call) { for (size_t j = 0; j < k && (int)j < fail_after; j++) p[j] = 0xE0 ^ j; asked += k; return 0; }
    for (size_t j = 0; j < k; j++) p[j] = asked + j < sizeof data ? data[asked + j] : 0;
    asked += k; return 1;
}
static void arm(int fc, int fa) { armed = 1; ncall = 0; asked = 0; fail_call = fc; fail_after = fa; }
static void finish_sign(u8 *sig, const u8 *exp, unsigned upto, const char *what, int a, int b) {
    for (unsigned p = 0; p < upto;) { unsigned k = p ? upto - p : (unsigned)n; calls++; if (k > upto - p) k = upto - p; if (ts_sign(sig + p, k, CTX) != k) viol("%s: %s (%d,%d): the signature ends early", S->name, what, a, b); p += k; }
    if (memcmp(sig, exp, upto)) { unsigned q = 0; while (sig[q] == exp[q]) q++; viol("%s: %s (call %d, %d bytes written): signature differs at byte %u (%s) from the one expected (%s)", S->name, what, a, b, q, hex(sig, n), hex(exp, n)); }
}
void list_jobs(void) {
    for (int i = 0; i < NSETS; i++) for (int q = 0; q < 2; q++) job_line("%s:%s:0 %d", q ? "sign" : "gen", SETS[i].name, SETS[i].r.mh > 6 ? 50 : 15);
    for (int i = 0; i < NTOYS; i++) for (int q = 0; q < 2; q++) job_line("%s:%s:0 10", q ? "sign" : "gen", TOYS[i].name);
    for (int i = 0; i < NABST; i++) for (int q = 0; q < 2; q++) job_line("%s:%s:0 8", q ? "sign" : "gen", ABST[i].name);
}
void run_job(const char *job) {
    char kind[16], name[40]; int part; if (sscanf(job, "%15[^:]:%39[^:]:%d", kind, name, &part) != 3) exit(3);
    S = set_by_name(name); if (!S) exit(3); n = S->r.n; L = ref_sig_len(&S->r); int slow = S->r.mh > 6 && S->real, big = S->r.d >= 7;
    u8 *sk = gbuf(4 * n, 1), *pk = gbuf(2 * n, 1), exp[128], seed[96]; fill(data, sizeof data, 17); memcpy(seed, data, 3 * n);
    if (!strcmp(kind, "gen")) {
        ref_keygen(&S->r, seed, exp);
        for (int w = 0; w < 2; w++) {       /* with and without a public key buffer */
            cur("keygen without random function", 0, 0, 0, 0); memset(sk, 1, 4 * n); calls++; cnt++;
            if (ts_gen_key(sk, w ? pk : 0, S->ps, 0) != 0) viol("%s: key generation without a random source reports success", S->name);
            cur("keygen, working random function", 0, 0, 0, 0); arm(-1, 0); calls++; cnt++;
            int r = ts_gen_key(sk, w ? pk : 0, S->ps, rng); armed = 0;
            if (r != 1) viol("%s: key generation returns %d with a working random source", S->name, r);
            if (asked != (size_t)3 * n) viol("%s: key generation asked for %zu random bytes in %d calls instead of %d", S->name, asked, ncall, 3 * n);
            if (memcmp(sk, exp, 4 * n) || (w && memcmp(pk, exp + 2 * n, 2 * n))) viol("%s: the key is not the one of the delivered random bytes", S->name);
            int nc = ncall; size_t ln[64]; memcpy(ln, lens, sizeof ln);
            for (int c = 0; c < nc; c++) for (size_t j = 0; j <= ln[c]; j += slow && !tier_thorough ? ln[c] : 1) {
                cur("keygen, random function fails at call %ld after writing %ld bytes", c, j, 0, 0); arm(c, j); memset(sk, 0x10, 4 * n); calls++; cnt++;
                r = ts_gen_key(sk, w ? pk : 0, S->ps, rng); armed = 0;
                if (r != 0) viol("%s: key generation returns %d although the random source failed at call %d (%zu bytes written)", S->name, r, c, j);
                seen_add(&outs, hash64(sk, 4 * n, 1), j);
                if (j % 16 == 0 && !slow) {   /* and a retry with a working source succeeds */
                    arm(-1, 0); calls++; cnt++; r = ts_gen_key(sk, w ? pk : 0, S->ps, rng); armed = 0;
                    if (r != 1 || memcmp(sk, exp, 4 * n) || asked != (size_t)3 * n) viol("%s: key generation after a failed attempt: returned %d", S->name, r);
                    seen_add(&outs, hash64(sk, 4 * n, 1), 0);
                }
            }
            /* contents of the delivered bytes must not matter for success: all zero, all ones, equal thirds */
            for (int m = 0; m < 3 && !slow; m++) {
                cur("keygen, special random bytes %ld", m, 0, 0, 0); for (int i = 0; i < 3 * n; i++) data[i] = m == 0 ? 0 : m == 1 ? 0xff : i % n;
                u8 e2[128]; memcpy(seed, data, 3 * n); ref_keygen(&S->r, seed, e2); arm(-1, 0); calls++; cnt++; r = ts_gen_key(sk, w ? pk : 0, S->ps, rng); armed = 0;
                if (r != 1 || memcmp(sk, e2, 4 * n) || asked != (size_t)3 * n) viol("%s: random bytes all %s: returned %d, %zu bytes asked", S->name, m == 0 ? "zero" : m == 1 ? "ones" : "repeating", r, asked);
                fill(data, sizeof data, 17); seen_add(&outs, hash64(sk, 4 * n, 1), 0);
            }
        }
    } else {
        u8 *det = malloc(L), *rnd = malloc(L), *sig = gbuf(L, 1), msg[40]; size_t len = 31; fill(msg, 40, 2); key_for(S, 61, sk); unsigned upto = slow ? n : L;
        if (slow) { ref_prf_msg(&S->r, sk, sk + 2 * n, msg, len, det); ref_prf_msg(&S->r, sk, data, msg, len, rnd); }
        else { ref_sign(&S->r, sk, 0, msg, len, det); ref_sign(&S->r, sk, data, msg, len, rnd); }
        cur("signing without random function", 0, 0, 0, 0); memset(CTX, 1, sizeof *CTX); ts_init_sign(CTX, msg, len, S->ps, sk, 0); calls++; cnt++; finish_sign(sig, det, upto, "no random source", 0, 0);
        cur("signing, working random function", 0, 0, 0, 0); arm(-1, 0); memset(CTX, 2, sizeof *CTX); ts_init_sign(CTX, msg, len, S->ps, sk, rng); armed = 0; calls++; cnt++;
        if (asked != (size_t)n) viol("%s: signing asked for %zu random bytes instead of %d", S->name, asked, n);
        int nc = ncall; size_t ln[64]; memcpy(ln, lens, sizeof ln); finish_sign(sig, rnd, upto, "working random source", 0, 0);
        for (int c = 0; c < nc; c++) for (size_t j = 0; j <= ln[c]; j++) {
            if (S->real && !tier_thorough && j % 8 && j != 1) continue;
            cur("signing, random function fails at call %ld after writing %ld bytes", c, j, 0, 0); memset(CTX, j, sizeof *CTX);
            arm(c, j); ts_init_sign(CTX, msg, len, S->ps, sk, rng); armed = 0; calls++; cnt++;
            if (asked > (size_t)n) viol("%s: signing asked for %zu random bytes", S->name, asked);
            finish_sign(sig, det, !big || j == 0 || j == ln[c] || tier_thorough ? upto : (unsigned)n, "failing random source: not the deterministic signature", c, j);
            seen_add(&outs, hash64(sig, n, 1), j + 1);
        }
        /* every byte of the randomizer is used, with every value: R */
        u8 R[32];
        for (int pos = 0; pos < n; pos++) for (int v = 0; v < 256; v += big || S->r.fam != FAM_ABS ? 51 : 1) for (int z = 0; z < 2; z++) {
            if (z) memset(data, 0, n); else fill(data, sizeof data, 17);
            data[pos] = v; cur("signing, randomizer byte %ld = %ld", pos, v, 0, 0); ref_prf_msg(&S->r, sk, data, msg, len, R);
            arm(-1, 0); ts_init_sign(CTX, msg, len, S->ps, sk, rng); armed = 0; calls++; cnt++; if (asked != (size_t)n) viol("%s: signing asked for %zu random bytes instead of %d", S->name, asked, n);
            finish_sign(sig, R, n, "randomizer bytes not used as delivered", pos, v); seen_add(&outs, hash64(sig, n, 1), 0);
        }
    }
    STATES(outs.n); TRANS(calls); EXECS(cnt);
    sample("%s of %s: %llu operations with enumerated random-source outcomes, %zu distinct outcomes; last random call asked %zu bytes", kind, S->name, (unsigned long long)cnt, outs.n, lens[0]);
}
