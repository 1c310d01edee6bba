/* C02: whole signatures equal the specification's, over enumerated keys, randomizers and messages */
#include "common.h"
static struct tset *S; static int n; static u64 cnt, digits_seen[16]; static u8 *sig, *exps; static unsigned L; static struct seen out;
static void one(const u8 *sk, const u8 *opt, const u8 *msg, size_t len) {
    cur("sign: case %ld, message of %ld bytes, %ld", cnt, (long)len, opt != 0, 0);
    ref_sign(&S->r, sk, opt, msg, len, exps);
    memset(CTX, 0xC3, sizeof *CTX); memset(sig, 0x5A, L);
    impl_sign_all(S, CTX, sk, msg, len, opt, sig); cnt++;
    if (memcmp(sig, exps, L)) {
        unsigned q = 0; while (sig[q] == exps[q]) q++; unsigned b = q / n; const char *where = b == 0 ? "R" : b < 1u + S->r.k * (S->r.t + 1) ? "FORS" : "hypertree";
        unsigned hb = b - 1 - S->r.k * (S->r.t + 1), per = 2 * n + 3 + S->r.mh;
        char w[64] = ""; if (*where == 'h') snprintf(w, sizeof w, " layer %u %s %u", hb / per, hb % per < 2u * n + 3 ? "chain" : "auth", hb % per < 2u * n + 3 ? hb % per : hb % per - 2 * n - 3);
        viol("%s: signature differs from the specification's at byte %u (element %u: %s%s); %s randomizer %s, message of %zu bytes %s, key %s", S->name, q, b, where, w, opt ? "given" : "deterministic", opt ? hex(opt, n) : "", len, hex(msg, len), hex(sk, 3 * n));
    }
    seen_add(&out, hash64(sig, L, 1), hash64(sig, L, 2));
}
void list_jobs(void) {
    for (int i = 0; i < NSETS; i++) { int Sx = SETS[i].r.mh > 6; for (int q = 0; q < (Sx ? 2 : 1) * (tier_thorough ? 8 : 1); q++) job_line("real:%s:%d %d", SETS[i].name, q, Sx ? 100 : 20); }
    for (int i = 0; i < NTOYS; i++) for (int q = 0; q < 4; q++) job_line("toy:%s:%d 10", TOYS[i].name, q);
    for (int i = 0; i < NEXTS; i++) job_line("ext:%s:0 30", EXTS[i].name);
    for (int i = 0; i < NABST; i++) if (ABST[i].r.d < 7) for (int q = 0; q < 2; q++) job_line("abs:%s:%d 10", ABST[i].name, q);
}
void run_job(const char *job) {
    char kind[16], name[40]; int q; if (sscanf(job, "%15[^:]:%39[^:]:%d", kind, name, &q) != 3) exit(3);
    S = set_by_name(name); if (!S) exit(3); n = S->r.n; L = ref_sig_len(&S->r); sig = gbuf(L, 1); exps = malloc(L);
    u8 *sk = gbuf(4 * n, 1), opt[32], seed[96], msg[512];
    if (*kind == 'r') {
        int slow = S->r.mh > 6;
        for (int c = 0; c < (slow ? 1 : 6); c++) {
            int id = slow ? q : q * 6 + c; key_for(S, 100 + id, sk); fill(opt, n, id); fill(msg, sizeof msg, id);
            static const int lens[] = { 0, 3, 57, 200, 136, 64, 128, 511 }; int det = id % 3 == 0;
            if (id % 6 == 4) memset(opt, 0, n);
            if (id % 6 == 5) memset(opt, 0xff, n);
            one(sk, det ? 0 : opt, msg, lens[id % 8]);
        }
    } else if (*kind == 't') {
        /* keys: each third zero / ones / pattern; randomizers: none, zero, ones, pattern; messages: lengths 0..n */
        for (int c = 0; c < 27; c++) {
            if (c % 4 != q) continue;
            for (int p = 0, x = c; p < 3; p++, x /= 3) { if (x % 3 == 2) fill(seed + p * n, n, p + 7); else memset(seed + p * n, x % 3 ? 0xff : 0, n); }
            ref_keygen(&S->r, seed, sk);
            for (int o = 0; o < 4; o++) for (int m = 0; m < (tier_thorough ? 40 : 5); m++) {
                fill(msg, sizeof msg, 50 + m); memset(opt, o == 1 ? 0 : 0xff, n); if (o == 3) fill(opt, n, 8);
                one(sk, o ? opt : 0, msg, m == 0 ? 0 : 3 * m + 1);
            }
        }
    } else if (*kind == 'e') {
        /* until every value of the WOTS+ checksum has been signed */
        int all = 30 * n + 1, met = 0, m; memset(ref_csums, 0, sizeof ref_csums); key_for(S, 1, sk);
        for (m = 0; m < (S->r.mh > 1 ? tier_thorough ? 3000 : 60 : 6000) && (met < all || tier_thorough); m++) {
            if (m % 5 == 0) key_for(S, m + 1, sk);
            fill(msg, 32, m); fill(opt, n, 3); memcpy(opt, &m, 4); one(sk, (m & 3) ? opt : 0, msg, m % 33);
            if (m % 20 == 19) { met = 0; for (int v = 0; v < all; v++) met += ref_csums[v] != 0; }
        }
        if (met < all && S->r.mh == 1) note_capped("not every checksum value occurred"); stat_add("checksums", met);
    } else {
        key_for(S, q + 1, sk); fill(opt, n, 3);
        int N = tier_thorough ? 60000 : 3000;
        for (int m = 0; m < N; m++) { fill(msg, 32, 7); msg[0] = m >> 8; msg[1] = m; msg[2] = q; memcpy(opt, msg, 2); one(sk, (m & 3) ? opt : 0, msg, 24 + m % 3); }
    }
    STATES(out.n); TRANS(2 * cnt); EXECS(cnt);
    sample("%s: %llu signatures compared in full (%u bytes each), %zu distinct; last: message %s", S->name, (unsigned long long)cnt, L, out.n, hex(msg, 24));
}
