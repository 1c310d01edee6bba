/*
 * C16 (and, compiled with -DC17, C17): forced message digests.  hash_msg is replaced by one that returns the message,
 * so the digest is enumerated directly.
 * C16: signature = the reference's for that digest; verification accepts it, and accepts it for a digest with one bit
 *      changed exactly when the reference does.
 * C17: for one private key, the map position -> revealed value is a function and injective, over all signatures.
 */
#include "common.h"
static struct tset *S, FT; static int n, L, dl; static u64 cnt, calls; static u8 *sk, *sig, *exps, R0[32]; static struct seen outs;
#ifndef VP_PLAIN
static void f_hash_msg(unsigned char *out, size_t outlen, const unsigned char *R, const unsigned char *msg, size_t len, struct ts_context *c) { (void)R; (void)c; HC.msg++; for (size_t i = 0; i < outlen; i++) out[i] = i < len ? msg[i] : 0; }
static void f_prf_msg(unsigned char *out, const unsigned char *opt, const unsigned char *msg, size_t len, struct ts_context *c) { (void)msg; (void)len; (void)c; memcpy(out, opt, n); }
#endif
static struct ts_context *RES;     /* what the context holds when signing starts (0: fill bytes) */
static int ASMSG;      /* the digests are those of real messages: the published sets themselves */
static void sign(const u8 *dg, size_t len, unsigned chunk) {
    memcpy(RNG_bytes, R0, n); RNG_pos = 0; if (RES) memcpy(CTX, RES, sizeof *CTX); else memset(CTX, 0x29, sizeof *CTX); ts_init_sign(CTX, dg, len, S->ps, sk, rng_fixed); calls++;
    for (unsigned p = 0; p < (unsigned)L; p += chunk) { unsigned k = chunk < L - p ? chunk : L - p; calls++; if (ts_sign(sig + p, k, CTX) != k) viol("%s: digest %s: the signature ends at %u", S->name, hex(dg, dl), p); }
}
static int verify(const u8 *dg, size_t len, const u8 *sg, unsigned chunk) {
    memset(CTX, 0x92, sizeof *CTX); ts_init_verify(CTX, dg, len, S->ps, sk + 2 * n); for (unsigned p = 0; p < (unsigned)L; p += chunk) { calls++; ts_update_verify(sg + p, chunk < L - p ? chunk : L - p, CTX); } return ts_verify(CTX);
}
#ifndef C17
static void one(const u8 *dg0, int full, int flips) {
    if (ASMSG) {
        u8 d2[64]; size_t l = 24; cnt++; cur("message number %ld", cnt, 0, 0, 0); sign(dg0, l, cnt % 2 ? L : 3 * n + 1); seen_add(&outs, hash64(sig, L, 1), 1); ref_hash_msg(&S->r, sk + 2 * n, sig, dg0, l, d2, dl);
        if (full) { ref_sign(&S->r, sk, R0, dg0, l, exps); if (memcmp(sig, exps, L)) viol("%s: digest %s: the signature differs from the specification's", S->name, hex(d2, dl)); }
        else if (!ref_verify_digest(&S->r, sk + 2 * n, d2, sig)) viol("%s: digest %s: the signature is not valid for the specified position", S->name, hex(d2, dl));
        if (verify(dg0, l, sig, cnt % 3 ? L : n) != 1) viol("%s: digest %s: the own signature is rejected", S->name, hex(d2, dl));
        return;
    }
    u8 dg[64]; memcpy(dg, dg0, 64); size_t len = 49; cnt++;
    cur("digest number %ld", cnt, 0, 0, 0); sign(dg, len, cnt % 2 ? L : 3 * n + 1);
    seen_add(&outs, hash64(sig, L, 1), 1);
    if (full) { ref_sign_digest(&S->r, sk, R0, dg, exps); if (memcmp(sig, exps, L)) { int q = 0; while (sig[q] == exps[q]) q++; int e = q / n; viol("%s: digest %s: the signature differs from the specification's at byte %d (element %d, %s)", S->name, hex(dg, dl), q, e, e < 1 ? "R" : e <= S->r.k * (S->r.t + 1) ? "FORS" : "hypertree"); } }
    else if (!ref_verify_digest(&S->r, sk + 2 * n, dg, sig)) viol("%s: digest %s: the signature is not valid for the specified position", S->name, hex(dg, dl));
    if (verify(dg, len, sig, cnt % 3 ? L : n) != 1) viol("%s: digest %s: the own signature is rejected", S->name, hex(dg, dl));
    /* the same signature for digests with one bit changed */
    if (flips) for (int b = 0; b < 49 * 8; b += flips) { u8 d2[64]; memcpy(d2, dg, 64); d2[b / 8] ^= 1 << b % 8; cur("digest number %ld, bit %ld changed", cnt, b, 0, 0); int v = verify(d2, len, sig, L), w = ref_verify_digest(&S->r, sk + 2 * n, d2, sig); cnt++; if (v != w) viol("%s: signature for digest %s checked with digest bit %d changed: verdict %d, the specification's %d", S->name, hex(dg, dl), b, v, w); }
}
#else
/* position -> value, and value -> position */
struct ent { u64 k1, k2, v1, v2; }; static struct ent *M1, *M2; static size_t mcap, mn;
static struct ent *slot(struct ent *t, u64 a, u64 b, int byval) { size_t i = (a ^ b * 0x9E3779B97F4A7C15ULL) & (mcap - 1); for (;; i = (i + 1) & (mcap - 1)) { struct ent *e = &t[i]; if (!e->k1 && !e->k2) return e; if (byval ? e->v1 == a && e->v2 == b : e->k1 == a && e->k2 == b) return e; } }
static void learn(u64 kind, u64 a, u64 tree, u64 b, u64 c, const u8 *val, int secret, const char *what) {
    u64 key[5] = { kind, a, tree, b, c }; u64 k1 = hash64(key, sizeof key, 1) | 1, k2 = hash64(key, sizeof key, 2), v1 = hash64(val, n, 1), v2 = hash64(val, n, 2);
    if (2 * mn > mcap) { fprintf(stderr, "map full\n"); exit(3); }
    struct ent *e = slot(M1, k1, k2, 0);
    if (e->k1) { if (e->v1 != v1 || e->v2 != v2) viol("%s: two different values for the same position: %s (layer or FORS tree %llu, hypertree tree %llu, leaf %llu, index %llu)", S->name, what, (unsigned long long)a, (unsigned long long)tree, (unsigned long long)b, (unsigned long long)c); }
    else { *e = (struct ent){ k1, k2, v1, v2 }; mn++; }
    if (secret) { e = slot(M2, v1, v2, 1); if (e->k1) { if (e->k1 != k1 || e->k2 != k2) viol("%s: the same secret value for two positions: %s (layer or FORS tree %llu, hypertree tree %llu, leaf %llu, index %llu)", S->name, what, (unsigned long long)a, (unsigned long long)tree, (unsigned long long)b, (unsigned long long)c); } else *e = (struct ent){ k1, k2, v1, v2 }; }
}
static void one(const u8 *dg, int full, int flips) {
    (void)full; (void)flips; u8 dm[64]; cnt++; cur("digest number %ld", cnt, 0, 0, 0); sign(dg, ASMSG ? 24 : 49, cnt % 2 ? L : 2 * n + 1); if (ASMSG) { ref_hash_msg(&S->r, sk + 2 * n, sig, dg, 24, dm, dl); dg = dm; } seen_add(&outs, hash64(sig, L, 1), 1);
    unsigned fi[64]; u64 tree; unsigned leaf; ref_position(&S->r, dg, fi, &tree, &leaf); const u8 *p = sig + n; u64 tr = tree; unsigned lf = leaf;
    for (int i = 0; i < S->r.k; i++) {
        learn(1, i, tree, leaf, fi[i], p, 1, "FORS secret"); p += n;
        for (int h = 0; h < S->r.t; h++, p += n) learn(2, ((u64)i << 8) | h, tree, leaf, (fi[i] >> h) ^ 1, p, 0, "FORS tree node");
    }
    for (int l = 0; l < S->r.d; l++) {
        for (int c = 0; c < 2 * n + 3; c++, p += n) learn(3, l, tr, lf, c, p, 1, "WOTS+ chain value");
        for (int h = 0; h < S->r.mh; h++, p += n) learn(4, l, tr, h, (lf >> h) ^ 1, p, 0, "hypertree node");
        lf = tr & ((1u << S->r.mh) - 1); tr >>= S->r.mh;
    }
}
#endif
static void set_bits(u8 *d, int off, int len, u64 v) {   /* little end of the bit string is the low bit of byte 0 (FORS) */ for (int i = 0; i < len; i++) { int b = off + i; d[b / 8] &= ~(1 << b % 8); d[b / 8] |= (v >> i & 1) << b % 8; } }
static int half = -1; static u64 hc;   /* quick tier, S sets: the two address layouts share the digests between them */
static void pick(const u8 *d, int full, int flips) { if (half >= 0 && (int)(hc++ & 1) != half) return; one(d, full, flips); }
static int slow_; static int fl(void) { static int c; return !slow_ && (tier_thorough || S->r.n < 32 || c++ % 2); }
static int forsbytes, treebits, treebytes, leafbytes;
static void put_tree(u8 *d, u64 tree) { for (int i = 0; i < treebytes; i++) d[forsbytes + i] = tree >> 8 * (treebytes - 1 - i); }
static void put_leaf(u8 *d, u64 leaf) { for (int i = 0; i < leafbytes; i++) d[forsbytes + treebytes + i] = leaf >> 8 * (leafbytes - 1 - i); }
void list_jobs(void) {
    for (int i = 0; i < NABST; i++) if (ABST[i].r.d >= 7) { int sl = ABST[i].r.mh > 6; for (int q = 0; q < 4; q++) job_line("real:%s:%d %d", ABST[i].name, q, sl ? 100 : 20 + ABST[i].r.n); }
    for (int i = 0; i < NABST; i++) if (ABST[i].r.d < 7 && !(ABST[i].r.absmode & 1)) job_line("all:%s:0 10", ABST[i].name);
    for (int i = 0; i < NSETS; i++) if (SETS[i].r.mh <= 6) for (int q = 0; q < (derived_dropped ? 4 : 1); q++) job_line("msgs:%s:%d 20", SETS[i].name, q);
    for (int i = 0; i < NTOYS; i++) for (int q = 0; q < 4; q++) job_line("toy:%s:%d 30", TOYS[i].name, q);
#ifdef C17
    for (int i = 0; i < NTOYS; i++) job_line("reuse:%s:0 20", TOYS[i].name);
    for (int i = 0; i < NABST; i++) if (ABST[i].r.d < 7 && !(ABST[i].r.absmode & 1)) job_line("reuse:%s:0 10", ABST[i].name);
    for (int i = 0; i < NSETS; i++) if (SETS[i].r.mh <= 6 && (SETS[i].r.n == 16 || derived_dropped)) for (int q = 0; q < 4; q++) job_line("reuse:%s:%d 30", SETS[i].name, q);
#else
    static const char *nm[] = { "128f", "128s", "192f", "192s", "256f", "256s" }; static const int tt[] = { 6, 12, 8, 14, 9, 14 }, nn[] = { 16, 16, 24, 24, 32, 32 };
    if (!derived_dropped) for (int i = 0; i < 6; i++) for (int q = 0; q < (tt[i] > 9 ? 4 : 1); q++) job_line("fors:%d.%d.%s:%d 10", nn[i], tt[i], nm[i], q);
#endif
}
void run_job(const char *job) {
    char kind[16], name[40]; int part; if (sscanf(job, "%15[^:]:%39[^:]:%d", kind, name, &part) != 3) exit(3);
    static struct tset forsset; 
    if (!strcmp(kind, "fors")) { int fn, ft; sscanf(name, "%d.%d", &fn, &ft); if (!mk_set(&forsset, "fors", FAM_ABS, fn, 2, ft, 2, 1, 2, fn == 24)) exit(3); snprintf(forsset.name, sizeof forsset.name, "abs_fors_t%d", ft); S = &forsset; }
    else S = set_by_name(name);
    if (!S) exit(3);
    int reuse = !strcmp(kind, "reuse"); ASMSG = !strcmp(kind, "msgs") || (reuse && S->real);
#ifndef VP_PLAIN
    if (ASMSG) { }
    else if (!strcmp(kind, "toy") || (reuse && S->r.fam != FAM_ABS)) { FT = *S; FT.ps = &FT.buf; FT.buf.hash_msg = f_hash_msg; S = &FT; }
    else if (!(S->r.absmode & 2)) { FT = *S; FT.ps = &FT.buf; FT.r.absmode |= 2; S = &FT; }
    if (!ASMSG) { if (S != &FT) { FT = *S; FT.ps = &FT.buf; S = &FT; } S->buf.prf_msg = f_prf_msg; }
#endif
    n = S->r.n; L = ref_sig_len(&S->r); dl = ref_digest_len(&S->r); sk = gbuf(4 * n, 1); sig = gbuf(L, 1); exps = malloc(L); key_for(S, 91, sk); fill(R0, n, 6);
    forsbytes = (S->r.k * S->r.t + 7) / 8; treebits = S->r.h - S->r.mh; treebytes = (treebits + 7) / 8; leafbytes = (S->r.mh + 7) / 8; if (forsbytes + treebytes + leafbytes != dl) { printf("digest layout\n"); exit(3); }
#ifdef C17
    mcap = 1u << (!strcmp(kind, "real") || ASMSG ? 22 : 18); M1 = calloc(mcap, sizeof *M1); M2 = calloc(mcap, sizeof *M2);
#endif
    int slow = S->r.mh > 6; slow_ = slow; if (slow && !tier_thorough && !strcmp(kind, "real")) half = strstr(S->name, "abs22") != 0;
    u8 d[64]; int real = !strcmp(kind, "real");
    if (reuse) {      /* contexts left behind by a signature or verification of another digest, abandoned at every element */
#ifdef C17
        struct ts_context *snap = malloc(sizeof *snap); int E = L / n; u8 a[64], other[64]; u8 *sa = malloc(L);
        for (int v = 0; v < (S->real ? 1 : 3); v++) for (int e = ASMSG ? part : 0; e <= E; e += ASMSG ? (E - e < 30 ? 4 : 12) : 1) for (int w = 0; w < 2; w++) {
            fill(a, 64, 700 + v); fill(other, 64, 800 + v * 1000 + (S->real ? e % 3 : e * 3 + w)); if (S->real && w && e % 16) continue;
            cur("digest A %ld abandoned after %ld elements (verifying: %ld), then another", v, e, w, 0);
            RES = 0; ts_init_sign(CTX, a, ASMSG ? 24 : 49, S->ps, sk, 0);
            if (w) { unsigned g = ts_sign(sa, L, CTX); (void)g; memset(CTX, 0x11, sizeof *CTX); ts_init_verify(CTX, a, ASMSG ? 24 : 49, S->ps, sk + 2 * n); ts_update_verify(sa, e * n, CTX); }
            else ts_sign(sa, e * n, CTX);
            memcpy(snap, CTX, sizeof *snap); RES = snap; one(other, 0, 0); RES = 0;
        }
        for (int v = 0; v < (S->real ? 1 : 3); v++) { fill(a, 64, 700 + v); one(a, 0, 0); }     /* the abandoned ones, whole */
#endif
    } else if (ASMSG) {      /* random messages under the published sets */
        int N = (tier_thorough ? 200 : derived_dropped ? 12 : 3); for (int i = 0; i < N; i++) { fill(d, 64, 400 + i * 4 + part); one(d, i % 3 == 0, 0); }
    } else if (!strcmp(kind, "fors")) {     /* every leaf index of a FORS tree of the published height */
        int N = 1 << S->r.t, st = tier_thorough || S->r.t < 10 ? 1 : 61; for (int v = part * st; v < N; v += (S->r.t > 9 ? 4 : 1) * st) { memset(d, 0xff, 64); set_bits(d, 0, S->r.t, v); set_bits(d, S->r.t, S->r.t, N - 1 - v); memset(d + forsbytes, v, 2); one(d, 1, 0); }
    } else if (!real) {              /* every digest: all used bits, the unused ones three ways */
        int fb = S->r.k * S->r.t, tot = fb + treebits + S->r.mh; u64 N = 1ull << tot; int toy = *kind == 't';
        for (u64 v = toy ? (u64)part : 0; v < N; v += toy ? 4 : 1) for (int un = 0; un < 3; un++) {
            if (toy && !tier_thorough && un != (int)(v / 4 % 3)) continue;
            memset(d, un == 0 ? 0 : un == 1 ? 0xff : 0x5a, 64); int w = 8 * forsbytes; set_bits(d, 0, fb, v); (void)w;
            u64 t = v >> fb & ((1ull << treebits) - 1), lf = v >> (fb + treebits); u64 ut = un == 0 ? 0 : un == 1 ? ~0ull : 0x5a5a5a5a5a5a5a5aull;
            put_tree(d, t | (ut << treebits)); put_leaf(d, lf | (ut << S->r.mh)); one(d, 1, !toy && un == 0 && v % 37 == 5 ? 1 : toy && v % 50 == 9 ? 7 : 0);
        }
    } else {
        int bits = 49 * 8, c = 0, th = tier_thorough;
        /* a code over the bit positions: digit q of every bit's own number; any two bits, and any dropped bit, differ somewhere */
        for (int q = part; q < 9; q += 4) for (int z = 0; z < 2; z++) { memset(d, 0, 64); for (int b = 0; b < bits; b++) if ((b >> q & 1) ^ z) d[b / 8] |= 1 << b % 8; pick(d, !slow, c++ % 4 == 0 ? (slow ? 41 : 5) : 0); }
        /* walking ones and zeros over every digest bit (used or not) */
        for (int b = part; b < bits; b += 4) { if (!th && (slow ? b / 4 % 24 : b >= dl * 8 && b / 4 % 8)) continue; for (int z = 0; z < 2; z++) { memset(d, z ? 0xff : 0, 64); d[b / 8] ^= 1 << b % 8; pick(d, !slow, !slow && c++ % 150 == 0 ? 5 : 0); } }
        /* leaf indices of the FORS trees (all trees at once, and alternating with the complement) */
        int N = 1 << S->r.t; for (int v = part; v < N; v += slow ? (th ? 97 : 4001) : th || S->r.t < 7 ? 4 : 20) for (int z = 0; z < 2; z++) { fill(d, 64, v); for (int i = 0; i < S->r.k; i++) set_bits(d, i * S->r.t, S->r.t, z && i % 2 ? N - 1 - v : v); pick(d, fl(), 0); }
        /* leaves of the bottom tree with extreme trees */
        for (int v = part; v < (1 << S->r.mh); v += slow ? (th ? 4 : 84) : 4) for (int z = 0; z < 2; z++) { fill(d, 64, 3); put_tree(d, z ? ~0ull : 0); put_leaf(d, v); pick(d, fl(), 0); }
        /* tree indices at every layer: the bits of one layer run through all values */
        for (int l = 0; l < S->r.d - 1; l++) for (int v = part; v < (1 << S->r.mh); v += slow ? (th ? 36 : 300) : 4) { memset(d, 0x11, 64); put_tree(d, (u64)v << (l * S->r.mh)); put_leaf(d, v & 1 ? 0 : (1 << S->r.mh) - 1); pick(d, fl(), 0); }
    }
    STATES(outs.n); TRANS(calls); EXECS(cnt);
#ifdef C17
    stat_add("positions", mn);
    sample("%s: %llu signatures of one key, %zu positions, each with one value; secrets of different positions differ", S->name, (unsigned long long)cnt, mn);
#else
    sample("%s %s: %llu digests signed and verified, last %s", kind, S->name, (unsigned long long)cnt, hex(d, dl));
#endif
}
