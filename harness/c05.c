/*
 * C05: the verifier accepts exactly what the specification's verification accepts.
 * Enumerated: every byte of the signature / public key / message with many or all values, every pair of
 * signature elements swapped or copied, every splice of two genuine signatures, every subset of root bytes,
 * message shortened or lengthened at either end, every other key and parameter set.
 */
#include "common.h"
static struct tset *S; static int n, L; static u64 cnt, calls, acc; static struct seen seen;
static u8 *sk, *pk, *msg, *sig, *t; static size_t len; static u8 *base;
static int opinion;      /* 1: ask the reference model every time; 0: the alteration cannot be accepted (real hashes) */

static int run(const struct tset *s, const u8 *p, const u8 *m, size_t ml, const u8 *sg, unsigned sl, unsigned chunk) {
    memset(CTX, (int)cnt, sizeof *CTX);
    ts_init_verify(CTX, m, ml, s->ps, p); calls++;
    for (unsigned q = 0; q < sl; q += chunk) { unsigned k = chunk < sl - q ? chunk : sl - q; ts_update_verify(sg + q, k, CTX); calls++; }
    int v = ts_verify(CTX); calls++; return v;
}
static void check(const struct tset *s, const u8 *p, const u8 *m, size_t ml, const u8 *sg, unsigned sl, const char *what, int a, int b) {
    static const char *w; w = what; (void)w; cur("alteration %ld (%ld,%ld)", (long)cnt, a, b, 0);
    int want = opinion ? ref_verify(&s->r, p, m, ml, sg, sl) : 0;
    unsigned ch = cnt % 7 == 3 ? (unsigned)n : cnt % 64 == 5 ? 1 : cnt % 7 == 5 ? (unsigned)n + 3 : sl ? sl : 1;
    int v = run(s, p, m, ml, sg, sl, ch);
    if (v && !opinion) want = ref_verify(&s->r, p, m, ml, sg, sl);
    cnt++; acc += want;
    if ((v != 0) != want) viol("%s: %s (%d,%d): verdict %d, the specification's is %d (pieces of %u)", s->name, what, a, b, v, want, ch);
    if (cnt % 16 == 1) seen_add(&seen, hash64(CTX, sizeof *CTX, 1), hash64(CTX, sizeof *CTX, 2));
}
#define SIG(what, a, b) check(S, pk, msg, len, t, L, what, a, b)

void list_jobs(void) {
    for (int i = 0; i < NTOYS; i++) for (int q = 0; q < 8; q++) job_line("bytes:%s:%d 20", TOYS[i].name, q);
    for (int i = 0; i < NTOYS; i++) { job_line("blocks:%s:0 20", TOYS[i].name); job_line("keymsg:%s:0 15", TOYS[i].name); job_line("splice:%s:0 10", TOYS[i].name); }
    for (int i = 0; i < NABST; i++) if (ABST[i].r.d < 7) {
        for (int q = 0; q < 4; q++) job_line("bytes:%s:%d 15", ABST[i].name, q);
        job_line("blocks:%s:0 10", ABST[i].name); job_line("keymsg:%s:0 15", ABST[i].name); job_line("splice:%s:0 10", ABST[i].name);
        job_line("roots:%s:0 10", ABST[i].name);
    }
    for (int i = 0; i < NABST; i++) if (ABST[i].r.d >= 7) { job_line("elems:%s:0 8", ABST[i].name); job_line("keymsg:%s:0 5", ABST[i].name); }
    for (int i = 0; i < NSETS; i++) { int f = SETS[i].r.mh <= 6; for (int q = 0; q < (f ? 4 : 1); q++) job_line("elems:%s:%d %d", SETS[i].name, q, f ? 25 : 12); job_line("keymsg:%s:0 %d", SETS[i].name, f ? 10 : 20); }
    job_line("sets:all:0 20");
}
static void start(u64 seed) {
    key_for(S, 300 + seed, sk); memcpy(pk, sk + 2 * n, 2 * n); fill(msg, 4096, 7 + seed); u8 opt[32]; fill(opt, n, seed);
    if (S->real) impl_sign_all(S, CTX, sk, msg, len, opt, base); else ref_sign(&S->r, sk, opt, msg, len, base);
    memcpy(t, base, L);
    if (run(S, pk, msg, len, base, L, L) != 1) viol("%s: the genuine signature is rejected", S->name);
}
static void forge_keys(void) {
    int op = opinion; if (S->r.fam != FAM_ABS) opinion = 0;   /* a changed key cannot be accepted with real hashes */
    for (int p = 0; p < 2 * n; p++) for (int x = 1; x < 256; x += S->r.d >= 7 ? (S->r.mh > 6 ? 127 : 73) : S->r.fam != FAM_ABS && !tier_thorough ? 19 : 1) { pk[p] ^= x; check(S, pk, msg, len, t, L, p < n ? "public seed byte xor" : "root byte xor", p, x); pk[p] ^= x; }
    /* root pairs whose sum, difference or xor cancels */
    int step = S->r.d >= 7 ? 7 : S->r.fam != FAM_ABS && !tier_thorough ? 3 : 1;
    for (int i = n; i < 2 * n; i++) for (int j = i + 1; j < 2 * n; j += step) for (int m = 0; m < 3; m++) {
        u8 a = pk[i], b = pk[j];
        if (m == 0) { pk[i] += 1; pk[j] -= 1; } else if (m == 1) { pk[i] ^= 0x81; pk[j] ^= 0x81; } else { pk[i] = b; pk[j] = a; if (a == b) { pk[i] ^= 0xff; pk[j] ^= 0xff; } }
        check(S, pk, msg, len, t, L, "two root bytes", i - n, j - n); pk[i] = a; pk[j] = b;
    }
    u8 keep[64]; memcpy(keep, pk, 2 * n);
    for (int m = 0; m < 8; m++) {
        u8 o[128]; key_for(S, 900, o);
        if (m == 0) memset(pk + n, 0, n); else if (m == 1) memset(pk + n, 0xff, n); else if (m == 2) memset(pk, 0, n); else if (m == 3) memcpy(pk, o + 2 * n, 2 * n);
        else if (m == 4) memcpy(pk, o + 2 * n, n); else if (m == 5) memcpy(pk + n, o + 3 * n, n); else if (m == 6) { memcpy(pk, keep + n, n); memcpy(pk + n, keep, n); } else memcpy(pk + n, t + L - n, n);
        check(S, pk, msg, len, t, L, "public key replaced", m, 0); memcpy(pk, keep, 2 * n);
        if (S->r.mh > 6 && S->real && m == 2) break;
    }
    opinion = op;
}
static void forge_msgs(void) {
    u8 keep[80]; memcpy(keep, msg, 80); size_t l0 = len;
    for (size_t p = 0; p < len; p++) for (int x = 0; x < 8; x++) { if (S->real && x != (int)p % 8) continue; msg[p] ^= 1 << x; check(S, pk, msg, len, t, L, "message bit", p, x); msg[p] ^= 1 << x; }
    for (len = 0; len <= l0 + 40; len++) if (len != l0) { check(S, pk, msg, len, t, L, "message cut or extended at the end", l0, len); memset(msg + l0, 0, 40); check(S, pk, msg, len, t, L, "message cut or zero extended", l0, len); memcpy(msg + l0, keep + l0, 40); }
    len = l0;
    for (size_t d = 1; d <= l0; d++) check(S, pk, msg + d, len - d, t, L, "message cut at the start", d, 0);
    memset(msg, 0, 80); memcpy(msg + 1, keep, l0); check(S, pk, msg, len + 1, t, L, "zero byte in front of the message", 0, 0); memcpy(msg, keep, 80);
    /* a message is not confused with one shifted by R or the public key */
    u8 m2[200]; memcpy(m2, pk, 2 * n); memcpy(m2 + 2 * n, msg, l0); check(S, pk, m2, 2 * n + l0, t, L, "public key in front of the message", 0, 0);
}
void run_job(const char *job) {
    char kind[16], name[40]; int part; if (sscanf(job, "%15[^:]:%39[^:]:%d", kind, name, &part) != 3) exit(3);
    if (!strcmp(kind, "sets")) {
        /* every signature under every other parameter set: same key bytes, byte string cut or extended to the other length */
        opinion = 1; static u8 big[65536];
        for (int i = 0; i < NTOYS; i++) for (int j = 0; j < NTOYS + NSETS; j++) {
            struct tset *b = j < NTOYS ? &TOYS[j] : &SETS[j - NTOYS]; S = &TOYS[i]; n = S->r.n; L = ref_sig_len(&S->r); if (S == b) continue;
            sk = malloc(4 * n + 64); pk = calloc(1, 64); msg = malloc(4096); base = calloc(1, 65536); t = base; len = 21; start(i);
            memcpy(big, base, 65536); int lb = ref_sig_len(&b->r); for (int x = L; x < lb; x++) big[x] = base[x % L];
            check(b, pk, msg, len, big, lb, "signature of another parameter set", i, j); check(b, pk, msg, len, big, L < lb ? L : lb, "signature of another parameter set, own length", i, j);
        }
        for (int i = 0; i < NSETS; i++) { struct tset *a = &SETS[i]; if (a->r.mh > 6) continue; S = a; n = S->r.n; L = ref_sig_len(&S->r); base = calloc(1, 65536); t = base; sk = malloc(4 * n); pk = calloc(1, 64); msg = malloc(4096); len = 21; start(i);
            for (int j = 0; j < NSETS; j++) if (j != i) { int lb = ref_sig_len(&SETS[j].r); memcpy(big, base, 65536); for (int x = L; x < lb; x++) big[x] = base[x % L]; check(&SETS[j], pk, msg, len, big, lb, "signature of another parameter set", i, j); check(&SETS[j], pk, msg, len, big, L < lb ? L : lb, "signature of another parameter set, own length", i, j); } }
        goto out;
    }
    S = set_by_name(name); if (!S) exit(3); n = S->r.n; L = ref_sig_len(&S->r);
    sk = gbuf(4 * n, 1); pk = gbuf(2 * n, 1); msg = malloc(4096); sig = malloc(L); base = malloc(L); t = gbuf(L, 1);
    len = 29; opinion = S->r.fam == FAM_ABS || (!S->real); start(part % 2);
    int nb = L / n;
    if (!strcmp(kind, "bytes")) {
        static const u8 few[] = { 1, 2, 4, 8, 16, 32, 64, 128, 255 }; int all = (S->r.fam == FAM_ABS && !(S->r.absmode & 2)) || tier_thorough, np = all ? 4 : 8; if (S->r.fam != FAM_ABS) np = 8;
        for (int p = part; p < L; p += np) for (int x = 0; x < (all ? 255 : 9); x++) { if (all && !tier_thorough && n > 16 && x % 17 && (x & (x + 1))) continue; t[p] ^= all ? x + 1 : few[x]; opinion = S->r.fam == FAM_ABS || p < n; SIG("signature byte xor", p, all ? x + 1 : few[x]); t[p] = base[p]; }
    } else if (!strcmp(kind, "blocks")) {
        for (int i = 0; i < nb; i++) {
            opinion = S->r.fam == FAM_ABS || i == 0;
            for (int j = 0; j < nb; j++) if (i != j && (n < 32 || tier_thorough || (i + j) % 3 == 0 || abs(i - j) < 3)) {
                memcpy(t + i * n, base + j * n, n); SIG("element copied from", i, j);
                if (j > i) { memcpy(t + j * n, base + i * n, n); SIG("elements exchanged", i, j); memcpy(t + j * n, base + j * n, n); }
                memcpy(t + i * n, base + i * n, n);
            }
            for (int m = 0; m < 5; m++) {
                if (m == 0) memset(t + i * n, 0, n); else if (m == 1) memset(t + i * n, 0xff, n); else if (m == 2) for (int q = 0; q < n; q++) t[i * n + q] = base[i * n + n - 1 - q];
                else if (m == 3) { memmove(t + i * n, base + (i + 1) * n, L - (i + 1) * n); } else { memmove(t + (i + 1) * n, base + i * n, L - (i + 1) * n); }
                SIG("element zeroed/ones/reversed/dropped/doubled", i, m); memcpy(t, base, L);
            }
            for (int q = 0; q + 1 < n; q += S->r.fam == FAM_ABS || tier_thorough ? 1 : 3) { int p = i * n + q; u8 x = t[p]; t[p] = t[p + 1]; t[p + 1] = x; SIG("neighbouring bytes exchanged", p, 0); t[p + 1] = t[p]; t[p] = x;
                t[p] ^= 0x11; t[p + 1] ^= 0x11; SIG("neighbouring bytes xor", p, 0); memcpy(t + p, base + p, 2); }
        }
    } else if (!strcmp(kind, "keymsg")) { forge_keys(); if (!S->real || S->r.mh <= 6 || part == 0) forge_msgs(); }
    else if (!strcmp(kind, "splice")) {
        /* two signatures of one key, cut at every element; and of two keys */
        u8 *o = malloc(L), sk2[128], opt[32], m2[64];
        for (int v = 0; v < (tier_thorough ? 48 : S->r.fam == FAM_ABS ? 24 : 8); v++) {
            fill(m2, 64, 400 + v); fill(opt, n, v); key_for(S, 300 + (v % 4 == 3), sk2); ref_sign(&S->r, sk2, opt, v % 2 ? msg : m2, len, o);
            for (int c = 0; c <= nb; c++) { memcpy(t, base, L); memcpy(t + c * n, o + c * n, L - c * n); SIG("spliced with another signature from element", c, v); check(S, pk, m2, len, t, L, "the same splice for the other message", c, v);
                memcpy(t, o, L); memcpy(t + c * n, base + c * n, L - c * n); SIG("spliced up to element", c, v); check(S, pk, m2, len, t, L, "the same splice for the other message", c, v); }
        }
    } else if (!strcmp(kind, "roots")) {
        /* every subset of root bytes changed (first 16 bytes and last 16 bytes) */
        int forced = S->r.absmode & 2;
        for (int off = 0; off < n; off += 16) for (unsigned m = 1; m < 65536; m += tier_thorough ? 1 : forced ? (n > 16 ? 5 : 1) : 97) { for (int i = 0; i < 16; i++) if (m >> i & 1) pk[n + (off + i) % n] ^= 0x80 >> (i & 7); check(S, pk, msg, len, t, L, "subset of root bytes", off, m); memcpy(pk, sk + 2 * n, 2 * n); }
    } else {   /* elems: one bit of every element */
        int np = S->real && S->r.mh <= 6 ? 4 : 1, per = S->real ? 1 : tier_thorough ? n : 1;
        for (int e = part; e < nb; e += np) for (int q = 0; q < per; q++) { int bit = (e * 37 + q * 11 + (tier_thorough ? 5 : 0)) % (8 * n); t[e * n + bit / 8] ^= 1 << bit % 8; opinion = S->r.fam == FAM_ABS; SIG("one bit of element", e, bit); t[e * n + bit / 8] = base[e * n + bit / 8]; }
        for (int e = part; e + 1 < nb; e += np * (S->real ? 5 : 1)) { memcpy(t + e * n, base + (e + 1) * n, n); memcpy(t + (e + 1) * n, base + e * n, n); SIG("elements exchanged", e, e + 1); memcpy(t + e * n, base + e * n, 2 * n); }
    }
out:
    STATES(seen.n); TRANS(calls); EXECS(cnt); stat_add("altered_accepted_by_spec", acc);
    sample("%s: %s part %d: %llu altered triples, %llu of them accepted by the specification (and the implementation)", S->name, kind, part, (unsigned long long)cnt, (unsigned long long)acc);
}
