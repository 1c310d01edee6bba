/*
 * C21: streaming costs no extra hashing.  The hash call-back counters are part of the explored state: at the end of
 * the signature every way of cutting it must have arrived at the same counts, those counts are within the formula of
 * the one-pass algorithm, and zero-length calls and calls after the end must not move a counter.
 * cost (instrumented build): the work of each real call-back, in memory accesses, against that of the
 * compression functions it needs; and the accesses of operations, whole and in pieces.
 */
#include "explore.h"
static struct tset *S; static int n, L; static struct hcount TOT; static int have; static const char *KIND;
static u64 sum(const struct hcount *h) { return h->prf + h->f + h->t_init + h->t_next + h->t_final + h->msg + h->pre; }
static u64 zerocalls;
static void bound(const char *what, const struct hcount *h, const struct hcount *b) {
#define CK(x) if (h->x > b->x) viol("%s: %s performs %llu " #x " computations, the algorithm needs %llu", S->name, what, (unsigned long long)h->x, (unsigned long long)b->x)
    CK(prf); CK(f); CK(t_init); CK(t_next); CK(t_final); CK(msg); CK(pre);
}
static struct hcount leaf(void) { u64 w = 2 * n + 3; return (struct hcount){ .prf = w, .f = 15 * w, .t_init = 1, .t_next = w, .t_final = 1 }; }
static void add(struct hcount *a, struct hcount b, u64 k) { a->prf += k * b.prf; a->f += k * b.f; a->t_init += k * b.t_init; a->t_next += k * b.t_next; a->t_final += k * b.t_final; a->msg += k * b.msg; a->pre += k * b.pre; }
static const struct hcount NODE = { .t_init = 1, .t_next = 2, .t_final = 1 };
static struct hcount b_gen(void) { struct hcount b = { .pre = 1 }; add(&b, leaf(), 1ull << S->r.mh); add(&b, NODE, (1ull << S->r.mh) - 1); return b; }
static struct hcount b_sign(void) {
    struct hcount b = { .pre = 1, .msg = 2, .t_init = 1, .t_next = S->r.k, .t_final = 1 }; u64 nl = 1ull << S->r.t;
    add(&b, (struct hcount){ .prf = nl + 1, .f = nl }, S->r.k); add(&b, NODE, S->r.k * (nl - 1));
    for (int i = 0; i < S->r.d; i++) { struct hcount g = b_gen(); g.pre = 0; add(&b, g, 1); add(&b, (struct hcount){ .prf = 2 * n + 3, .f = 15 * (2 * n + 3) }, 1); }
    return b;
}
static struct hcount b_ver(void) {
    struct hcount b = { .pre = 1, .msg = 1, .f = S->r.k, .t_init = 1, .t_next = S->r.k, .t_final = 1 }; add(&b, NODE, S->r.k * S->r.t);
    struct hcount l = leaf(); l.prf = 0; add(&b, l, S->r.d); add(&b, NODE, S->r.d * S->r.mh); return b;
}
static void final_counts(struct xs *x, unsigned pos) {
    if (!have) { TOT = HC; have = 1; }
    if (memcmp(&HC, &TOT, sizeof HC)) viol("%s: %s performs %llu hash computations in one way of cutting and %llu in another (prf %llu/%llu f %llu/%llu T %llu/%llu)", S->name, KIND, (unsigned long long)sum(&TOT), (unsigned long long)sum(&HC), (unsigned long long)TOT.prf, (unsigned long long)HC.prf, (unsigned long long)TOT.f, (unsigned long long)HC.f, (unsigned long long)TOT.t_next, (unsigned long long)HC.t_next);
    (void)x; (void)pos;
}
static void probe(struct xs *x, unsigned p, int i) { (void)i; if (p == (unsigned)L) { xs_load(x, p, i); final_counts(x, p); } }
static int verifying;
static void idle(u64 before, const char *what, unsigned k) { if (sum(&HC) != before) viol("%s: %s: %s (%u bytes) at %u of %d performs %llu hash computations", S->name, KIND, what, k, xs_pos, L, (unsigned long long)(sum(&HC) - before)); }
static unsigned c_sign(unsigned char *d, unsigned k, struct ts_context *c) { u64 b = sum(&HC); unsigned r = ts_sign(d, k, c); if (!k || xs_pos >= (unsigned)L || verifying) { zerocalls++; idle(b, k ? "request after the end" : "zero-length request", k); } return r; }
static int c_update(const unsigned char *s, unsigned k, struct ts_context *c) { u64 b = sum(&HC); int r = ts_update_verify(s, k, c); if (!k || xs_pos >= (unsigned)L) { zerocalls++; idle(b, k ? "bytes after the end" : "zero-length piece", k); } return r; }
static int c_verify(struct ts_context *c) { u64 b = sum(&HC); int r = ts_verify(c); zerocalls++; idle(b, "asking for the verdict", 0); return r; }
static u8 seed[96]; static int rng(unsigned char *p, size_t k) { memcpy(p, seed, k < 96 ? k : 96); return 1; }
#ifdef MON
extern uint64_t vpmon_count; extern void (*vpmon_hook)(uintptr_t, size_t, int);
static u64 acc(u64 *mark) { u64 v = vpmon_count - *mark; *mark = vpmon_count; return v; }
#endif
void list_jobs(void) {
#ifdef MON
    if (!derived_dropped) for (int i = 0; i < NSETS; i++) job_line("cost:%s:0:0 5", SETS[i].name);
    for (int i = 0; i < NTOYS; i++) job_line("ops:%s:0:0 10", TOYS[i].name);
    for (int i = 0; i < NSETS; i++) if (SETS[i].r.mh <= 6) job_line("ops:%s:0:0 10", SETS[i].name);
#else
    for (int i = 0; i < NABST; i++) for (int v = 0; v < 2; v++) job_line("exp:%s:%d:%d %d", ABST[i].name, ABST[i].r.d >= 7 ? (tier_thorough ? MENU_SPARSE : MENU_STEP) : tier_thorough ? MENU_ALL : MENU_DENSE, v, ABST[i].r.mh > 6 ? 30 : 10);
    for (int i = 0; i < NABST; i++) job_line("gen:%s:0:0 3", ABST[i].name);
    for (int i = 0; i < NABST; i++) if (ABST[i].r.d < 7) job_line("many:%s:0:0 10", ABST[i].name);
#endif
}
void run_job(const char *job) {
    char kind[16], name[40]; int menu, v; if (sscanf(job, "%15[^:]:%39[^:]:%d:%d", kind, name, &menu, &v) != 4) exit(3);
    S = set_by_name(name); if (!S) exit(3); n = S->r.n; L = ref_sig_len(&S->r);
    u8 *sk = malloc(4 * n), msg[64], opt[32], *sig = malloc(L); fill(msg, 64, 1); fill(opt, 32, 5); fill(seed, 96, 3); memcpy(RNG_bytes, opt, 32);
    if (!strcmp(kind, "gen")) {
        u64 c = 0; for (int i = 0; i < 8; i++) { fill(seed, 96, i); memset(&HC, 0, sizeof HC); cur("key generation %ld", i, 0, 0, 0); ts_gen_key(sk, 0, S->ps, rng); struct hcount b = b_gen(); bound("key generation", &HC, &b); c += sum(&HC); }
        STATES(8); TRANS(8); EXECS(8); stat_add("hash_computations", c); return;
    }
#ifdef MON
#ifndef VP_PLAIN
    if (!strcmp(kind, "cost")) {
        /* work of one compression function call, in memory accesses */
        u64 m = vpmon_count; static u8 zeros[4096]; SHA256_CTX a; u64 c256, c512 = 0, ck;
        ts_SHA256_init(&a); m = vpmon_count; for (int i = 0; i < 16; i++) ts_SHA256_update(&a, zeros, 64); c256 = acc(&m) / 16;
        SHA512_CTX b; ts_SHA512_init(&b); m = vpmon_count; for (int i = 0; i < 16; i++) ts_SHA512_update(&b, zeros, 128); c512 = acc(&m) / 16;
        SHAKE256_CTX s; ts_shake256_inc_init(&s); m = vpmon_count; for (int i = 0; i < 16; i++) ts_shake256_inc_absorb(&s, zeros, 136); ck = acc(&m) / 16;
        key_for(S, 3, sk); ts_init_sign(CTX, msg, 64, S->ps, sk, 0); u8 o[64], in[64] = { 0 };
        int sha = S->r.fam == FAM_SHA2, opti = TS_SHA2_OPTIMIZATION; u64 blkF = sha ? c256 : ck, blkT = sha ? (n > 16 ? c512 : c256) : ck;
        double nF = sha ? (opti ? 1 : 2) : 1, nI = sha ? (opti ? 0 : 1) : 0; u64 w[5];
        m = vpmon_count; S->ps->f(o, in, CTX); w[0] = acc(&m); S->ps->prf(o, CTX); w[1] = acc(&m);
        union t_iterator it; m = vpmon_count; S->ps->init_t(&it, CTX); w[2] = acc(&m); for (int i = 0; i < 64; i++) S->ps->next_t(&it, in, CTX); w[3] = acc(&m); S->ps->final_t(o, &it, CTX); w[4] = acc(&m);
        double rate = sha ? (n > 16 ? 128 : 64) : 136, nN = 64.0 * n / rate;
        struct { const char *nm; double have, need; } q[] = { { "F", w[0], nF * blkF }, { "PRF", w[1], nF * blkF }, { "starting T", w[2], nI * blkT }, { "64 blocks into T", w[3], (nN + 1) * blkT }, { "finishing T", w[4], (sha ? 1 : 1) * blkT } };
        for (int i = 0; i < 5; i++) { cur("call-back %ld", i, 0, 0, 0); double lim = q[i].need * 1.15 + (i == 3 ? 64.0 * (n * 2 + 40) : !sha ? 600 : opti ? 380 : i == 2 ? 850 : 480); if (getenv("VP_SHOW")) printf("# %s %s have %.0f need %.0f lim %.0f ratio %.2f\n", S->name, q[i].nm, q[i].have, q[i].need, lim, q[i].have / (q[i].need + 1)); if (q[i].have > lim) viol("%s: %s performs %.0f memory accesses, the compression functions it needs account for %.0f", S->name, q[i].nm, q[i].have, q[i].need); }
        STATES(5); TRANS(68); EXECS(5); sample("%s: accesses per compression: SHA-256 %llu SHA-512 %llu Keccak %llu", S->name, (unsigned long long)c256, (unsigned long long)c512, (unsigned long long)ck); return;
    }
#endif
    if (!strcmp(kind, "ops")) {
        key_for(S, 3, sk); u64 base[3] = { 0 }; unsigned ch[] = { (unsigned)L, (unsigned)n, 1, 7, (unsigned)n + 1, 0 }; u64 m, tot = 0, calls = 0;
        for (int c = 0; c < 5; c++) {
            if (S->real && c > 2) continue;
            cur("signing / verifying in pieces of %ld", ch[c], 0, 0, 0); m = vpmon_count; ts_init_sign(CTX, msg, 20, S->ps, sk, 0); u64 nc = 0;
            if (c == 0 || !S->real || ch[c] == 1) { for (unsigned p = 0; p < (unsigned)L; nc++) p += ts_sign(sig + p, ch[c], CTX); u64 w = acc(&m); if (!base[0]) base[0] = w; tot += w;
                if (w > base[0] + nc * 120 + 200) viol("%s: signing in pieces of %u makes %llu memory accesses, in one call %llu", S->name, ch[c], (unsigned long long)w, (unsigned long long)base[0]); 
                m = vpmon_count; for (int z = 0; z < 1000; z++) ts_sign(sig, z % 2 ? 0 : 5, CTX); w = acc(&m); if (w > 120000) viol("%s: requests after the end of the signature make %llu memory accesses each", S->name, (unsigned long long)w / 1000); }
            calls += nc; m = vpmon_count; ts_init_verify(CTX, msg, 20, S->ps, sk + 2 * n); nc = 0; for (unsigned p = 0; p < (unsigned)L; nc++) { unsigned k = ch[c] < L - p ? ch[c] : L - p; ts_update_verify(sig + p, k, CTX); p += k; }
            u64 w = acc(&m); if (!base[1]) base[1] = w; tot += w; calls += nc;
            if (w > base[1] + nc * 120 + 200) viol("%s: verifying in pieces of %u makes %llu memory accesses, in one call %llu", S->name, ch[c], (unsigned long long)w, (unsigned long long)base[1]);
            m = vpmon_count; for (int z = 0; z < 1000; z++) ts_verify(CTX); w = acc(&m); if (w > 60000) viol("%s: asking for the verdict makes %llu memory accesses", S->name, (unsigned long long)w / 1000);
            m = vpmon_count; ts_init_verify(CTX, msg, 20, S->ps, sk + 2 * n); acc(&m); for (int z = 0; z < 1000; z++) ts_update_verify(sig, 0, CTX); w = acc(&m); if (w > 120000) viol("%s: zero-length pieces make %llu memory accesses each", S->name, (unsigned long long)w / 1000);
            ts_init_sign(CTX, msg, 20, S->ps, sk, 0); acc(&m); for (int z = 0; z < 1000; z++) ts_sign(sig, 0, CTX); w = acc(&m); if (w > 120000) viol("%s: zero-length requests make %llu memory accesses each", S->name, (unsigned long long)w / 1000);
        }
        stat_add("accesses_counted", tot); STATES(L); TRANS(calls); EXECS(10); return;
    }
#endif
    if (!strcmp(kind, "many")) {
        /* whatever the message: within the formula, and the same whole, by element and by byte */
        key_for(S, 3, sk); u64 c = 0; struct hcount bs = b_sign(), bv = b_ver(); struct seen o = { 0 };
        for (int i = 0; i < (tier_thorough ? 6000 : 300); i++) {
            fill(msg, 24, i); KIND = "signing"; have = 0;
            for (int q = 0; q < 3; q++) { unsigned k = q == 0 ? L : q == 1 ? n : 1 + i % 5; cur("message %ld, pieces of %ld", i, k, 0, 0); memset(&HC, 0, sizeof HC); RNG_pos = 0; ts_init_sign(CTX, msg, 24, S->ps, sk, rng_fixed); for (unsigned p = 0; p < (unsigned)L; ) p += ts_sign(sig + p, k, CTX); final_counts(0, 0); bound("signing", &HC, &bs); c++; }
            seen_add(&o, hash64(&HC, sizeof HC, 1), 1);
            KIND = "verifying"; have = 0;
            for (int q = 0; q < 3; q++) { unsigned k = q == 0 ? L : q == 1 ? n : 1 + i % 5; memset(&HC, 0, sizeof HC); ts_init_verify(CTX, msg, 24, S->ps, sk + 2 * n); for (unsigned p = 0; p < (unsigned)L; p += k) ts_update_verify(sig + p, k < L - p ? k : L - p, CTX); final_counts(0, 0); bound("verifying", &HC, &bv); c++; }
            seen_add(&o, hash64(&HC, sizeof HC, 1), 2);
        }
        STATES(o.n); TRANS(c); EXECS(c); return;
    }
    xs_extra = &HC; xs_extra_len = sizeof HC; memset(&HC, 0, sizeof HC);
    struct xs x; xs_start(&x, S, L + n + 2); x.sk = sk; x.msg = msg; x.len = 24; x.sig = sig; x.probe = probe; x.at_end = final_counts; x.maxper = 12; key_for(S, 3, sk); x.pk = sk + 2 * n;
    ref_sign(&S->r, sk, opt, msg, 24, sig); xs_call_sign = c_sign; xs_call_update = c_update; xs_call_verify = c_verify; memset(CTX, 0x31, sizeof *CTX); RNG_pos = 0;
    /* the single-call count first */
    u8 *tmp = malloc(L); KIND = v ? "verifying" : "signing"; verifying = v;
    if (!v) { ts_init_sign(CTX, msg, 24, S->ps, sk, rng_fixed); ts_sign(tmp, L, CTX); } else { ts_init_verify(CTX, msg, 24, S->ps, x.pk); ts_update_verify(sig, L, CTX); }
    final_counts(0, 0); struct hcount b = v ? b_ver() : b_sign(); bound(KIND, &HC, &b);
    memset(&HC, 0, sizeof HC); memset(CTX, 0x31, sizeof *CTX); RNG_pos = 0; verifying = 0;
    if (!v) { ts_init_sign(CTX, msg, 24, S->ps, sk, rng_fixed); explore_signer(&x, menu); } else { ts_init_verify(CTX, msg, 24, S->ps, x.pk); explore_verifier(&x, menu, 1, n + 1, 1); }
    stat_add("hash_computations_single_call", sum(&TOT)); stat_add("idle_calls", zerocalls);
}
