/* C04: genuine signatures are accepted under every splitting, by exploration of the verifier's states */
#include "explore.h"
void list_jobs(void) {
    for (int i = 0; i < NTOYS; i++) job_line("toy:%s:%d:0 30", TOYS[i].name, tier_thorough ? MENU_ALL : MENU_DENSE);
    for (int i = 0; i < NABST; i++) job_line("abs:%s:%d:0 %d", ABST[i].name, ABST[i].r.d >= 7 ? (tier_thorough ? MENU_SPARSE : MENU_STEP) : tier_thorough ? MENU_ALL : MENU_DENSE, 12);
    for (int i = 0; i < NSETS; i++) job_line("real:%s:%d:0 %d", SETS[i].name, tier_thorough ? MENU_SPARSE : MENU_STEP, SETS[i].r.mh > 6 ? 50 : 20);
    for (int i = 0; i < NSETS; i++) if (SETS[i].r.mh <= 6) job_line("many:%s:0:0 20", SETS[i].name);
    for (int i = 0; i < NTOYS; i++) job_line("many:%s:0:0 10", TOYS[i].name);
    for (int i = 0; i < NABST; i++) if (ABST[i].r.d < 7) job_line("many:%s:0:0 10", ABST[i].name);
}
void run_job(const char *job) {
    char kind[16], name[40]; int menu, v; if (sscanf(job, "%15[^:]:%39[^:]:%d:%d", kind, name, &menu, &v) != 4) exit(3);
    struct tset *s = set_by_name(name); if (!s) exit(3); int n = s->r.n;
    struct xs x; xs_start(&x, s, ref_sig_len(&s->r));
    x.len = 33; x.sk = malloc(4 * n); x.msg = malloc(600); x.sig = gbuf(x.L, 1); u8 opt[32], *pk = gbuf(2 * n, 1); x.pk = pk;
    if (!strcmp(kind, "many")) {
        /* many keys, messages and randomizers; fixed splittings: whole, bytes, n+1, and one cut at every element */
        int N = s->real ? (tier_thorough ? 40 : 6) : s->r.fam == FAM_ABS ? (tier_thorough ? 40000 : 4000) : (tier_thorough ? 4000 : 250); u64 cnt = 0, calls = 0; struct seen o = { 0 };
        for (int c = 0; c < N; c++) {
            cur("key/message %ld", c, 0, 0, 0);
            if (c % 16 == 0) key_for(s, 1000 + c / 16, x.sk);
            memcpy(pk, x.sk + 2 * n, 2 * n); fill(x.msg, 600, c); x.len = (c * 7) % 600; fill(opt, n, c);
            impl_sign_all(s, CTX, x.sk, x.msg, x.len, c % 4 ? opt : 0, x.sig); seen_add(&o, hash64(x.sig, x.L, 1), hash64(x.sig, x.L, 2));
            for (int sp = 0; sp < 3; sp++) {
                unsigned k = sp == 0 ? x.L : sp == 1 ? 1 : (unsigned)n + 1 + c % (5 * n); memset(CTX, c, sizeof *CTX);
                if (sp == 1 && c % 8) continue;
                ts_init_verify(CTX, x.msg, x.len, s->ps, pk);
                for (unsigned p = 0; p < x.L; p += k) { unsigned m = k < x.L - p ? k : x.L - p; int r = ts_update_verify(x.sig + p, m, CTX); calls++; if (r != 1) viol("%s: genuine signature %d (message length %zu), piece of %u at %u reported as %d", s->name, c, x.len, m, p, r); }
                if (ts_verify(CTX) != 1) viol("%s: genuine signature %d (message length %zu, %s) in pieces of %u is rejected", s->name, c, x.len, c % 4 ? "randomized" : "deterministic", k);
                cnt++;
            }
        }
        STATES(o.n); TRANS(calls); EXECS(cnt); sample("%s: %llu sign-verify runs, %zu distinct signatures", s->name, (unsigned long long)cnt, o.n);
        return;
    }
    key_for(s, 21, x.sk); memcpy(pk, x.sk + 2 * n, 2 * n); fill(x.msg, x.len, 4); fill(opt, n, 5);
    cur("signing", 0, 0, 0, 0);
    impl_sign_all(s, CTX, x.sk, x.msg, x.len, opt, x.sig);
    memset(CTX, 0x3C, sizeof *CTX); cur("ts_init_verify", 0, 0, 0, 0);
    ts_init_verify(CTX, x.msg, x.len, s->ps, pk);
    explore_verifier(&x, menu, 1, 0, 0);
}
