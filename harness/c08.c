/*
 * C08: calls that do not fit the context's operation.  At every explored state of a signing (verifying) context
 * every misfit call is made; it must answer 0, touch nothing, and the context it leaves is a state from which
 * exploration goes on, so every sequence of misfit calls mixed with fitting ones is judged by what follows.
 */
#include "explore.h"
static u8 *dest, *canary, *junk; static unsigned DL; static u64 misfits; static int zeroed;
static const unsigned *ks; static int nks;
static void probe_signing(struct xs *x, unsigned p, int i) {
    for (int j = 0; j <= nks; j++) {
        xs_load(x, p, i); int r; x->ntrans++; misfits++;
        if (j < nks) { cur("signing context at %ld (state %ld): ts_update_verify of %ld", p, i, ks[j], 0); r = ts_update_verify(junk + DL - ks[j], ks[j], CTX); }
        else { cur("signing context at %ld (state %ld): ts_verify", p, i, 0, 0); r = ts_verify(CTX); }
        if (r) viol("%s: %s on a context that is signing (%u of %u bytes delivered) returned %d", x->s->name, j < nks ? "ts_update_verify" : "ts_verify", p, x->L, r);
        xs_save(x, p);
    }
}
static void probe_verifying(struct xs *x, unsigned p, int i) {
    for (int j = 0; j < nks; j++) {
        xs_load(x, p, i); x->ntrans++; misfits++; cur("verifying context at %ld (state %ld): ts_sign of %ld", p, i, ks[j], 0);
        unsigned r = ts_sign(dest + DL - ks[j], ks[j], CTX);
        if (r) viol("%s: ts_sign(%u) on a context that is verifying (%u of %u bytes fed) returned %u", x->s->name, ks[j], p, x->L, r);
        if (memcmp(dest, canary, DL)) viol("%s: ts_sign(%u) on a context that is verifying (%u of %u bytes fed) wrote into the buffer", x->s->name, ks[j], p, x->L);
        xs_save(x, p);
    }
}
void list_jobs(void) {
    for (int i = 0; i < NTOYS; i++) for (int v = 0; v < 4; v++) job_line("toy:%s:%d:%d 10", TOYS[i].name, tier_thorough ? MENU_DENSE : MENU_SPARSE, v);
    for (int i = 0; i < NABST; i++) if (ABST[i].r.d < 7) for (int v = 0; v < 4; v++) job_line("abs:%s:%d:%d 5", ABST[i].name, tier_thorough ? MENU_ALL : MENU_DENSE, v);
    for (int i = 0; i < NABST; i++) if (ABST[i].r.d >= 7) for (int v = 0; v < 2; v++) job_line("abs:%s:%d:%d 5", ABST[i].name, MENU_STEP, v);
    for (int i = 0; i < NSETS; i++) for (int v = 0; v < 2; v++) if (v || tier_thorough || SETS[i].r.mh <= 6) job_line("real:%s:%d:%d %d", SETS[i].name, MENU_STEP, v, SETS[i].r.mh <= 6 ? 20 : 40);
    job_line("zero:all:0:0 1");
}
void run_job(const char *job) {
    char kind[16], name[40]; int menu, v; if (sscanf(job, "%15[^:]:%39[^:]:%d:%d", kind, name, &menu, &v) != 4) exit(3);
    if (*kind == 'z') {       /* a context that is zero-filled and never initialised: all sequences of 3 calls */
        u64 c = 0; static const unsigned kk[] = { 0, 1, 16, 17, 32, 100 }; u8 *d = gbuf(100, 1), z[100]; memset(z, 0x5c, 100); struct seen se = { 0 };
        for (int s = 0; s < 13 * 13 * 13; s++) {
            memset(CTX, 0, sizeof *CTX);
            for (int q = 0, w = s; q < 3; q++, w /= 13) {
                int op = w % 13; cur("zero-filled context, sequence %ld step %ld", s, q, 0, 0); memset(d, 0x5c, 100); int r; c++;
                if (op == 12) r = ts_verify(CTX); else if (op < 6) r = ts_sign(d + 100 - kk[op], kk[op], CTX); else r = ts_update_verify(d + 100 - kk[op - 6], kk[op - 6], CTX);
                if (r) viol("a zero-filled context: %s returned %d", op == 12 ? "ts_verify" : op < 6 ? "ts_sign" : "ts_update_verify", r);
                if (memcmp(d, z, 100)) viol("a zero-filled context: %s wrote into the buffer", op < 6 ? "ts_sign" : "ts_update_verify");
                seen_add(&se, hash64(CTX, sizeof *CTX, 1), hash64(CTX, sizeof *CTX, 2));
            }
        }
        STATES(se.n); TRANS(c); EXECS(13 * 13 * 13); sample("zero-filled context: %llu calls, all answered 0", (unsigned long long)c); return;
    }
    struct tset *s = set_by_name(name); if (!s) exit(3); int n = s->r.n; struct xs x; unsigned L = ref_sig_len(&s->r); unsigned surplus = n + 2;
    xs_start(&x, s, L + surplus); x.maxper = 40;
    unsigned k[] = { 1, 0, n, n + 1, 3 * n, L, 2, n - 1 }; ks = k; nks = s->r.d >= 7 ? 3 : 8;
    DL = L; dest = gbuf(DL, 1); canary = malloc(DL); junk = gbuf(DL, 1); memset(dest, 0x5c, DL); memset(canary, 0x5c, DL);
    x.len = 17; x.sk = malloc(4 * n); x.msg = malloc(64); x.sig = malloc(L); u8 opt[32]; fill(opt, n, 3); fill(x.msg, 64, 5); key_for(s, 51, x.sk); x.pk = x.sk + 2 * n;
    if (s->real && s->r.mh > 6) impl_sign_all(s, CTX, x.sk, x.msg, x.len, opt, x.sig); else ref_sign(&s->r, x.sk, opt, x.msg, x.len, x.sig);
    memcpy(junk, x.sig, L);     /* what is fed to the signing context is a genuine signature */
    memset(CTX, 0x96, sizeof *CTX);
    if (v % 2 == 0) {
        if (v == 2) fill(junk, L, 77);
        memcpy(RNG_bytes, opt, n); RNG_pos = 0; ts_init_sign(CTX, x.msg, x.len, s->ps, x.sk, rng_fixed); x.probe = probe_signing; explore_signer(&x, menu);
    } else {
        int genuine = v == 1; if (!genuine) x.sig[L - 1 - n] ^= 8;
        if (!genuine) genuine = ref_verify(&s->r, x.pk, x.msg, x.len, x.sig, L);
        ts_init_verify(CTX, x.msg, x.len, s->ps, x.pk); x.probe = probe_verifying; explore_verifier(&x, menu, genuine, surplus, 1);
    }
    stat_add("misfit_calls", misfits);
}
