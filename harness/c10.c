/*
 * C10: memory accesses stay inside what the caller handed over.
 * MON build: every access of the library (instrumented loads and stores, and the mem* functions) is checked against
 * the exact extents allowed for the current call.  Otherwise (ASan/bounds build) the same runs on exactly sized
 * heap buffers.
 */
#include "explore.h"
#include "stk.h"
static struct tset *S; static int n, L; static u64 cnt, calls, accs; static struct seen outs;
struct reg { uintptr_t lo, hi; int w; const char *nm; };
static struct reg R[16]; static int nr; static const char *CALL = "";
static u8 *sk, *pk, *msg; static size_t len; static int verifying;
#ifdef MON
extern void (*vpmon_hook)(uintptr_t, size_t, int); extern uint64_t vpmon_count;
extern char __executable_start[], __etext[], __data_start[];
static int active;
static void hook(uintptr_t a, size_t s, int w) {
    if (!active || !s) return;
    accs++;
    for (int i = 0; i < nr; i++) if (a >= R[i].lo && a + s <= R[i].hi) { if (w && !R[i].w) { active = 0; viol("%s: %s writes %zu bytes at offset %ld of %s, which it may only read", S->name, CALL, s, (long)(a - R[i].lo), R[i].nm); } return; }
    if (a >= (uintptr_t)stk_mem && a + s <= (uintptr_t)stk_mem + STK_SIZE) return;
    if (!w && a >= (uintptr_t)__executable_start && a + s <= (uintptr_t)__data_start) return;    /* code and constants */
    active = 0;
    for (int i = 0; i < nr; i++) if (a + s + 256 > R[i].lo && a < R[i].hi + 256) viol("%s: %s %s %zu bytes at offset %ld of %s (%zu bytes long)", S->name, CALL, w ? "writes" : "reads", s, (long)a - (long)R[i].lo, R[i].nm, (size_t)(R[i].hi - R[i].lo));
    if (a >= (uintptr_t)ts_lib_data_begin && a < (uintptr_t)ts_lib_bss_end) viol("%s: %s %s %zu bytes of static storage", S->name, CALL, w ? "writes" : "reads", s);
    viol("%s: %s %s %zu bytes at %p, which belongs to nothing it was given", S->name, CALL, w ? "writes" : "reads", s, (void *)a);
}
static void (*F)(void); static void tramp(void *v) { active = 1; ((void (*)(void))v)(); active = 0; }
static void call(void (*f)(void)) { vpmon_hook = hook; calls++; (void)F; stk_run(tramp, (void *)f); }
#define UNTRACK int act_ = active; active = 0
#define TRACK active = act_
#else
static void call(void (*f)(void)) { calls++; f(); }
#define UNTRACK
#define TRACK
#endif
static void reg(const void *p, size_t l, int w, const char *nm) { R[nr++] = (struct reg){ (uintptr_t)p, (uintptr_t)p + l, w, nm }; }
static int rng(unsigned char *p, size_t k) { UNTRACK; for (size_t i = 0; i < k; i++) p[i] = 0x31 * i; TRACK; return 1; }
/* arguments of the call under way */
static u8 *a_d; static const u8 *a_s; static unsigned a_k, r_u; static int r_i; static struct ts_context *a_c; static u8 *a_pk; static int (*a_rng)(unsigned char *, size_t);
static void f_sign(void) { r_u = ts_sign(a_d, a_k, a_c); }
static void f_update(void) { r_i = ts_update_verify(a_s, a_k, a_c); }
static void f_verify(void) { r_i = ts_verify(a_c); }
static void f_isign(void) { ts_init_sign(a_c, msg, len, S->ps, sk, a_rng); }
static void f_iver(void) { ts_init_verify(a_c, msg, len, S->ps, pk); }
static void f_gen(void) { r_i = ts_gen_key(sk, a_pk, S->ps, rng); }
static unsigned left;   /* bytes the signer may still deliver */
static void common_regs(struct ts_context *c) { nr = 0; if (c) reg(c, sizeof *c, 1, "the context"); reg(S->ps, PS_SIZE, 0, "the parameter set"); }
static unsigned m_sign(unsigned char *d, unsigned k, struct ts_context *c) {
    common_regs(c); if (!verifying) reg(sk, 4 * n, 0, "the private key"); unsigned w = verifying ? 0 : k < left ? k : left; reg(d, w, 1, "the signature buffer");
    CALL = "ts_sign"; a_d = d; a_k = k; a_c = c; call(f_sign); return r_u;
}
static int m_update(const unsigned char *s, unsigned k, struct ts_context *c) {
    common_regs(c); if (verifying) { reg(pk, 2 * n, 0, "the public key"); reg(msg, len, 0, "the message"); } reg(s, k, 0, "the signature chunk");
    CALL = "ts_update_verify"; a_s = s; a_k = k; a_c = c; call(f_update); return r_i;
}
static int m_verify(struct ts_context *c) { common_regs(c); CALL = "ts_verify"; a_c = c; call(f_verify); return r_i; }
static void m_isign(struct ts_context *c, int (*r)(unsigned char *, size_t)) { verifying = 0; common_regs(c); reg(sk, 4 * n, 0, "the private key"); reg(msg, len, 0, "the message"); CALL = "ts_init_sign"; a_c = c; a_rng = r; call(f_isign); left = L; }
static void m_iver(struct ts_context *c) { verifying = 1; common_regs(c); reg(pk, 2 * n, 0, "the public key"); reg(msg, len, 0, "the message"); CALL = "ts_init_verify"; a_c = c; call(f_iver); }
static int m_gen(u8 *p) { common_regs(0); reg(sk, 4 * n, 1, "the private key"); if (p) reg(p, 2 * n, 1, "the public key"); CALL = "ts_gen_key"; a_pk = p; call(f_gen); return r_i; }
static u8 *mk(size_t l, int tail) {
#ifdef MON
    return gbuf(l, tail);
#else
    (void)tail; return malloc(l);
#endif
}
static void probe(struct xs *x, unsigned p, int i) {      /* misfit and edge calls at every state */
    (void)i; left = p <= (unsigned)L ? L - p : 0;
    xs_load(x, p, i); cur("%ld bytes done (state %ld): misfit calls", p, i, 0, 0);
    static u8 *b; if (!b) b = mk(n + 1, 1);
    if (verifying) m_sign(b, n + 1, CTX); else { m_update(b, n + 1, CTX); m_verify(CTX); }
    left = p <= (unsigned)L ? L - p : 0;
}
static unsigned x_sign(unsigned char *d, unsigned k, struct ts_context *c) { unsigned g = m_sign(d, k, c); left -= g <= left ? g : left; return g; }
static unsigned xx_sign(unsigned char *d, unsigned k, struct ts_context *c) { left = xs_pos < (unsigned)L ? L - xs_pos : 0; unsigned g = m_sign(d, k, c); return g; }

void list_jobs(void) {
#ifdef MON
    for (int i = 0; i < NTOYS; i++) for (int v = 0; v < 2; v++) job_line("exp:%s:%d:%d 20", TOYS[i].name, tier_thorough ? MENU_DENSE : MENU_SPARSE, v);
    for (int i = 0; i < NABST; i++) for (int v = 0; v < 2; v++) job_line("exp:%s:%d:%d 10", ABST[i].name, ABST[i].r.d >= 7 ? MENU_STEP : tier_thorough ? MENU_ALL : MENU_SPARSE, v);
    for (int i = 0; i < NSETS; i++) job_line("exp:%s:%d:1 15", SETS[i].name, MENU_STEP);
#endif
    for (int i = 0; i < NTOYS; i++) { job_line("lin:%s:0:0 10", TOYS[i].name); job_line("msg:%s:0:0 10", TOYS[i].name); }
    for (int i = 0; i < NABST; i++) job_line("lin:%s:0:0 10", ABST[i].name);
    for (int i = 0; i < NSETS; i++) if (SETS[i].r.mh <= 6 || tier_thorough) job_line("lin:%s:0:0 30", SETS[i].name);
    for (int i = 0; i < NSETS; i++) { job_line("msg:%s:0:0 10", SETS[i].name); job_line("gen:%s:0:0 %d", SETS[i].name, SETS[i].r.mh > 6 ? 50 : 10); job_line("pre:%s:0:0 %d", SETS[i].name, SETS[i].r.mh > 6 ? 40 : 4); }
}
void run_job(const char *job) {
    char kind[16], name[40]; int menu, v; if (sscanf(job, "%15[^:]:%39[^:]:%d:%d", kind, name, &menu, &v) != 4) exit(3);
    S = set_by_name(name); if (!S) exit(3); n = S->r.n; L = ref_sig_len(&S->r); u8 *sig = mk(L, 1), *exp = malloc(L);
    sk = mk(4 * n, 1); pk = mk(2 * n, 0); msg = mk(37, 0); len = 37; fill(msg, len, 3); key_for(S, 81, sk); memcpy(pk, sk + 2 * n, 2 * n);
#ifndef MON
    CTX = malloc(sizeof *CTX);
#endif
    u8 opt[32]; for (int i = 0; i < n; i++) opt[i] = 0x31 * i;
    if (!strcmp(kind, "exp")) {
        struct xs x; xs_start(&x, S, L + 2 * n); x.sk = sk; x.pk = pk; x.msg = msg; x.len = len; x.sig = exp; x.probe = probe;
        if (S->real && S->r.mh > 6) { impl_sign_all(S, CTX, sk, msg, len, opt, exp); } else ref_sign(&S->r, sk, opt, msg, len, exp);
        xs_call_sign = xx_sign; xs_call_update = m_update; xs_call_verify = m_verify; memset(CTX, 0x5A, sizeof *CTX);
        if (v == 0) {
            m_isign(CTX, rng); xs_call_sign = xx_sign;
            /* the linear runs at the end of the exploration: no state restored in between */
            explore_signer(&x, menu);
        } else { m_iver(CTX); explore_verifier(&x, menu, 1, n + 1, 1); }
        stat_add("accesses_checked", accs); return;
    }
    if (!strcmp(kind, "gen") || !strcmp(kind, "lin")) {
        for (int w = 0; w < 3; w++) {
            cur("key generation, variant %ld", w, 0, 0, 0); u8 *k0 = sk, *p = mk(2 * n, w != 2); sk = mk(4 * n, w != 2); if (S->real && S->r.mh > 6 && w == 1) continue;
            if (m_gen(w ? p : 0) != 1) viol("%s: key generation fails", S->name);
            cnt++; seen_add(&outs, hash64(sk, 4 * n, 1), w); sk = k0;
        }
    }
    if (!strcmp(kind, "lin")) {
        unsigned ch[] = { (unsigned)L, (unsigned)n + 1, 1, (unsigned)n - 1, (unsigned)n, (unsigned)L + 77, 0x7fffffffu, 2 * (unsigned)n + 5 };
        for (int c = 0; c < (S->real ? 2 : S->r.d >= 7 ? 4 : 8); c++) {
            cur("signing in pieces of %ld", ch[c], 0, 0, 0); memset(CTX, c, sizeof *CTX); m_isign(CTX, c % 2 ? rng : 0); cnt++;
            for (unsigned p = 0; p < (unsigned)L;) {
                unsigned k = ch[c], w = k < L - p ? k : L - p; u8 *d = w > 64 ? sig + L - w : sig + p;     /* flush to the guard page when large */
#ifndef MON
                d = malloc(w);
#endif
                unsigned g = x_sign(d, k, CTX); if (g != w) viol("%s: signer returned %u instead of %u", S->name, g, w); memcpy(exp + p, d, g); p += g;
#ifndef MON
                free(d);
#endif
            }
            cur("verifying in pieces of %ld", ch[c], 0, 0, 0); memset(CTX, ~c, sizeof *CTX); m_iver(CTX);
            for (unsigned p = 0; p < (unsigned)L;) { unsigned w = ch[c] < L - p ? ch[c] : L - p; u8 *d = sig + L - w;
#ifndef MON
                d = malloc(w);
#endif
                memcpy(d, exp + p, w); m_update(d, w, CTX); p += w;
#ifndef MON
                free(d);
#endif
            }
            if (m_verify(CTX) != 1) viol("%s: own signature rejected", S->name);
            seen_add(&outs, hash64(CTX, sizeof *CTX, 1), c);
        }
    } else if (!strcmp(kind, "pre")) {
        /* key generation (fast sets), the FORS trees and the lowest layer of a signature, a whole verification */
        if (S->r.mh <= 6) { cur("key generation", 0, 0, 0, 0); u8 *k0 = sk, *p = mk(2 * n, 1); sk = mk(4 * n, 1); if (m_gen(p) != 1) viol("%s: key generation fails", S->name); sk = k0; cnt++; }
        unsigned F = n * (1 + S->r.k * (S->r.t + 1) + (2 * n + 3) + S->r.mh); cur("signing", 0, 0, 0, 0); memset(CTX, 3, sizeof *CTX); m_isign(CTX, rng); cnt++;
        for (unsigned p = 0; p < F;) { unsigned k = p % 5 ? 61 : 5 * n, w = k < F - p ? k : F - p; u8 *d = mk(w, 1); unsigned g = x_sign(d, w, CTX); if (g != w) viol("%s: signer returned %u instead of %u", S->name, g, w); memcpy(sig + p, d, w); p += w;
#ifdef MON
            gfree(d, w, 1);
#else
            free(d);
#endif
        }
        fill(sig + F, L - F, 4); memset(CTX, 9, sizeof *CTX); cur("verifying", 0, 0, 0, 0); m_iver(CTX); cnt++;
        for (unsigned p = 0; p < (unsigned)L;) { unsigned k = p % 3 ? 100 : 3 * n + 1, w = k < L - p ? k : L - p; u8 *d = mk(w, 1); memcpy(d, sig + p, w); m_update(d, w, CTX); p += w;
#ifdef MON
            gfree(d, w, 1);
#else
            free(d);
#endif
        }
        if (m_verify(CTX)) viol("%s: half a signature accepted", S->name);
        seen_add(&outs, hash64(sig, F, 1), 1);
    } else if (!strcmp(kind, "msg")) {
        /* messages of every length, at either side of an inaccessible page */
        ref_prf_msg(&S->r, sk, opt, msg, len, exp);
        for (len = 0; len <= (tier_thorough ? 1100u : 300u); len++) for (int tail = 0; tail < 2; tail++) {
            cur("message of %ld bytes, tail %ld", len, tail, 0, 0); msg = mk(len, tail); fill(msg, len, 3); cnt++;
            memset(CTX, 7, sizeof *CTX); m_isign(CTX, tail ? rng : 0); x_sign(sig, n, CTX); seen_add(&outs, hash64(sig, n, 1), len);
            memset(CTX, 7, sizeof *CTX); m_iver(CTX); m_update(sig, n, CTX); 
#ifdef MON
            gfree(msg, len, tail);
#else
            free(msg);
#endif
        }
    }
    STATES(outs.n); TRANS(calls); EXECS(cnt);
#ifdef MON
    stat_add("accesses_checked", accs);
#endif
    sample("%s: %s, %llu calls, %llu accesses checked", S->name, kind, (unsigned long long)calls, (unsigned long long)accs);
}
