/*
 * C09: operations on different contexts never interfere.
 * grid:  all call-level interleavings of 2 or 3 operations, by exploration of the product of their states
 *        (contexts + static storage), steps in any order.
 * nest:  operation B advanced from inside the random function of operation A, at every state of B.
 * thr:   two operations in two threads under a controlled scheduler, preemption at every hash call-back (abstract
 *        sets); por: the same on the instrumented build, scheduling points are the accesses to memory that is not
 *        the thread's own, plus function entries.
 */
#include "common.h"
#include <pthread.h>
#include <semaphore.h>
enum { GEN, SIGN, VER, VERBAD };
static const char *KN[] = { "key generation", "signing", "verifying", "verifying an altered signature" };
struct op { struct tset *s; int kind, n, L; unsigned chunk; struct ts_context *c; u8 *sk, *pk, *kout, *pout, *msg, *sig, *out, seed[96]; size_t len; int id; };
static u64 cnt, trans, nstates, scheds;
#define NOP 8
static struct op OPS[NOP];
static int rngN(int i, unsigned char *p, size_t k);
#define RN(i) static int rng##i(unsigned char *p, size_t k) { return rngN(i, p, k); }
RN(0) RN(1) RN(2) RN(3) RN(4) RN(5) RN(6) RN(7)
static int (*RNGS[NOP])(unsigned char *, size_t) = { rng0, rng1, rng2, rng3, rng4, rng5, rng6, rng7 };
static void (*in_rng)(int i);
static int rngN(int i, unsigned char *p, size_t k) { if (in_rng) { void (*f)(int) = in_rng; in_rng = 0; f(i); } for (size_t j = 0; j < k; j++) p[j] = j < 96 ? OPS[i].seed[j] : 0; return 1; }
static char what[256];
/* ctxm: contexts are slots of one array, directly adjacent */
static struct ts_context *CT;
static void op_init(int i, struct tset *s, int kind, int salt, unsigned chunk) {
    struct op *o = &OPS[i]; memset(o, 0, sizeof *o); o->id = i; o->s = s; o->kind = kind; o->n = s->r.n; o->L = ref_sig_len(&s->r); o->chunk = chunk ? chunk : (unsigned)o->n; o->c = &CT[i];
    int n = o->n; o->sk = gbuf(4 * n, 1); o->pk = gbuf(2 * n, 1); o->kout = gbuf(4 * n, 1); o->pout = gbuf(2 * n, 1); o->len = 11 + 5 * salt; o->msg = gbuf(o->len, 1); o->sig = gbuf(o->L, 1); o->out = gbuf(o->L, 1);
    key_for(s, 40 + salt, o->sk); memcpy(o->pk, o->sk + 2 * n, 2 * n); fill(o->msg, o->len, salt);
    if (kind == GEN) memcpy(o->seed, o->sk, 3 * n);
    else { fill(o->seed, n, 9 + salt); static struct { struct tset *s; int salt; u8 *sig; } memo[64]; static int nm; int f = -1; for (int q = 0; q < nm; q++) if (memo[q].s == s && memo[q].salt == salt) f = q;
        if (f >= 0) memcpy(o->sig, memo[f].sig, o->L);
        else if (s->real) { memcpy(RNG_bytes, o->seed, n); impl_sign_all(s, CTX, o->sk, o->msg, o->len, o->seed, o->sig); } else ref_sign(&s->r, o->sk, o->seed, o->msg, o->len, o->sig);
        if (f < 0 && nm < 64) { memo[nm].s = s; memo[nm].salt = salt; memo[nm].sig = malloc(o->L); memcpy(memo[nm++].sig, o->sig, o->L); }
        if (kind == VERBAD) o->sig[o->L - 3] ^= 1; }
}
static int nsteps(struct op *o) { return o->kind == GEN ? 1 : 1 + (o->L + o->chunk - 1) / o->chunk + 1; }
static void op_step(struct op *o, int st) {
    trans++;
    if (o->kind == GEN) { memset(o->kout, 0x19, 4 * o->n); if (ts_gen_key(o->kout, o->pout, o->s->ps, RNGS[o->id]) != 1 || memcmp(o->kout, o->sk, 4 * o->n) || memcmp(o->pout, o->pk, 2 * o->n)) viol("%s: %s: key generation of %s gives another key", what, "interference", o->s->name); return; }
    if (st == 0) { if (o->kind == SIGN) ts_init_sign(o->c, o->msg, o->len, o->s->ps, o->sk, RNGS[o->id]); else ts_init_verify(o->c, o->msg, o->len, o->s->ps, o->pk); return; }
    unsigned p = (st - 1) * o->chunk;
    if (p >= (unsigned)o->L) {
        if (o->kind == SIGN) { u8 b[4]; if (ts_sign(b, 4, o->c)) viol("%s: signing of %s does not end", what, o->s->name); }
        else if ((ts_verify(o->c) != 0) != (o->kind == VER)) viol("%s: %s with %s ends with the wrong verdict", what, KN[o->kind], o->s->name);
        return;
    }
    unsigned k = o->chunk < o->L - p ? o->chunk : o->L - p;
    if (o->kind == SIGN) { unsigned g = ts_sign(o->out + p, k, o->c); if (g != k || memcmp(o->out + p, o->sig + p, k)) viol("%s: signing with %s: wrong bytes in the piece at %u", what, o->s->name, p); }
    else { int r = ts_update_verify(o->sig + p, k, o->c); if (!r && o->kind == VER) viol("%s: verifying with %s: genuine piece at %u refused", what, o->s->name, p); }
}
/* ---------------------------------------------------------------- product exploration */
struct img { struct img *next; u64 h1, h2; u8 *b; };
static size_t isz; static int N;
static u8 *snap(void) { u8 *b = malloc(isz); for (int i = 0; i < N; i++) memcpy(b + i * sizeof *CT, &CT[i], sizeof *CT); lib_static_save(b + N * sizeof *CT); return b; }
static void back(const u8 *b) { for (int i = 0; i < N; i++) memcpy(&CT[i], b + i * sizeof *CT, sizeof *CT); lib_static_load(b + N * sizeof *CT); }
static int put(struct img **cell) {
    u8 *b = snap(); u64 a = hash64(b, isz, 1), c = hash64(b, isz, 3); int q = 0;
    for (struct img *i = *cell; i; i = i->next, q++) if (i->h1 == a && i->h2 == c) { free(b); return 0; }
    if (q >= 8) { free(b); note_capped("more than 8 product states in one cell"); return 0; }
    struct img *i = malloc(sizeof *i); i->b = b; i->h1 = a; i->h2 = c; i->next = *cell; *cell = i; nstates++; return 1;
}
static void grid(int nop) {
    N = nop; isz = N * sizeof *CT + lib_static_size(); int d[3] = { 1, 1, 1 }; for (int i = 0; i < N; i++) d[i] = nsteps(&OPS[i]) + 1;
    struct img **cells = calloc((size_t)d[0] * d[1] * d[2], sizeof *cells);
    for (int i = 0; i < N; i++) memset(&CT[i], 0x40 + i, sizeof *CT);
    snprintf(what, sizeof what, "interleaved call by call with");
    for (int i = 0; i < N; i++) snprintf(what + strlen(what), sizeof what - strlen(what), "%s %s (%s)", i ? " /" : "", KN[OPS[i].kind], OPS[i].s->name);
    put(&cells[0]);
    for (int a = 0; a < d[0]; a++) for (int b = 0; b < d[1]; b++) for (int e = 0; e < d[2]; e++) {
        struct img **cell = &cells[(a * d[1] + b) * d[2] + e]; int pos[3] = { a, b, e };
        for (struct img *im = *cell; im; im = im->next) for (int i = 0; i < N; i++) {
            if (pos[i] + 1 >= d[i]) continue;
            cur("product state (%ld,%ld,%ld), step of operation %ld", a, b, e, i); back(im->b);
            /* the neighbours' contexts must not be touched either */
            op_step(&OPS[i], pos[i]);
            for (int j = 0; j < N; j++) if (j != i && memcmp(im->b + j * sizeof *CT, &CT[j], sizeof *CT)) viol("%s: a step of %s (%s) changed the context of another operation", what, KN[OPS[i].kind], OPS[i].s->name);
            int q[3] = { a, b, e }; q[i]++;
            put(&cells[(q[0] * d[1] + q[1]) * d[2] + q[2]]);
        }
        while (*cell) { struct img *x = *cell; *cell = x->next; free(x->b); free(x); }
    }
    free(cells); cnt++;
}
/* ---------------------------------------------------------------- nested calls */
static int nest_i, nest_from, nest_to;
static int chain[3], nchain;
static void nest_steps(int i) { (void)i; for (int s = nest_from; s < nest_to; s++) op_step(&OPS[nest_i], s); }
static void nest_chain(int i) { (void)i; if (nchain < 2) { nchain++; in_rng = nest_chain; struct op *o = &OPS[nchain]; in_rng = nest_chain; for (int s = 0; s < nsteps(o); s++) op_step(o, s); } }
static void nest_pair(void) {
    struct op *A = &OPS[0], *B = &OPS[1]; int nb = nsteps(B), na = nsteps(A);
    snprintf(what, sizeof what, "%s (%s) advanced inside the random function of %s (%s)", KN[B->kind], B->s->name, KN[A->kind], A->s->name);
    for (int f = 0; f <= nb; f++) for (int t = f; t <= nb; t++) {
        if (t != f + 1 && t != nb && f != 0) continue;
        cur("nested steps %ld to %ld", f, t, 0, 0); memset(CT, 0x33, 4 * sizeof *CT);
        for (int s = 0; s < f; s++) op_step(B, s);
        nest_i = 1; nest_from = f; nest_to = t; in_rng = nest_steps; op_step(A, 0); if (in_rng) { in_rng = 0; viol("%s: random function not called", what); }
        int s = 1, b = t; while (s < na || b < nb) { if (s < na) op_step(A, s++); if (b < nb) op_step(B, b++); }
        nstates++; cnt++;
    }
}
/* ---------------------------------------------------------------- controlled threads */
static int active_thr, nthr, finished[2]; static u64 points[2], plan_at[2]; static int plan_on[2]; static sem_t go[2];
static __thread int me = -1; static int counting;
static u8 *tstk[2]; enum { TSTK = 1 << 18 };
static void point(void) {
    int t = me; if (t < 0) return;
    u64 p = points[t]++; if (counting) return;
    if (plan_on[t] && p == plan_at[t] && !finished[1 - t]) { plan_on[t] = 0; sem_post(&go[1 - t]); sem_wait(&go[t]); }
}
static void *thr(void *v) {
    int t = (int)(intptr_t)v; sem_wait(&go[t]); me = t; struct op *o = &OPS[t];
    for (int s = 0; s < nsteps(o); s++) op_step(o, s);
    me = -1; finished[t] = 1; sem_post(&go[1 - t]); return 0;
}
static void run_threads(int p_on, u64 p, int q_on, u64 q, int first) {
    pthread_t th[2]; pthread_attr_t at; finished[0] = finished[1] = 0; points[0] = points[1] = 0;
    plan_on[first] = p_on; plan_at[first] = p; plan_on[1 - first] = q_on; plan_at[1 - first] = q;
    for (int t = 0; t < 2; t++) { sem_init(&go[t], 0, 0); memset(&CT[t], 0x51, sizeof *CT); }
    for (int t = 0; t < 2; t++) { pthread_attr_init(&at); pthread_attr_setstack(&at, tstk[t], TSTK); pthread_create(&th[t], &at, thr, (void *)(intptr_t)t); pthread_attr_destroy(&at); }
    sem_post(&go[first]); pthread_join(th[0], 0); pthread_join(th[1], 0); scheds++; cnt++;
}
/* solo runs: number of points of each */
static u64 NP[2];
static void solo(int t) { counting = 1; points[t] = 0; memset(&CT[t], 0x51, sizeof *CT); me = t; for (int s = 0; s < nsteps(&OPS[t]); s++) op_step(&OPS[t], s); me = -1; counting = 0; NP[t] = points[t]; }
static void explore_threads(u64 maxp, u64 maxq) {
    for (int t = 0; t < 2; t++) if (!tstk[t]) tstk[t] = gbuf(TSTK, 1);
    solo(0); solo(1);
    snprintf(what, sizeof what, "two threads, %s (%s) and %s (%s)", KN[OPS[0].kind], OPS[0].s->name, KN[OPS[1].kind], OPS[1].s->name);
    for (int first = 0; first < 2; first++) {
        cur("no preemption, thread %ld first", first, 0, 0, 0); run_threads(0, 0, 0, 0, first);
        u64 a = NP[first], b = NP[1 - first], sp = a / maxp + 1, sq = maxq ? b / maxq + 1 : 0;
        for (u64 p = 0; p < a; p += sp) {
            cur("thread %ld preempted at point %ld, other runs to its end", first, p, 0, 0); run_threads(1, p, 0, 0, first);
            if (maxq) for (u64 q = 0; q < b; q += sq) { cur("thread %ld preempted at point %ld, the other at its point %ld", first, p, q, 0); run_threads(1, p, 1, q, first); }
        }
    }
    nstates += NP[0] + NP[1]; stat_add("scheduling_points", NP[0] + NP[1]);
}
#ifdef MON
extern void (*vpmon_hook)(uintptr_t, size_t, int); extern char __executable_start[], __data_start[];
static u64 shared[2];
static int own(int t, uintptr_t a) {
    struct op *o = &OPS[t];
#define IN(p, l) (a >= (uintptr_t)(p) && a < (uintptr_t)(p) + (l))
    return (a >= (uintptr_t)__executable_start && a < (uintptr_t)__data_start) || IN(tstk[t], TSTK) || IN(o->c, sizeof *CT) || IN(o->sk, 4 * o->n) || IN(o->pk, 2 * o->n) || IN(o->msg, o->len) || IN(o->sig, o->L) || IN(o->out, o->L) || IN(o->kout, 4 * o->n) || IN(o->pout, 2 * o->n) || IN(o->s->ps, PS_SIZE);
}
static uintptr_t mainlo, mainhi;
static void hook(uintptr_t a, size_t s, int w) { (void)s; (void)w; if (me < 0) return; if (own(me, a) || (a >= mainlo && a < mainhi)) return; shared[me]++; point(); }
#endif
#ifndef VP_PLAIN
/* abstract call-backs with a scheduling point in each */
static struct ts_parameter_set ORIG;
#define WRAP(ret, nm, decl, call) static ret w_##nm decl { point(); ORIG.nm call; point(); }
WRAP(void, prf_msg, (unsigned char *o, const unsigned char *a, const unsigned char *m, size_t l, struct ts_context *c), (o, a, m, l, c))
WRAP(void, hash_msg, (unsigned char *o, size_t ol, const unsigned char *a, const unsigned char *m, size_t l, struct ts_context *c), (o, ol, a, m, l, c))
WRAP(void, prf, (unsigned char *o, struct ts_context *c), (o, c))
WRAP(void, f, (unsigned char *o, const unsigned char *i, struct ts_context *c), (o, i, c))
WRAP(void, init_t, (union t_iterator *t, struct ts_context *c), (t, c))
WRAP(void, next_t, (union t_iterator *t, const unsigned char *i, const struct ts_context *c), (t, i, c))
WRAP(void, final_t, (unsigned char *o, union t_iterator *t, const struct ts_context *c), (o, t, c))
static void wrap(struct tset *s) { ORIG = s->buf; s->buf.prf_msg = w_prf_msg; s->buf.hash_msg = w_hash_msg; s->buf.prf = w_prf; s->buf.f = w_f; s->buf.init_t = w_init_t; s->buf.next_t = w_next_t; s->buf.final_t = w_final_t; }
#else
static void wrap(struct tset *s) { }
#endif

static struct tset *pick(int i) { static const char *nm[] = { "toy_shake_16", "toy_sha2_16", "toy_sha2_24", "toy_sha2_32", "toy_shake_32", "abs32_16_k2t2d2m2", "abs22_24_force", "toy_shake_24" }; return set_by_name(nm[i]); }
void list_jobs(void) {
#ifdef MON
    if (!derived_dropped) for (int a = 0; a < 8; a++) for (int b = a; b < 8; b++) for (int k = 0; k < 9; k++) { if (!tier_thorough && (a + b + k) % 3 && a != b) continue; job_line("por:%d:%d:%d 10", a, b, k); }
#else
    if (!derived_dropped) {
    for (int a = 0; a < 8; a++) for (int b = a; b < 8; b++) job_line("grid:%d:%d:0 %d", a, b, 20);
    for (int a = 0; a < 8; a++) job_line("grid3:%d:%d:0 10", a, (a + 3) % 8);
    for (int a = 0; a < 8; a++) for (int b = 0; b < 8; b++) job_line("nest:%d:%d:0 6", a, b);
    for (int k = 0; k < 9; k++) for (int i = 5; i < 7; i++) job_line("thr:%d:%d:%d 25", i, i, k);
    }
    for (int i = 0; i < NSETS; i++) job_line("real:%d:%d:0 %d", i, (i + 5) % NSETS, 10);
#endif
}
void run_job(const char *job) {
    char kind[16]; int a, b, k; if (sscanf(job, "%15[^:]:%d:%d:%d", kind, &a, &b, &k) != 4) exit(3);
    CT = (struct ts_context *)gbuf(NOP * sizeof *CT, 1);
    if (!strcmp(kind, "grid")) {
        struct tset *A = pick(a), *B = pick(b);
        for (int ka = GEN; ka <= VERBAD; ka++) for (int kb = GEN; kb <= VERBAD; kb++) {
            if (!tier_thorough && ka == SIGN && kb == SIGN && (A->r.fam != FAM_ABS || B->r.fam != FAM_ABS) && a != b && (a + b) % 3) continue;
            unsigned ca = tier_thorough ? A->r.n : A->r.fam == FAM_ABS ? 3 * A->r.n + 1 : (ka == SIGN ? 7 : 5) * A->r.n + 3, cb = tier_thorough ? B->r.n : B->r.fam == FAM_ABS ? 2 * B->r.n : (kb == SIGN ? 6 : 4) * B->r.n + 5;
            op_init(0, A, ka, 1, ca); op_init(1, B, kb, 2, cb); grid(2);
            if (a == b && ka && kb) { OPS[1].sk = OPS[0].sk; OPS[1].pk = OPS[0].pk; if (kb == SIGN || kb == VER || kb == VERBAD) { ref_sign(&B->r, OPS[1].sk, OPS[1].seed, OPS[1].msg, OPS[1].len, OPS[1].sig); if (kb == VERBAD) OPS[1].sig[OPS[1].L - 3] ^= 1; } grid(2); }   /* the same key buffer */
        }
    } else if (!strcmp(kind, "grid3")) {
        for (int m = 0; m < 64; m++) { if (!tier_thorough && m % 4 == 3) continue; struct tset *s[3] = { pick(a), pick(b), pick((a + b + 1) % 8) }; for (int i = 0; i < 3; i++) op_init(i, s[i], (m >> 2 * i) & 3, i, ref_sig_len(&s[i]->r) / (tier_thorough ? 6 : 3) + 1 + i); grid(3); }
    } else if (!strcmp(kind, "nest")) {
        struct tset *A = pick(a), *B = pick(b);
        for (int ka = GEN; ka <= SIGN; ka++) for (int kb = GEN; kb <= VERBAD; kb++) { op_init(0, A, ka, 3, 9 * A->r.n + 1); op_init(1, B, kb, 4, (tier_thorough ? 2 : B->r.fam == FAM_ABS ? 8 : 17) * B->r.n + 1); nest_pair(); }
        /* three deep */
        for (int m = 0; m < 16; m++) { op_init(0, A, m & 1, 1, 99); op_init(1, B, m >> 1 & 1, 2, 100); op_init(2, pick((a + b) % 8), m >> 2, 3, 101); nchain = 0; in_rng = nest_chain; snprintf(what, sizeof what, "operations nested three deep"); for (int s = 0; s < nsteps(&OPS[0]); s++) op_step(&OPS[0], s); in_rng = 0; cnt++; nstates++; }
    } else if (!strcmp(kind, "thr")) {
        struct tset *A = pick(a); wrap(A); op_init(0, A, k / 3, 1, 0); op_init(1, A, k % 3, 2, 0);
        explore_threads(tier_thorough ? 1 << 30 : 700, tier_thorough ? 60 : 2);
    } else if (!strcmp(kind, "real")) {
        struct tset *A = &SETS[a], *B = &SETS[b]; int Sa = A->r.mh > 6, Sb = B->r.mh > 6;
        for (int ka = GEN; ka <= VERBAD; ka++) for (int kb = GEN; kb <= VERBAD; kb++) {
            if ((ka == SIGN && Sa) || (kb == SIGN && Sb) || (ka == SIGN && kb == SIGN && !tier_thorough) || ((ka == GEN && Sa) && (kb == GEN && Sb))) continue;
            op_init(0, A, ka, 1, ref_sig_len(&A->r) / (ka == SIGN ? 2 : Sa ? 2 : 5) + 3); op_init(1, B, kb, 2, ref_sig_len(&B->r) / (kb == SIGN ? 2 : Sb ? 2 : 4) + 7); grid(2);
        }
    }
#ifdef MON
    else if (!strcmp(kind, "por")) {
        vpmon_hook = hook; char x; mainlo = (uintptr_t)&x - (1 << 20); mainhi = (uintptr_t)&x + (1 << 20);
        struct tset *A = pick(a), *B = pick(b); op_init(0, A, k / 3, 1, 0); op_init(1, B, k % 3, 2, 0);
        for (int t = 0; t < 2; t++) tstk[t] = gbuf(TSTK, 1);
        explore_threads(tier_thorough ? 3000 : 400, tier_thorough ? 20 : 3); stat_add("shared_accesses", shared[0] + shared[1]);
    }
#endif
    else exit(3);
    STATES(nstates); TRANS(trans); EXECS(cnt); if (scheds) stat_add("schedules", scheds);
    sample("%s %d/%d/%d: last: %s; %llu states, %llu steps", kind, a, b, k, what, (unsigned long long)nstates, (unsigned long long)trans);
}
