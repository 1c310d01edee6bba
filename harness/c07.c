/*
 * C07: results depend on the inputs only.
 * pair:   (operation A of set A abandoned at position p) x (operation B of set B) on the same context and the
 *         same caller buffers, all residues that A's reachable states leave.
 * fill:   every uniform content of the context; stack: every uniform content of the unused stack, before every call.
 * align:  every alignment of every buffer;  hist: tens of thousands of earlier operations.
 */
#include "common.h"
#include "stk.h"
enum { KEYGEN, SIGN, VGOOD, VBAD, NK };
static const char *KN[] = { "key generation", "signing", "verification of a genuine signature", "verification of an altered signature" };
#define MAXMSG 4200
struct set { struct tset *t; int n, L; u8 sk[128], msg[MAXMSG], opt[32], *sig, *bad; size_t len; };
static struct set A[96]; static int NA;
static u8 *SK, *PK, *MSG, *SIG; static u64 cnt, calls; static struct seen res;
static u8 *RB; static size_t RBn;
static int rng(unsigned char *p, size_t k) { for (size_t i = 0; i < k; i++) p[i] = i < RBn ? RB[i] : 0x42; return 1; }
static void prep_len(struct tset *t, int cheap, size_t len) {
    struct set *a = &A[NA++]; a->t = t; a->n = t->r.n; a->L = ref_sig_len(&t->r);
    key_for(t, 700 + NA % 5, a->sk); a->len = len ? len : (size_t)(13 + NA % 7); fill(a->msg, MAXMSG, NA); fill(a->opt, 32, NA + 1);
    a->sig = malloc(a->L); a->bad = malloc(a->L);
    if (cheap) impl_sign_all(t, CTX, a->sk, a->msg, a->len, a->opt, a->sig); else ref_sign(&t->r, a->sk, a->opt, a->msg, a->len, a->sig);
    memcpy(a->bad, a->sig, a->L); a->bad[a->L / 2] ^= 4; 
    if (ref_verify(&t->r, a->sk + 2 * a->n, a->msg, a->len, a->bad, a->L)) a->bad[a->L / 2 + 1] ^= 8;
}
static void prep(struct tset *t, int cheap) { prep_len(t, cheap, 0); }
static void put(struct set *b) { memcpy(SK, b->sk, 4 * b->n); memcpy(PK, b->sk + 2 * b->n, 2 * b->n); memcpy(MSG, b->msg, b->len); RB = b->opt; RBn = b->n; }
static void begin(struct set *b, int kind) { put(b); calls++; if (kind == SIGN) ts_init_sign(CTX, MSG, b->len, b->t->ps, SK, rng); else ts_init_verify(CTX, MSG, b->len, b->t->ps, PK); }
/* run B to its end on the context as it is, and compare; upto: how much of a signature */
static void runB(struct set *b, int kind, unsigned chunk, unsigned upto, const char *why, int x, int y) {
    cnt++;
    if (kind == KEYGEN) {
        u8 seed[96]; memcpy(seed, b->sk, 3 * b->n); memset(SK, 0x3d, 4 * b->n); memset(PK, 0x3e, 2 * b->n); RB = seed; RBn = 96; calls++;
        if (ts_gen_key(SK, PK, b->t->ps, rng) != 1 || memcmp(SK, b->sk, 4 * b->n) || memcmp(PK, b->sk + 2 * b->n, 2 * b->n)) viol("%s: key generation gives another key after %s (%d,%d)", b->t->name, why, x, y);
        return;
    }
    begin(b, kind);
    if (kind == SIGN) {
        if (upto > (unsigned)b->L) upto = b->L;
        for (unsigned q = 0; q < upto; q += chunk) { unsigned k = chunk < upto - q ? chunk : upto - q; calls++; if (ts_sign(SIG + q, k, CTX) != k) viol("%s: signing stops at %u after %s (%d,%d)", b->t->name, q, why, x, y); }
        if (memcmp(SIG, b->sig, upto)) { unsigned q = 0; while (SIG[q] == b->sig[q]) q++; viol("%s: signature differs at byte %u after %s (%d,%d)", b->t->name, q, why, x, y); }
    } else {
        memcpy(SIG, kind == VGOOD ? b->sig : b->bad, b->L);
        for (int q = 0; q < b->L; q += chunk) { int k = (int)chunk < b->L - q ? (int)chunk : b->L - q; calls++; ts_update_verify(SIG + q, k, CTX); }
        calls++; if (ts_verify(CTX) != (kind == VGOOD)) viol("%s: %s gives %d after %s (%d,%d)", b->t->name, KN[kind], kind != VGOOD, why, x, y);
    }
}
static char why[200];
static void advance(struct set *a, int kind, unsigned p, unsigned k) { calls++; if (kind == SIGN) ts_sign(SIG + p, k, CTX); else { memcpy(SIG, (kind == VGOOD ? a->sig : a->bad) + p, k); ts_update_verify(SIG, k, CTX); } }
/* positions around every change of phase, every offset inside the first two and the last element */
static int special(struct set *a, unsigned *out, int few) {
    unsigned n = a->n, ft = n * (a->t->r.t + 1), f = n + a->t->r.k * ft, w = n * (2 * n + 3), lay = w + n * a->t->r.mh, L = a->L; int c = 0;
    unsigned edge[] = { n, 2 * n, n + ft, f, f + n, f + w, f + lay, f + lay + n, L - lay, L - lay + w, L - n, L };
    for (unsigned p = 0; p <= (few ? n + 1 : 2 * n + 1); p++) out[c++] = p;
    for (unsigned e = 0; e < sizeof edge / sizeof *edge; e++) for (int o = -2; o <= 2; o++) if (edge[e] + o <= L && edge[e] + o > 2 * n + 1) out[c++] = edge[e] + o;
    for (unsigned p = L - n; !few && p < L; p++) out[c++] = p;
    return c;
}
static void goto_pos(struct set *a, int kind, unsigned p) { begin(a, kind); if (p > (unsigned)a->n && p % 2) { advance(a, kind, 0, a->n - 1); advance(a, kind, a->n - 1, p - a->n + 1); } else if (p) advance(a, kind, 0, p); }
static void windows(struct set *b, int kind, unsigned upto, int few) {
    static unsigned P[400], Q[400];
    for (int i = 0; i < NA && i < (few ? 1 : 2); i++) for (int ka = SIGN; ka < NK; ka++) {
        int c = special(&A[i], P, few);
        for (int x = 0; x < c; x++) {
            if (A[i].t->real && A[i].t->r.mh > 6 && ka == SIGN && P[x] > (unsigned)A[i].n + 1) continue;
            snprintf(why, sizeof why, "%s with %s abandoned after %u of %d bytes", KN[ka], A[i].t->name, P[x], A[i].L); cur("window: A=%ld op %ld pos %ld", i, ka, P[x], 0);
            goto_pos(&A[i], ka, P[x]); runB(b, kind, cnt % 2 ? (unsigned)b->n + 1 : (unsigned)b->L, upto, why, i, P[x]);
        }
    }
    /* two abandoned operations before it */
    if (few || b->t->r.fam != FAM_ABS) return;
    int j = NA > 1 ? 1 : 0;
    for (int ka = SIGN; ka < NK; ka++) for (int kb = SIGN; kb < NK; kb++) for (int sw = 0; sw < 3; sw++) {
        struct set *a1 = &A[sw == 1 ? j : 0], *a2 = &A[sw == 2 ? j : 0]; int c1 = special(a1, P, 1), c2 = special(a2, Q, 1);
        for (int x = 0; x < c1; x += (x < a1->n ? 5 : 3) + 4 * (kind == SIGN)) for (int y = 0; y < c2; y += (y < a2->n ? 5 : 4) + 4 * (kind == SIGN)) {
            snprintf(why, sizeof why, "%s abandoned at %u, %s abandoned at %u", KN[ka], P[x], KN[kb], Q[y]); cur("twice: op %ld pos %ld, op %ld pos %ld", ka, P[x], kb, Q[y]);
            goto_pos(a1, ka, P[x]); goto_pos(a2, kb, Q[y]); seen_add(&res, hash64(CTX, sizeof *CTX, 1), hash64(CTX, sizeof *CTX, 2)); runB(b, kind, b->n, upto, why, P[x], Q[y]);
        }
    }
}
static void pairs(struct set *b, int kind, int stride, unsigned upto, int realA) {
    windows(b, kind, upto, realA || (b->t->r.fam != FAM_ABS && kind != VGOOD));
    struct ts_context *save = malloc(sizeof *save);
    for (int i = 0; i < NA; i++) for (int ka = SIGN; ka < NK; ka++) {
        struct set *a = &A[i]; begin(a, ka); unsigned p = 0; int step = 0;
        for (;;) {
            int here = step % stride == (i + ka) % stride || p >= (unsigned)a->L;
            if (here) {
                memcpy(save, CTX, sizeof *save);
                if (seen_add(&res, hash64(CTX, sizeof *CTX, 1), hash64(CTX, sizeof *CTX, 2)) || 1) {
                    snprintf(why, sizeof why, "%s with %s abandoned after %u of %d bytes", KN[ka], a->t->name, p, a->L);
                    cur("pair: A=%ld op %ld pos %ld", i, ka, p, 0);
                    runB(b, kind, kind == SIGN ? (cnt % 3 ? (unsigned)b->L : (unsigned)b->n + 1) : cnt % 5 ? (unsigned)b->L : (unsigned)b->n, upto, why, i, p);
                }
                memcpy(CTX, save, sizeof *save); put(a);
            }
            if (p >= (unsigned)a->L) break;
            unsigned k = realA ? (step % 2 ? 1 : (unsigned)a->n * 7) : step % 4 == 3 ? 1 : step % 4 == 0 && step ? (unsigned)a->n - 1 : (unsigned)a->n; if (k > a->L - p) k = a->L - p;
            if (realA && step > 60) break;
            cur("advance A=%ld op %ld pos %ld by %ld", i, ka, p, k); advance(a, ka, p, k); p += k; step++;
        }
    }
    /* and a key generation in front */
    for (int i = 0; i < NA; i++) if (A[i].t->r.mh <= 6 && !A[i].t->real) { runB(&A[i], KEYGEN, 0, 0, "other operations", i, 0); runB(b, kind, b->L, upto, "key generation with another set", i, 0); }
    free(save);
}
struct call { struct set *b; int kind; unsigned k, p; int r; };
static void do_call(void *v) { struct call *c = v; if (c->kind == 0) c->r = ts_gen_key(SK, PK, c->b->t->ps, rng); else if (c->kind == 1) ts_init_sign(CTX, MSG, c->b->len, c->b->t->ps, SK, rng); else if (c->kind == 2) c->r = ts_sign(SIG + c->p, c->k, CTX); else if (c->kind == 3) ts_init_verify(CTX, MSG, c->b->len, c->b->t->ps, PK); else if (c->kind == 4) c->r = ts_update_verify(c->b->sig + c->p, c->k, CTX); else c->r = ts_verify(CTX); }
static int on_painted(unsigned pat, struct call c) { stk_paint(pat); calls++; stk_run(do_call, &c); return c.r; }
static void stack_case(struct set *b, unsigned pat, unsigned chunk) {
    cur("stack pattern %ld, pieces of %ld", pat, chunk, 0, 0); memset(CTX, pat, sizeof *CTX); cnt++;
    u8 seed[96]; memcpy(seed, b->sk, 3 * b->n); RB = seed; RBn = 96; if (on_painted(pat, (struct call){ b, 0, 0, 0, 0 }) != 1 || memcmp(SK, b->sk, 4 * b->n)) viol("%s: key generation depends on the previous content of the stack (pattern %u)", b->t->name, pat);
    put(b); on_painted(pat, (struct call){ b, 1, 0, 0, 0 });
    for (int p = 0; p < b->L; p += chunk) { unsigned k = (int)chunk < b->L - p ? chunk : (unsigned)(b->L - p); on_painted(pat, (struct call){ b, 2, k, p, 0 }); }
    if (memcmp(SIG, b->sig, b->L)) viol("%s: the signature depends on the previous content of the stack (pattern %u, pieces of %u)", b->t->name, pat, chunk);
    memset(CTX, ~pat, sizeof *CTX); on_painted(pat, (struct call){ b, 3, 0, 0, 0 });
    for (int p = 0; p < b->L; p += chunk) { unsigned k = (int)chunk < b->L - p ? chunk : (unsigned)(b->L - p); if (on_painted(pat, (struct call){ b, 4, k, p, 0 }) != 1) viol("%s: verification depends on the stack content (pattern %u)", b->t->name, pat); }
    if (on_painted(pat, (struct call){ b, 5, 0, 0, 0 }) != 1) viol("%s: verification depends on the stack content (pattern %u)", b->t->name, pat);
}
void list_jobs(void) {
    for (int i = 0; i < NTOYS; i++) for (int k = 0; k < NK - 1; k++) job_line("pair:%s:%d 20", TOYS[i].name, k);
    for (int i = 0; i < NABST; i++) if (ABST[i].r.d < 7) for (int k = 1; k < NK; k++) job_line("pair:%s:%d 10", ABST[i].name, k);
    for (int i = 0; i < NSETS; i++) for (int k = 1; k < NK - 1; k++) job_line("pairreal:%s:%d %d", SETS[i].name, k, SETS[i].r.mh > 6 ? 60 : 15);
    for (int i = 0; i < NTOYS; i++) { job_line("fill:%s:0 10", TOYS[i].name); job_line("stack:%s:0 20", TOYS[i].name); job_line("align:%s:0 10", TOYS[i].name); }
    for (int i = 0; i < NABST; i++) { if (ABST[i].r.d < 7) { job_line("fill:%s:0 10", ABST[i].name); job_line("hist:%s:0 10", ABST[i].name); } job_line("stack:%s:0 10", ABST[i].name); }
    for (int i = 0; i < NTOYS; i++) job_line("long:%s:0 20", TOYS[i].name);
    for (int i = 0; i < NSETS; i++) if (SETS[i].r.mh <= 6) for (int q = 0; q < (tier_thorough ? 1 : 4); q++) job_line("long:%s:%d 20", SETS[i].name, q);
    for (int i = 0; i < NSETS; i++) if (SETS[i].r.mh <= 6 || tier_thorough) { job_line("stack:%s:0 20", SETS[i].name); job_line("align:%s:0 20", SETS[i].name); }
}
void run_job(const char *job) {
    char kind[16], name[40]; int k; if (sscanf(job, "%15[^:]:%39[^:]:%d", kind, name, &k) != 3) exit(3);
    struct tset *t = set_by_name(name); if (!t) exit(3);
    SK = gbuf(128, 1); PK = gbuf(64, 1); MSG = gbuf(MAXMSG, 1); SIG = gbuf(65536, 1);
    int fam = t->r.fam;
    if (!strcmp(kind, "pair")) {
        /* A: every toy and small abstract set */
        prep(t, 0); for (int i = 0; i < NTOYS; i++) prep(&TOYS[i], 0); for (int i = 0; i < NABST; i++) if (ABST[i].r.d < 7) prep(&ABST[i], 0);
        pairs(&A[0], k, tier_thorough ? 1 : k == KEYGEN ? 29 : fam == FAM_ABS ? 4 : k == SIGN ? 19 : 7, 1 << 20, 0);
    } else if (!strcmp(kind, "pairreal")) {
        prep(t, t->r.mh > 6); for (int i = 0; i < NSETS; i++) if (SETS[i].r.mh <= 6) prep(&SETS[i], 1); for (int i = 0; i < NTOYS; i++) prep(&TOYS[i], 0);
        for (int i = 0; i < NABST; i++) if (ABST[i].r.d >= 7 && ABST[i].r.mh <= 6 && ABST[i].r.sha2adr == (i & 1)) prep(&ABST[i], 0);
        pairs(&A[0], k, t->r.mh > 6 ? 27 : 9, k == SIGN ? (t->r.mh > 6 ? t->r.n : 3 * t->r.n) : 1 << 20, 1);
    } else if (!strcmp(kind, "fill")) {
        prep(t, 0); struct set *b = &A[0];
        for (int v = 0; v < 256; v += fam == FAM_ABS || tier_thorough ? 1 : 15) for (int op = SIGN; op < NK; op++) { memset(CTX, v, sizeof *CTX); cur("context filled with %ld, op %ld", v, op, 0, 0); runB(b, op, b->n + 1, 1 << 20, "the context was filled with this byte", v, op); }
        /* small integers in every word of the context */
        for (unsigned off = 0; off + 4 <= sizeof *CTX; off += fam == FAM_ABS ? 4 : 52) for (int v = 0; v < 16; v += fam == FAM_ABS ? 1 : 5) for (int op = SIGN; op < VBAD; op++) { memset(CTX, 0x80 | v, sizeof *CTX); u32 w = v; memcpy((u8 *)CTX + off, &w, 4); cur("word %ld of the context = %ld, op %ld", off, v, op, 0); runB(b, op, b->L, 1 << 20, "a context word held a small number", off, v); }
    } else if (!strcmp(kind, "stack")) {
        prep(t, t->r.mh > 6); struct set *b = &A[0]; int S = t->r.mh > 6;
        int np = tier_thorough ? 260 : S ? 2 : t->real || t->r.d >= 7 ? 3 : fam == FAM_ABS ? 64 : 6;
        for (int i = 0; i < np; i++) { unsigned pat = np > 8 ? (np == 64 ? (unsigned)i * 5 : (unsigned)i) : (unsigned[]){ 0, 0xff, 0xa5, 1, 0x7f, 300 }[i]; if (S && !i) pat = 300; stack_case(b, pat, i % 2 ? 3 * b->n + 1 : t->r.d >= 7 ? 97 * b->n : b->n - 1); }
    } else if (!strcmp(kind, "align")) {
        prep(t, t->r.mh > 6); struct set *b = &A[0];
        u8 *sk = gbuf(160, 1), *pk = gbuf(96, 1), *m = gbuf(MAXMSG + 32, 1), *sg = gbuf(65568, 1); u8 *cx = (u8 *)gbuf(sizeof *CTX + 256, 1); struct ts_context *old = CTX;
        for (int o = 0; o < 16; o++) for (int w = 0; w < (t->real ? 2 : 5); w++) {
            if (t->real && !tier_thorough && o % 4 != 1 && w) continue;
            if (w == 0) { SK = sk + o; PK = pk + o; MSG = m + o; SIG = sg + o; } else { SK = sk + (w == 1 ? o : 0); PK = pk + (w == 2 ? o : 0); MSG = m + (w == 3 ? o : 0); SIG = sg + (w == 4 ? o : 0); }
            CTX = (struct ts_context *)(cx + 16 * o + ((o + w) % 2) * 8);
            cur("alignment offset %ld variant %ld", o, w, 0, 0);
            for (int op = KEYGEN; op < NK; op++) { if (t->real && op == SIGN && o % 8 != 3) { runB(b, op, b->n + 1, 5 * b->n, "buffers moved", o, w); continue; } runB(b, op, b->n + 1, 1 << 20, "buffers moved", o, w); }
        }
        CTX = old;
    } else if (!strcmp(kind, "long")) {
        /* every alignment of messages of every length around every block boundary, for what depends on the message: R and the first FORS element, and the verdict */
        u8 *m = gbuf(MAXMSG + 32, 1); static const int at[] = { 55, 63, 64, 71, 72, 111, 119, 120, 127, 128, 135, 136, 143, 144, 255, 256, 271, 272, 279, 383, 384, 407, 408, 512, 543, 544, 1023, 1024, 1087, 1088, 2047, 2048, 4096 };
        for (unsigned q = 0; q < sizeof at / sizeof *at; q++) {
            if (t->real && !tier_thorough && q % 4 != (unsigned)k) continue;
            for (int dl = -2; dl <= (t->real ? 1 : 2); dl++) {
                NA = 0; prep_len(t, t->r.mh > 6, at[q] + (t->real ? 16 * dl + dl : dl * (q % 3 + 1) * 7)); struct set *b = &A[0];
                for (int o = 0; o < 16; o++) {
                    MSG = m + o; memset(m, 0xd7, MAXMSG + 32); cur("message of %ld bytes at alignment offset %ld", b->len, o, 0, 0);
                    runB(b, SIGN, b->n + 1, t->real ? 2 * b->n : b->L, "the message moved", o, q); if (!t->real || o % 8 == (int)(q + dl) % 8) runB(b, VGOOD, b->L, 0, "the message moved", o, q);
                }
                free(A[0].sig); free(A[0].bad);
            }
        }
    } else if (!strcmp(kind, "hist")) {
        prep(t, 0); prep(fam == FAM_ABS && t != &ABST[0] ? &ABST[0] : &ABST[1], 0);
        int N = tier_thorough ? 140000 : 66000 / 8; if (!strcmp(name, "abs22_16_k2t2d2m2")) N = 66500;
        for (int i = 0; i < N; i++) { cur("operation %ld in a row", i, 0, 0, 0); runB(&A[i % 97 == 5], i % 3 == 2 ? VBAD : i % 3 ? VGOOD : SIGN, A[0].L, 1 << 20, "many operations", i, 0); if (i % 16 == 0) runB(&A[0], KEYGEN, 0, 0, "many operations", i, 0); }
    } else exit(3);
    STATES(res.n ? res.n : cnt); TRANS(calls); EXECS(cnt);
    sample("%s %s op %d: %llu operations run after / on another residue, %zu distinct context residues", kind, t->name, k, (unsigned long long)cnt, res.n);
}
