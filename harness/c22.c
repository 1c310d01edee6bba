/*
 * C22: what the library executes and which addresses it touches does not depend on secrets.  The library is built so
 * that every basic block and every load, store and mem* call is reported; the run of an operation is then a trace, and
 * all secrets enumerated have to give one and the same trace.
 *   gen    key generation, real hashes: every value of every byte of SK.seed (all chains are walked to the end)
 *   start  the signing-start call, real hashes: every value of every byte of SK.prf and SK.seed
 *   fors   the FORS part of the signature, real hashes, position fixed: every value of every byte of SK.seed
 *   whole  signing to the end.  WOTS+ digits are public but follow from the secrets, so here the hash is abstract: the
 *          values inside the chains depend on the secrets, the public nodes above them on their address only
 */
#include "common.h"
extern void (*vpmon_hook)(uintptr_t, size_t, int);
static u64 TH, TC; static uintptr_t SB; static int on;
static inline void ev(u64 w) { TH = (TH ^ w) * 0x9FB21C651E98DF25ULL; TH ^= TH >> 32; TC++; }
void __sanitizer_cov_trace_pc(void); void __sanitizer_cov_trace_pc(void) { if (on) ev((uintptr_t)__builtin_return_address(0)); }
static void acc(uintptr_t a, size_t size, int w) { if (on) ev((a < SB && a > SB - (1 << 20) ? (SB - a) | 1ull << 62 : a) * 4 + w + ((u64)size << 48)); }
#define BEGIN SB = (uintptr_t)__builtin_frame_address(0); TH = 1; TC = 0; vpmon_hook = acc; on = 1
#define END on = 0
static struct tset *S, OWN; static int n, L; static u8 SD[96], *SK, MSG[64], *SIG, OPT[32]; static u64 cases, events;
static int rng(unsigned char *p, size_t k) { int o = on; on = 0; memcpy(p, k == (size_t)n ? OPT : SD, k < 96 ? k : 96); on = o; return 1; }
static __attribute__((noinline)) int d_gen(u8 *pk) { BEGIN; int r = ts_gen_key(SK, pk, S->ps, rng); END; return r; }
static __attribute__((noinline)) void d_start(size_t len) { BEGIN; ts_init_sign(CTX, MSG, len, S->ps, SK, rng); END; }
static __attribute__((noinline)) unsigned d_sign(u8 *d, unsigned k) { BEGIN; unsigned r = ts_sign(d, k, CTX); END; return r; }
/* the traces of one operation, call by call; the first secret's are kept */
static struct { u64 h, c; } *BASE; static int nbase, at, first;
static void op_begin(void) { at = 0; }
static void op_call(const char *what) {
    events += TC;
    if (first) { BASE = realloc(BASE, (at + 1) * sizeof *BASE); BASE[at].h = TH; BASE[at].c = TC; nbase = ++at; return; }
    if (BASE[at].h != TH || BASE[at].c != TC) viol("%s: %s: the instructions executed or the addresses accessed depend on the secret: SK.seed %s SK.prf %s makes %llu steps (digest %016llx), the first secret tried %llu (%016llx)", S->name, what, hex(SD, n), hex(SD + n, n), (unsigned long long)TC, (unsigned long long)TH, (unsigned long long)BASE[at].c, (unsigned long long)BASE[at].h);
    at++;
}
#ifndef VP_PLAIN
/* abstract call-backs: secret inside the chains, public above */
static int N_(const struct ts_context *c) { return c->ps->n; }
static void q_out(const struct ts_context *c, abs_t s, u8 *out) { abs_out(&s, out, N_(c), S->r.absmode & 1); }
static void q_prf(unsigned char *out, struct ts_context *c) { int o = on; on = 0; abs_t s; abs_init(&s, 1); abs_add(&s, c->adr, S->r.sha2adr ? 22 : 32); abs_add(&s, c->public_key - 2 * N_(c), N_(c)); q_out(c, s, out); on = o; }
static void q_f(unsigned char *out, const unsigned char *in, struct ts_context *c) {
    int o = on; on = 0; abs_t s; abs_init(&s, 2); unsigned type = c->adr[S->r.sha2adr ? 9 : 19], last = c->adr[S->r.sha2adr ? 21 : 31];
    abs_add(&s, c->adr, S->r.sha2adr ? 22 : 32); if (type == 0 && last < 14) abs_add(&s, in, N_(c)); q_out(c, s, out); on = o;
}
static void q_init(union t_iterator *it, struct ts_context *c) { int o = on; on = 0; abs_t s; abs_init(&s, 3); abs_add(&s, c->adr, S->r.sha2adr ? 22 : 32); memcpy(it, &s, sizeof s); on = o; }
static void q_next(union t_iterator *it, const unsigned char *in, const struct ts_context *c) { (void)it; (void)in; (void)c; }
static void q_final(unsigned char *out, union t_iterator *it, const struct ts_context *c) { int o = on; on = 0; abs_t s; memcpy(&s, it, sizeof s); q_out(c, s, out); on = o; }
static void q_prfmsg(unsigned char *out, const unsigned char *opt, const unsigned char *msg, size_t len, struct ts_context *c) { int o = on; on = 0; abs_t s; abs_init(&s, 4); abs_add(&s, c->public_key - N_(c), N_(c)); q_out(c, s, out); (void)opt; (void)msg; (void)len; on = o; }
static void q_hmsg(unsigned char *out, size_t ol, const unsigned char *R, const unsigned char *msg, size_t len, struct ts_context *c) { for (size_t i = 0; i < ol; i++) out[i] = i < len ? msg[i] : 0; (void)R; (void)c; }
static struct { const char *nm; int n, k, t, d, mh, mask, a22; } W[] = {
    { "pub32_16", 16, 2, 2, 2, 2, 0, 0 }, { "pub22_16", 16, 2, 2, 2, 2, 0, 1 }, { "pub32_24m", 24, 2, 2, 2, 2, 1, 0 }, { "pub22_32m", 32, 2, 1, 3, 1, 1, 1 }, { "pub22_16m", 16, 1, 3, 1, 3, 1, 1 },
    { "pub22_128f", 16, 33, 6, 22, 3, 1, 1 }, { "pub32_192f", 24, 33, 8, 22, 3, 1, 0 }, { "pub22_256f", 32, 35, 9, 17, 4, 1, 1 }, { "pub32_128s", 16, 14, 12, 7, 9, 1, 0 } };
static int own(const char *name) {
    for (unsigned i = 0; i < sizeof W / sizeof *W; i++) if (!strcmp(W[i].nm, name)) {
        if (!mk_set(&OWN, name, FAM_ABS, W[i].n, W[i].k, W[i].t, W[i].d, W[i].mh, 2 | W[i].mask, W[i].a22)) return 0;
        OWN.buf.prf = q_prf; OWN.buf.f = q_f; OWN.buf.init_t = q_init; OWN.buf.next_t = q_next; OWN.buf.final_t = q_final; OWN.buf.prf_msg = q_prfmsg; OWN.buf.hash_msg = q_hmsg; OWN.ps = &OWN.buf; S = &OWN; return 1;
    }
    /* the smallest structures with real hashes */
    static const struct { const char *nm; int fam, n; } R[] = { { "one_shake_16", FAM_SHAKE, 16 }, { "one_shake_24", FAM_SHAKE, 24 }, { "one_shake_32", FAM_SHAKE, 32 }, { "one_sha2_16", FAM_SHA2, 16 }, { "one_sha2_24", FAM_SHA2, 24 }, { "one_sha2_32", FAM_SHA2, 32 } };
    for (unsigned i = 0; i < 6; i++) if (!strcmp(R[i].nm, name)) { if (!mk_set(&OWN, name, R[i].fam, R[i].n, 1, 1, 1, 1, 0, 0)) return 0; OWN.ps = &OWN.buf; S = &OWN; return 1; }
    return 0;
}
#else
static int own(const char *name) { return 0; }
#endif
void list_jobs(void) {
    for (int i = 0; i < NTOYS; i++) { for (int q = 0; q < 2; q++) job_line("gen:one%s:%d 40", TOYS[i].name + 3, q); job_line("gen:%s:9 12", TOYS[i].name); for (int q = 0; q < 2; q++) job_line("start:%s:%d 4", TOYS[i].name, q); job_line("fors:%s:0 10", TOYS[i].name); }
    for (int i = 0; i < NSETS; i++) { if (tier_thorough || S == 0) if (SETS[i].r.mh <= 6 || tier_thorough) job_line("gen:%s:9 20", SETS[i].name); job_line("start:%s:%d 4", SETS[i].name, i % 2); }
#ifndef VP_PLAIN
    for (unsigned i = 0; i < sizeof W / sizeof *W; i++) if (mk_set(&OWN, "x", FAM_ABS, W[i].n, W[i].k, W[i].t, W[i].d, W[i].mh, 2, W[i].a22)) job_line("whole:%s:0 %d", W[i].nm, W[i].d > 5 ? 40 : 20);
#endif
}
static void sign_trace(size_t len, unsigned chunk, unsigned upto) {
    op_begin(); d_start(len); op_call("the signing-start call");
    for (unsigned p = 0; p < upto;) { unsigned g = d_sign(SIG + p, chunk); char w[60]; snprintf(w, sizeof w, "signature bytes %u..%u", p, p + g); op_call(w); if (!g) viol("%s: signature ends at %u", S->name, p); p += g; }
    cases++;
}
void run_job(const char *job) {
    char kind[16], name[40]; int part; if (sscanf(job, "%15[^:]:%39[^:]:%d", kind, name, &part) != 3) exit(3);
    S = set_by_name(name); if (!S && !own(name)) exit(3);
    n = S->r.n; L = ref_sig_len(&S->r); SK = gbuf(4 * n, 1); SIG = gbuf(L, 1); u8 *pk = gbuf(2 * n, 1), base[96]; fill(base, 96, 17); fill(MSG, 64, 4); fill(OPT, 32, 9);
    static const u8 few[] = { 0, 1, 255, 128, 127, 85, 2, 4, 8, 16, 32, 64, 254, 253, 15, 240, 170, 10, 13, 31, 192, 129, 100, 200 };
    struct seen out = { 0 };
    /* the secrets: one byte takes every value, the others are fixed, zero, all ones or PK.seed */
    int quickfew = part == 9 || getenv("VP_FEW") != 0, nv = quickfew && !tier_thorough ? getenv("VP_FEW") ? 6 : (int)sizeof few : 256, slow = S->real;
    int lo = part == 1 ? n : 0, hi = part == 1 ? 2 * n : n;
    if (!strcmp(kind, "gen")) { lo = part == 1 ? n / 2 : 0; hi = part == 0 ? n / 2 : n; }
    if (!strcmp(kind, "whole")) hi = 2 * n;
    first = 1;
    for (int b = 0; b < 4; b++) for (int pos = lo; pos < hi; pos++) {
        int brief = b && strcmp(kind, "start") && !tier_thorough;
        if (brief && pos != lo && pos != hi - 1) continue;
        if (slow && strcmp(kind, "start") && pos != lo && pos != hi - 1 && !(tier_thorough && pos == n / 2)) continue;
        if (!strcmp(kind, "whole") && S->r.d > 5 && pos % n != 0 && pos % n != n - 1) continue;
        /* quick tier: every value of every fourth byte, the boundary values of the others */
        int full = tier_thorough || (nv == 256 && (!slow || !strcmp(kind, "start") || strcmp(kind, "gen") || (pos - lo) % 4 == 0) && (strcmp(kind, "whole") || pos % n == 0 || pos % n == n - 1));
        for (int v = 0; v < (brief ? 2 : full ? nv : nv == 256 ? (int)sizeof few : nv); v++) {
            if (!strcmp(kind, "whole") && S->r.d > 5 && v >= (S->r.t > 9 ? 4 : 24)) break;
            memcpy(SD, base, 96); if (b == 3) { memcpy(SD, base + 2 * n, n); if (strcmp(kind, "fors")) memcpy(SD + n, base + 2 * n, n); } else if (b) memset(SD + lo, b == 1 ? 0 : 255, hi - lo);
            SD[pos] = full && !brief && nv == 256 ? v : few[v];
            cur("byte %ld of the secret = %ld, the others %ld", pos, SD[pos], b, 0);
            if (!strcmp(kind, "gen")) { op_begin(); if (d_gen(pk) != 1) viol("%s: key generation failed", S->name); op_call("key generation"); cases++; }
            else {
                memcpy(SK, SD, 3 * n); fill(SK + 3 * n, n, 5);       /* PK.root is only ever hashed by the signer */
                if (!strcmp(kind, "start")) { op_begin(); for (int l = 0; l < 64; l += 21) { d_start(l); op_call("the signing-start call"); } cases++; }
                else if (!strcmp(kind, "fors")) sign_trace(24, n, n * (1 + S->r.k * (S->r.t + 1)));
                else { u8 dg[64]; memcpy(dg, MSG, 64); for (int m = 0; m < (S->r.d > 5 ? 1 : 2); m++) { int f0 = first; static void *B2[2]; static int N2[2]; BASE = B2[m]; nbase = N2[m]; if (m) for (int i = 0; i < 64; i++) MSG[i] = ~dg[i]; sign_trace(64, m ? 1 : n, L); B2[m] = BASE; N2[m] = nbase; first = f0; memcpy(MSG, dg, 64); } }
            }
            if (!strcmp(kind, "gen")) seen_add(&out, hash64(SK, 4 * n, 1), 1); else seen_add(&out, hash64(SIG, L, 1), hash64(SK, 4 * n, 3));
            first = 0;
        }
    }
    if (out.n < 4) viol("%s: the secrets do not influence the result", S->name);
    STATES(out.n); TRANS(cases); EXECS(cases); stat_add("trace_events", events);
    sample("%s: %s: %llu executions with %zu secrets, one trace per call (%llu events in all); last SK.seed %s", S->name, kind, (unsigned long long)cases, out.n, (unsigned long long)events, hex(SD, n));
}
