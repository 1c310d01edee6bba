/* C06: the verdict is success at exactly the full length only; surplus in the same or any later call; queries; finality */
#include "explore.h"
static const char *ALT[] = { "genuine", "R byte changed", "FORS byte changed", "WOTS byte changed", "last byte changed", "other root", "other message" };
void list_jobs(void) {
    for (int i = 0; i < NTOYS; i++) for (int a = 0; a < 7; a++) job_line("toy:%s:%d:%d 10", TOYS[i].name, a == 0 ? (tier_thorough ? MENU_ALL : MENU_DENSE) : MENU_SPARSE, a);
    for (int i = 0; i < NABST; i++) if (ABST[i].r.d < 7) for (int a = 0; a < 7; a++) job_line("abs:%s:%d:%d 5", ABST[i].name, a == 0 ? (tier_thorough ? MENU_ALL : MENU_DENSE) : MENU_SPARSE, a);
    for (int i = 0; i < NABST; i++) if (ABST[i].r.d >= 7) job_line("abs:%s:%d:%d 5", ABST[i].name, MENU_STEP, 0);
    for (int i = 0; i < NSETS; i++) { int S = SETS[i].r.mh > 6; for (int a = 0; a < (tier_thorough ? 7 : S ? 1 : 2); a++) job_line("real:%s:%d:%d %d", SETS[i].name, tier_thorough ? MENU_SPARSE : MENU_STEP, a == 1 ? 4 : a, S ? 40 : 20); }
}
void run_job(const char *job) {
    char kind[16], name[40]; int menu, a; if (sscanf(job, "%15[^:]:%39[^:]:%d:%d", kind, name, &menu, &a) != 4) exit(3);
    struct tset *s = set_by_name(name); if (!s) exit(3); int n = s->r.n; unsigned surplus = 3 * n + 2;
    struct xs x; xs_start(&x, s, ref_sig_len(&s->r) + surplus);
    x.len = 19; x.sk = malloc(4 * n); x.msg = malloc(x.len); x.sig = gbuf(x.L, 1); u8 *pk = gbuf(2 * n, 1); x.pk = pk;
    key_for(s, 31, x.sk); memcpy(pk, x.sk + 2 * n, 2 * n); fill(x.msg, x.len, 14); u8 opt[32]; fill(opt, n, 6);
    if (s->real && s->r.mh > 6) impl_sign_all(s, CTX, x.sk, x.msg, x.len, opt, x.sig); else ref_sign(&s->r, x.sk, opt, x.msg, x.len, x.sig);
    switch (a) {
    case 1: x.sig[n - 1] ^= 0x40; break;
    case 2: x.sig[n + 1] ^= 1; break;
    case 3: x.sig[n * (1 + s->r.k * (s->r.t + 1)) + 5] ^= 0x80; break;
    case 4: x.sig[x.L - 1] ^= 2; break;
    case 5: pk[2 * n - 1] ^= 1; break;
    case 6: x.msg[x.len - 1] ^= 0x20; break;
    }
    int genuine = ref_verify(&s->r, pk, x.msg, x.len, x.sig, x.L);   /* the specification's opinion of the bytes fed */
    memset(CTX, 0x69, sizeof *CTX); cur("ts_init_verify", 0, 0, 0, 0);
    ts_init_verify(CTX, x.msg, x.len, s->ps, pk);
    sample("%s: bytes fed: %s; specification accepts: %d", s->name, ALT[a], genuine);
    explore_verifier(&x, menu, genuine, surplus, 1);
}
