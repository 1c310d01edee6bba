/* C03: every sequence of request sizes, by exploration of the signer's states */
#include "explore.h"
void list_jobs(void) {
    for (int i = 0; i < NTOYS; i++) for (int d = 0; d < 2; d++) job_line("toy:%s:%d:%d %d", TOYS[i].name, tier_thorough ? MENU_ALL : MENU_DENSE, d, 5);
    for (int i = 0; i < NABST; i++) {
        int real = ABST[i].r.d >= 7, S = ABST[i].r.mh > 6;
        if (!real) job_line("abs:%s:%d:0 3", ABST[i].name, tier_thorough ? MENU_ALL : MENU_DENSE);
        else if (!S) job_line("abs:%s:%d:0 20", ABST[i].name, tier_thorough || (ABST[i].r.n == 16 && ABST[i].r.sha2adr) ? MENU_SPARSE : MENU_STEP);
        else if (tier_thorough) job_line("abs:%s:%d:0 100", ABST[i].name, MENU_SPARSE);
        else job_line("abs:%s:%d:0 20", ABST[i].name, MENU_STEP);
    }
    for (int i = 0; i < NSETS; i++) {
        int S = SETS[i].r.mh > 6; if (S && !tier_thorough) continue;
        job_line("real:%s:%d:0 %d", SETS[i].name, tier_thorough ? MENU_SPARSE : MENU_STEP, S ? 100 : 10);
    }
}
void run_job(const char *job) {
    char kind[16], name[40]; int menu, det; if (sscanf(job, "%15[^:]:%39[^:]:%d:%d", kind, name, &menu, &det) != 4) exit(3);
    struct tset *s = set_by_name(name); if (!s) exit(3);
    struct xs x; xs_start(&x, s, ref_sig_len(&s->r));
    int n = s->r.n; x.len = 24; x.sk = malloc(4 * n); x.msg = malloc(x.len); x.sig = malloc(x.L); u8 opt[32];
    key_for(s, 3 + det, x.sk); fill(x.msg, x.len, 9); fill(opt, n, 5);
    ref_sign(&s->r, x.sk, det ? 0 : opt, x.msg, x.len, x.sig);
    memcpy(RNG_bytes, opt, n); RNG_pos = 0; memset(CTX, 0xD5, sizeof *CTX);
    cur("ts_init_sign", 0, 0, 0, 0);
    ts_init_sign(CTX, x.msg, x.len, s->ps, x.sk, det ? 0 : rng_fixed);
    memset(x.msg, 0x11, x.len);
    explore_signer(&x, menu);
}
