/* the host as one of the machines of C23 */
#include "mach.h"
struct mset MS[96]; int NMS; u64 m_insns; const char *m_name = "the host";
static void add(struct tset *t, int n) { for (int i = 0; i < n && NMS < 96; i++) { struct mset *o = &MS[NMS++]; memcpy(o->name, t[i].name, 40); o->r = t[i].r; o->real = t[i].real; o->ps = (uintptr_t)t[i].ps; } }
void mach_init(void) {
    add(SETS, NSETS); add(TOYS, NTOYS); add(ABST, NABST);
    int o = 0; for (int i = 0; i < NMS; i++) if (!(MS[i].r.absmode & 1) && !strstr(MS[i].name, "force")) MS[o++] = MS[i];
    NMS = o;
}
struct mset *ms_by_name(const char *n) { for (int i = 0; i < NMS; i++) if (!strcmp(MS[i].name, n)) return &MS[i]; return 0; }
#define PS(s) ((const struct ts_parameter_set *)(s)->ps)
static void *blk[4096]; static int nb;
size_t m_ctx_size(void) { return sizeof(struct ts_context); }
u8 *m_alloc(size_t len, unsigned off) { u8 *p = malloc(len + 48); if (nb == 4096) exit(3); blk[nb++] = p; return (u8 *)(((uintptr_t)p + 15) & ~(uintptr_t)15) + off % 16; }
void m_reset(void) { while (nb) free(blk[--nb]); }
struct ts_context *m_ctx(void) {
    u8 *p = m_alloc(sizeof(struct ts_context), 16 - _Alignof(struct ts_context) % 16);
#ifndef MSAN
    fill(p, sizeof(struct ts_context), 99);
#endif
    return (struct ts_context *)p;
}
int m_gen(const struct mset *s, u8 *sk, u8 *pk, int (*rng)(unsigned char *, size_t)) { return ts_gen_key(sk, pk, PS(s), rng); }
void m_init_sign(struct ts_context *c, const void *msg, size_t len, const struct mset *s, const u8 *sk, int (*rng)(unsigned char *, size_t)) { ts_init_sign(c, msg, len, PS(s), sk, rng); }
unsigned m_sign(u8 *d, unsigned k, struct ts_context *c) { return ts_sign(d, k, c); }
void m_init_verify(struct ts_context *c, const void *msg, size_t len, const struct mset *s, const u8 *pk) { ts_init_verify(c, msg, len, PS(s), pk); }
int m_update(const u8 *p, unsigned k, struct ts_context *c) { return ts_update_verify(p, k, c); }
int m_verify(struct ts_context *c) { return ts_verify(c); }
unsigned m_size(const struct mset *s, int w) { return w == 0 ? ts_size_private_key(PS(s)) : w == 1 ? ts_size_public_key(PS(s)) : ts_size_signature(PS(s)); }
