/*
 * C23 runs one set of explorations on several machines: the host (library built with -fsanitize=undefined or with
 * clang's memory sanitizer), and an interpreted 32-bit machine (guest/, emu.c).  This is what they have in common.
 */
#ifndef MACH_H_
#define MACH_H_
#include "common.h"
struct mset { char name[40]; rps_t r; int real; uintptr_t ps; };
extern struct mset MS[96]; extern int NMS;
void mach_init(void);                        /* fills MS */
struct mset *ms_by_name(const char *);
size_t m_ctx_size(void);
u8 *m_alloc(size_t len, unsigned off);       /* exactly len accessible bytes, at an address that is off mod 16 */
void m_reset(void);                          /* gives back everything m_alloc delivered */
struct ts_context *m_ctx(void);              /* a context, as aligned as its type asks for, filled with rubbish */
int m_gen(const struct mset *, u8 *sk, u8 *pk, int (*rng)(unsigned char *, size_t));
void m_init_sign(struct ts_context *, const void *msg, size_t len, const struct mset *, const u8 *sk, int (*rng)(unsigned char *, size_t));
unsigned m_sign(u8 *d, unsigned k, struct ts_context *);
void m_init_verify(struct ts_context *, const void *msg, size_t len, const struct mset *, const u8 *pk);
int m_update(const u8 *s, unsigned k, struct ts_context *);
int m_verify(struct ts_context *);
unsigned m_size(const struct mset *, int what);   /* 0 private key, 1 public key, 2 signature */
extern u64 m_insns;
extern const char *m_name;
#endif
