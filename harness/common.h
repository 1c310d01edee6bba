/*
 * Common part of all harnesses: parameter-set tables (real, toy, abstract), guarded buffers,
 * reporting, crash attribution, and the explicit-state machinery over the real signer/verifier.
 */
#ifndef COMMON_H_
#define COMMON_H_
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdbool.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include "tiny_sphincs.h"
#ifndef VP_PLAIN          /* VP_PLAIN: only the public interface and the published sets; see lib/core.py */
#include "internal.h"
#endif
#include "ref.h"

typedef uint8_t u8; typedef uint64_t u64; typedef uint32_t u32;

/* ---------------------------------------------------------------- parameter sets */
struct tset {
    char name[40];
    const struct ts_parameter_set *ps;    /* what the implementation is given */
    rps_t r;                              /* what the reference model is given */
    int real;                             /* one of the 12 published sets, untouched */
#ifndef VP_PLAIN
    struct ts_parameter_set buf;          /* storage for derived sets */
#endif
};
extern struct tset SETS[64]; extern int NSETS;    /* real sets enabled in this configuration */
extern struct tset TOYS[64]; extern int NTOYS;    /* small structures, real hash call-backs */
extern struct tset ABST[64]; extern int NABST;    /* abstract hash: small and real structures */
extern struct tset EXTS[16]; extern int NEXTS;      /* abstract hash with extreme values: all WOTS+ checksums */
void sets_init(void);
struct tset *set_by_name(const char *name);
#ifndef VP_PLAIN
#define PS_SIZE sizeof(struct ts_parameter_set)
#else
#define PS_SIZE 512
#endif
extern int derived_dropped;     /* classes of derived sets that do not fit this tree */
/* derived set with its own storage: fam FAM_*; base found by family and n */
int mk_set(struct tset *o, const char *name, int fam, int n, int k, int t, int d, int mh, int absmode, int sha2adr);
/* hash call counters of the abstract call-backs */
struct hcount { u64 prf, f, t_init, t_next, t_final, msg, pre; };
extern struct hcount HC;

/* ---------------------------------------------------------------- reporting */
extern int tier_thorough;
extern const char *JOB;
void stat_add(const char *key, u64 v);
void sample(const char *fmt, ...) __attribute__((format(printf,1,2)));
void viol(const char *fmt, ...) __attribute__((format(printf,1,2)));   /* prints and exits the job */
void note_capped(const char *what);
void cur(const char *fmt, long a, long b, long c, long d);             /* cheap: formatted only on a crash */
#define STATES(v) stat_add("states", v)
#define TRANS(v) stat_add("transitions", v)
#define EXECS(v) stat_add("execs", v)
/* job registry: each harness defines these two */
void list_jobs(void);
void run_job(const char *job);
void job_line(const char *fmt, ...) __attribute__((format(printf,1,2)));

/* ---------------------------------------------------------------- buffers */
/* memory whose end (tail=1) or start (tail=0) is flush against an inaccessible page */
u8 *gbuf(size_t len, int tail);
void gfree(u8 *p, size_t len, int tail);
void fill(u8 *p, size_t len, u64 seed);     /* deterministic bytes */
u64 hash64(const void *p, size_t len, u64 h);
char *hex(const void *p, size_t len);

/* random source handed to the library */
extern u8 RNG_bytes[256]; extern size_t RNG_pos; extern int RNG_calls;
int rng_fixed(unsigned char *p, size_t n);  /* delivers RNG_bytes from RNG_pos on, returns 1 */
int rng_fail(unsigned char *p, size_t n);   /* writes garbage, returns 0 */

/* ---------------------------------------------------------------- library static data */
/* markers around the library's writable static storage (linked first and last) */
extern char ts_lib_data_begin[], ts_lib_data_end[], ts_lib_bss_begin[], ts_lib_bss_end[];
size_t lib_static_size(void);
void lib_static_save(u8 *o); void lib_static_load(const u8 *i);

/* ---------------------------------------------------------------- contexts */
extern struct ts_context *CTX;      /* one fixed context, between guard pages */
void key_for(const struct tset *s, u64 seed, u8 *sk /* 4n */);   /* by the reference model */
void impl_sign_all(const struct tset *s, struct ts_context *c, const u8 *sk, const void *msg, size_t len, const u8 *optrand, u8 *sig);
int impl_verify_all(const struct tset *s, struct ts_context *c, const u8 *pk, const void *msg, size_t len, const u8 *sig, size_t siglen);

/* set of seen states: 64+64 bit digests in an open hash table */
struct seen { u64 *k; size_t cap, n; };
int seen_add(struct seen *s, u64 a, u64 b);  /* 1 if new */
void seen_free(struct seen *s);
#endif
