/*
 * Explicit-state exploration of the real signer and the real verifier.
 * A state is (bytes so far, image of the context, image of the library's static storage); it is
 * produced by running the implementation, saved, and restored before each outgoing transition, so that
 * every combination of chunkings reachable with the menu of chunk sizes is covered by state matching.
 */
#ifndef EXPLORE_H_
#define EXPLORE_H_
#include "common.h"

struct image { unsigned char *b; u64 h1, h2; };
struct posstates { struct image *v; int n; };

struct xs {                         /* exploration of one operation */
    const struct tset *s;
    u8 *sk, *msg, *sig;             /* caller buffers (sk: 4n, pk = sk+2n) */
    const u8 *pk;                   /* public key buffer handed to the verifier */
    size_t len;
    unsigned L;                     /* genuine signature length */
    unsigned maxpos;
    struct posstates *st;           /* per position */
    size_t imgsize;
    u64 nstates, ntrans;
    int maxper;                     /* cap on images per position */
    int capped;
    void (*at_end)(struct xs *x, unsigned pos);         /* after each end-to-end run */
    void (*probe)(struct xs *x, unsigned pos, int i);   /* further calls tried at every state */
};
/* the calls the explorers make; C10 puts its monitor around them */
extern unsigned (*xs_call_sign)(unsigned char *dest, unsigned n, struct ts_context *ctx);
extern int (*xs_call_update)(const unsigned char *sig, unsigned n, struct ts_context *ctx);
extern int (*xs_call_verify)(struct ts_context *ctx);
extern void *xs_extra; extern size_t xs_extra_len;   /* history kept as part of the state (work counters) */
extern unsigned xs_pos;          /* signature position at which the call is made */
void xs_start(struct xs *x, const struct tset *s, unsigned maxpos);
void xs_free(struct xs *x);
int  xs_save(struct xs *x, unsigned pos);      /* current context -> state at pos; 1 if new */
void xs_load(struct xs *x, unsigned pos, int i);
u64  image_hash(void);

/* menu of chunk sizes at position p of L; returns count */
enum { MENU_ALL, MENU_DENSE, MENU_SPARSE, MENU_STEP };
int chunk_menu(int kind, unsigned n, unsigned p, unsigned L, unsigned *out);

/* explore the signer; compares with the expected signature and counts */
void explore_signer(struct xs *x, int menu);
/* explore the verifier over a given byte string; genuine: it is the genuine signature */
void explore_verifier(struct xs *x, int menu, int genuine, unsigned surplus, int queries);
#endif
