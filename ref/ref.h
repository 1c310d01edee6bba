/*
 * Reference model of SPHINCS+ "simple" (NIST draft / FIPS 205 bit ordering), written
 * recursively from the specification text: no streaming, no shared state, no code from /repo.
 * It is parametrised by the structure (n,k,t,h,d,mh) and by the hash family.
 */
#ifndef REF_H_
#define REF_H_
#include <stddef.h>
#include <stdint.h>

enum { FAM_SHAKE = 0, FAM_SHA2 = 1, FAM_ABS = 2 };

typedef struct {
    int n, k, t, h, d, mh;
    int fam;       /* FAM_* */
    int sha2adr;   /* 22-byte compressed addresses (always for FAM_SHA2; a choice for FAM_ABS) */
    int absmode;   /* FAM_ABS: bit 0: outputs from a small byte alphabet; bit 1: digest = message bytes; bit 2: extreme nibbles */
} rps_t;

/* ---- plain hash functions (one-shot, own implementation) ---- */
void ref_sha256(uint8_t out[32], const void *in, size_t len);
void ref_sha512(uint8_t out[64], const void *in, size_t len);
void ref_shake256(uint8_t *out, size_t outlen, const void *in, size_t len);

/* incremental forms, used for very long inputs */
typedef struct { uint32_t h[8]; uint64_t len; uint8_t b[64]; } rsha256;
typedef struct { uint64_t h[8]; uint64_t len; uint8_t b[128]; } rsha512;
typedef struct { uint64_t s[25]; unsigned pos; } rshake;
void rsha256_init(rsha256*); void rsha256_add(rsha256*, const void*, size_t); void rsha256_end(rsha256*, uint8_t*);
void rsha512_init(rsha512*); void rsha512_add(rsha512*, const void*, size_t); void rsha512_end(rsha512*, uint8_t*);
void rshake_init(rshake*); void rshake_add(rshake*, const void*, size_t); void rshake_end(rshake*, uint8_t*, size_t);

/* ---- abstract hash (FAM_ABS): shared definition, used by the reference model and by the call-back
   table handed to the implementation ---- */
typedef struct { uint64_t a, b; } abs_t;
static inline void abs_word(abs_t *s, uint64_t w) {
    s->a = (s->a ^ w) * 0x9E3779B97F4A7C15ULL;
    s->b = (s->b + w + (s->a >> 31)) * 0xD6E8FEB86659FD93ULL;
    s->a ^= s->b >> 29;
}
static inline void abs_add(abs_t *s, const uint8_t *p, size_t len) {
    while (len) {
        uint64_t w = 0; size_t m = len < 8 ? len : 8;
        for (size_t i = 0; i < m; i++) w |= (uint64_t)p[i] << (8 * i);
        abs_word(s, w + 0x1234567ULL * m); p += m; len -= m;
    }
}
static inline void abs_init(abs_t *s, unsigned tag) { s->a = 0xA5A5000000000000ULL + tag; s->b = 0x5851F42D4C957F2DULL; }
static inline uint8_t abs_alpha(uint8_t x) {
    static const uint8_t al[16] = { 0x00, 0xff, 0x0f, 0xf0, 0x00, 0xff, 0x01, 0x10, 0x80, 0x08, 0xf7, 0x7f, 0xfe, 0xef, 0x5a, 0xa5 };
    return al[x & 15];
}
static inline void abs_out(const abs_t *s, uint8_t *out, size_t len, int mode) {
    abs_t x = *s; int masked = mode & 1;
    if (mode & 4) {     /* nibbles 15 or 0, in a share that itself goes over all of 0..1: every WOTS+ checksum occurs */
        abs_word(&x, 0xBEEF); unsigned share = (unsigned)((x.a ^ x.b >> 7) % 66) * 4; uint64_t odd = x.b % (2 * 32 + 3), v = 0;   /* a prefix does not depend on len */
        for (size_t i = 0; i < 2 * len; i++) {
            if (i % 8 == 0) { abs_word(&x, 0xF00 + i); v = x.a ^ (x.b << 1) ^ (x.b >> 17); }
            unsigned c = (unsigned)(v >> 8 * (i % 8)) & 255, d = i == odd ? c & 15 : c < share ? 15 : 0;
            if (i & 1) out[i / 2] |= d; else out[i / 2] = d << 4;
        }
        return;
    }
    for (size_t i = 0; i < len; i += 8) {
        abs_word(&x, 0xC0FFEE + i);
        uint64_t v = x.a ^ (x.b << 1) ^ (x.b >> 17);
        for (size_t j = i; j < len && j < i + 8; j++) {
            uint8_t c = (uint8_t)(v >> (8 * (j - i)));
            out[j] = masked ? abs_alpha(c ^ (c >> 4)) : c;
        }
    }
}
enum { ABS_PRF = 1, ABS_F = 2 /* also T of one block */, ABS_PRFMSG = 4, ABS_HMSG = 5 };

/* ---- the scheme ---- */
unsigned ref_sig_len(const rps_t *p);
/* seed = SK.seed || SK.prf || PK.seed, 3n bytes; sk receives 4n bytes */
void ref_keygen(const rps_t *p, const uint8_t *seed, uint8_t *sk);
void ref_prf_msg(const rps_t *p, const uint8_t *sk, const uint8_t *optrand, const void *msg, size_t len, uint8_t *R);
extern unsigned ref_csums[1024];
void ref_hash_msg(const rps_t *p, const uint8_t *pk, const uint8_t *R, const void *msg, size_t len, uint8_t *out, size_t outlen);
unsigned ref_digest_len(const rps_t *p);
void ref_position(const rps_t *p, const uint8_t *digest, unsigned *fors_idx, uint64_t *tree, unsigned *leaf);
/* optrand NULL: deterministic (optrand = PK.seed) */
void ref_sign(const rps_t *p, const uint8_t *sk, const uint8_t *optrand, const void *msg, size_t len, uint8_t *sig);
/* signature with the message digest given instead of the message; R is copied into the signature */
void ref_sign_digest(const rps_t *p, const uint8_t *sk, const uint8_t *R, const uint8_t *digest, uint8_t *sig);
/* root computed from a signature; returns 1 and compares if len is right */
int ref_verify(const rps_t *p, const uint8_t *pk, const void *msg, size_t len, const uint8_t *sig, size_t siglen);
int ref_verify_digest(const rps_t *p, const uint8_t *pk, const uint8_t *digest, const uint8_t *sig);
/* value helpers for the one-time-key checks */
void ref_fors_sk(const rps_t *p, const uint8_t *sk, uint64_t tree, unsigned leaf, unsigned index, uint8_t *out);
void ref_fors_pk_from_sk(const rps_t *p, const uint8_t *sk, uint64_t tree, unsigned leaf, uint8_t *out);
void ref_tree_node(const rps_t *p, const uint8_t *sk, unsigned layer, uint64_t tree, unsigned height, unsigned index, uint8_t *out);
/* number of hash calls the spec's one-pass streaming algorithm needs */
typedef struct { uint64_t prf, f, tl, msg; } ref_cost_t;
ref_cost_t ref_cost_keygen(const rps_t *p);
#endif
