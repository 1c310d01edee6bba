#include <string.h>
#include <stdlib.h>
#include "ref.h"

/* ------------------------------------------------------------------ SHA-256 */
static const uint32_t K256[64] = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
#define R32(x,n) (((x)>>(n))|((x)<<(32-(n))))
static void c256(uint32_t h[8], const uint8_t *p) {
    uint32_t w[64], v[8];
    for (int i = 0; i < 16; i++) w[i] = (uint32_t)p[4*i]<<24 | (uint32_t)p[4*i+1]<<16 | (uint32_t)p[4*i+2]<<8 | p[4*i+3];
    for (int i = 16; i < 64; i++)
        w[i] = w[i-16] + w[i-7] + (R32(w[i-15],7)^R32(w[i-15],18)^(w[i-15]>>3)) + (R32(w[i-2],17)^R32(w[i-2],19)^(w[i-2]>>10));
    memcpy(v, h, 32);
    for (int i = 0; i < 64; i++) {
        uint32_t t1 = v[7] + (R32(v[4],6)^R32(v[4],11)^R32(v[4],25)) + ((v[4]&v[5])^(~v[4]&v[6])) + K256[i] + w[i];
        uint32_t t2 = (R32(v[0],2)^R32(v[0],13)^R32(v[0],22)) + ((v[0]&v[1])^(v[0]&v[2])^(v[1]&v[2]));
        v[7]=v[6];v[6]=v[5];v[5]=v[4];v[4]=v[3]+t1;v[3]=v[2];v[2]=v[1];v[1]=v[0];v[0]=t1+t2;
    }
    for (int i = 0; i < 8; i++) h[i] += v[i];
}
void rsha256_init(rsha256 *c) {
    static const uint32_t iv[8]={0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
    memcpy(c->h, iv, 32); c->len = 0;
}
void rsha256_add(rsha256 *c, const void *in, size_t len) {
    const uint8_t *p = in; unsigned f = c->len % 64; c->len += len;
    if (f) { size_t m = 64 - f < len ? 64 - f : len; memcpy(c->b + f, p, m); p += m; len -= m; if (f + m < 64) return; c256(c->h, c->b); }
    for (; len >= 64; p += 64, len -= 64) c256(c->h, p);
    if (len) memcpy(c->b, p, len);
}
void rsha256_end(rsha256 *c, uint8_t *out) {
    unsigned __int128 bits = (unsigned __int128)c->len * 8; unsigned f = c->len % 64;
    c->b[f++] = 0x80;
    if (f > 56) { memset(c->b + f, 0, 64 - f); c256(c->h, c->b); f = 0; }
    memset(c->b + f, 0, 64 - f);
    for (int i = 0; i < 8; i++) c->b[63 - i] = (uint8_t)(bits >> (8 * i));
    c256(c->h, c->b);
    for (int i = 0; i < 8; i++) for (int j = 0; j < 4; j++) out[4*i+j] = (uint8_t)(c->h[i] >> (24 - 8*j));
}
void ref_sha256(uint8_t out[32], const void *in, size_t len) { rsha256 c; rsha256_init(&c); rsha256_add(&c, in, len); rsha256_end(&c, out); }

/* ------------------------------------------------------------------ SHA-512 */
static const uint64_t K512[80] = {
0x428a2f98d728ae22ULL,0x7137449123ef65cdULL,0xb5c0fbcfec4d3b2fULL,0xe9b5dba58189dbbcULL,0x3956c25bf348b538ULL,0x59f111f1b605d019ULL,0x923f82a4af194f9bULL,0xab1c5ed5da6d8118ULL,
0xd807aa98a3030242ULL,0x12835b0145706fbeULL,0x243185be4ee4b28cULL,0x550c7dc3d5ffb4e2ULL,0x72be5d74f27b896fULL,0x80deb1fe3b1696b1ULL,0x9bdc06a725c71235ULL,0xc19bf174cf692694ULL,
0xe49b69c19ef14ad2ULL,0xefbe4786384f25e3ULL,0x0fc19dc68b8cd5b5ULL,0x240ca1cc77ac9c65ULL,0x2de92c6f592b0275ULL,0x4a7484aa6ea6e483ULL,0x5cb0a9dcbd41fbd4ULL,0x76f988da831153b5ULL,
0x983e5152ee66dfabULL,0xa831c66d2db43210ULL,0xb00327c898fb213fULL,0xbf597fc7beef0ee4ULL,0xc6e00bf33da88fc2ULL,0xd5a79147930aa725ULL,0x06ca6351e003826fULL,0x142929670a0e6e70ULL,
0x27b70a8546d22ffcULL,0x2e1b21385c26c926ULL,0x4d2c6dfc5ac42aedULL,0x53380d139d95b3dfULL,0x650a73548baf63deULL,0x766a0abb3c77b2a8ULL,0x81c2c92e47edaee6ULL,0x92722c851482353bULL,
0xa2bfe8a14cf10364ULL,0xa81a664bbc423001ULL,0xc24b8b70d0f89791ULL,0xc76c51a30654be30ULL,0xd192e819d6ef5218ULL,0xd69906245565a910ULL,0xf40e35855771202aULL,0x106aa07032bbd1b8ULL,
0x19a4c116b8d2d0c8ULL,0x1e376c085141ab53ULL,0x2748774cdf8eeb99ULL,0x34b0bcb5e19b48a8ULL,0x391c0cb3c5c95a63ULL,0x4ed8aa4ae3418acbULL,0x5b9cca4f7763e373ULL,0x682e6ff3d6b2b8a3ULL,
0x748f82ee5defb2fcULL,0x78a5636f43172f60ULL,0x84c87814a1f0ab72ULL,0x8cc702081a6439ecULL,0x90befffa23631e28ULL,0xa4506cebde82bde9ULL,0xbef9a3f7b2c67915ULL,0xc67178f2e372532bULL,
0xca273eceea26619cULL,0xd186b8c721c0c207ULL,0xeada7dd6cde0eb1eULL,0xf57d4f7fee6ed178ULL,0x06f067aa72176fbaULL,0x0a637dc5a2c898a6ULL,0x113f9804bef90daeULL,0x1b710b35131c471bULL,
0x28db77f523047d84ULL,0x32caab7b40c72493ULL,0x3c9ebe0a15c9bebcULL,0x431d67c49c100d4cULL,0x4cc5d4becb3e42b6ULL,0x597f299cfc657e2aULL,0x5fcb6fab3ad6faecULL,0x6c44198c4a475817ULL};
#define R64(x,n) (((x)>>(n))|((x)<<(64-(n))))
static void c512(uint64_t h[8], const uint8_t *p) {
    uint64_t w[80], v[8];
    for (int i = 0; i < 16; i++) { w[i] = 0; for (int j = 0; j < 8; j++) w[i] = w[i] << 8 | p[8*i+j]; }
    for (int i = 16; i < 80; i++)
        w[i] = w[i-16] + w[i-7] + (R64(w[i-15],1)^R64(w[i-15],8)^(w[i-15]>>7)) + (R64(w[i-2],19)^R64(w[i-2],61)^(w[i-2]>>6));
    memcpy(v, h, 64);
    for (int i = 0; i < 80; i++) {
        uint64_t t1 = v[7] + (R64(v[4],14)^R64(v[4],18)^R64(v[4],41)) + ((v[4]&v[5])^(~v[4]&v[6])) + K512[i] + w[i];
        uint64_t t2 = (R64(v[0],28)^R64(v[0],34)^R64(v[0],39)) + ((v[0]&v[1])^(v[0]&v[2])^(v[1]&v[2]));
        v[7]=v[6];v[6]=v[5];v[5]=v[4];v[4]=v[3]+t1;v[3]=v[2];v[2]=v[1];v[1]=v[0];v[0]=t1+t2;
    }
    for (int i = 0; i < 8; i++) h[i] += v[i];
}
void rsha512_init(rsha512 *c) {
    static const uint64_t iv[8]={0x6a09e667f3bcc908ULL,0xbb67ae8584caa73bULL,0x3c6ef372fe94f82bULL,0xa54ff53a5f1d36f1ULL,0x510e527fade682d1ULL,0x9b05688c2b3e6c1fULL,0x1f83d9abfb41bd6bULL,0x5be0cd19137e2179ULL};
    memcpy(c->h, iv, 64); c->len = 0;
}
void rsha512_add(rsha512 *c, const void *in, size_t len) {
    const uint8_t *p = in; unsigned f = c->len % 128; c->len += len;
    if (f) { size_t m = 128 - f < len ? 128 - f : len; memcpy(c->b + f, p, m); p += m; len -= m; if (f + m < 128) return; c512(c->h, c->b); }
    for (; len >= 128; p += 128, len -= 128) c512(c->h, p);
    if (len) memcpy(c->b, p, len);
}
void rsha512_end(rsha512 *c, uint8_t *out) {
    unsigned __int128 bits = (unsigned __int128)c->len * 8; unsigned f = c->len % 128;
    c->b[f++] = 0x80;
    if (f > 112) { memset(c->b + f, 0, 128 - f); c512(c->h, c->b); f = 0; }
    memset(c->b + f, 0, 128 - f);
    for (int i = 0; i < 16; i++) c->b[127 - i] = (uint8_t)(bits >> (8 * i));
    c512(c->h, c->b);
    for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) out[8*i+j] = (uint8_t)(c->h[i] >> (56 - 8*j));
}
void ref_sha512(uint8_t out[64], const void *in, size_t len) { rsha512 c; rsha512_init(&c); rsha512_add(&c, in, len); rsha512_end(&c, out); }

/* ------------------------------------------------------------------ SHAKE256 */
static void keccak(uint64_t s[25]) {
    static const uint64_t rc[24] = {
        0x0000000000000001ULL,0x0000000000008082ULL,0x800000000000808aULL,0x8000000080008000ULL,0x000000000000808bULL,0x0000000080000001ULL,0x8000000080008081ULL,0x8000000000008009ULL,
        0x000000000000008aULL,0x0000000000000088ULL,0x0000000080008009ULL,0x000000008000000aULL,0x000000008000808bULL,0x800000000000008bULL,0x8000000000008089ULL,0x8000000000008003ULL,
        0x8000000000008002ULL,0x8000000000000080ULL,0x000000000000800aULL,0x800000008000000aULL,0x8000000080008081ULL,0x8000000000008080ULL,0x0000000080000001ULL,0x8000000080008008ULL};
    /* rotation offsets by the specification's walk, computed once per call site by the compiler */
    static const int rho[25] = {0,1,62,28,27, 36,44,6,55,20, 3,10,43,25,39, 41,45,15,21,8, 18,2,61,56,14};
    for (int r = 0; r < 24; r++) {
        uint64_t c[5], d[5], b[25];
        for (int x = 0; x < 5; x++) c[x] = s[x]^s[x+5]^s[x+10]^s[x+15]^s[x+20];
        for (int x = 0; x < 5; x++) { uint64_t y = c[(x+1)%5]; d[x] = c[(x+4)%5] ^ (y<<1 | y>>63); }
        for (int y = 0; y < 5; y++) for (int x = 0; x < 5; x++) {
            uint64_t v = s[x+5*y] ^ d[x]; int o = rho[x+5*y];
            b[y + 5*((2*x+3*y)%5)] = o ? (v << o | v >> (64 - o)) : v;
        }
        for (int y = 0; y < 5; y++) for (int x = 0; x < 5; x++) s[x+5*y] = b[x+5*y] ^ (~b[(x+1)%5+5*y] & b[(x+2)%5+5*y]);
        s[0] ^= rc[r];
    }
}
void rshake_init(rshake *c) { memset(c, 0, sizeof *c); }
void rshake_add(rshake *c, const void *in, size_t len) {
    const uint8_t *p = in;
    for (size_t i = 0; i < len; i++) {
        c->s[c->pos >> 3] ^= (uint64_t)p[i] << (8 * (c->pos & 7));
        if (++c->pos == 136) { keccak(c->s); c->pos = 0; }
    }
}
void rshake_end(rshake *c, uint8_t *out, size_t outlen) {
    c->s[c->pos >> 3] ^= (uint64_t)0x1f << (8 * (c->pos & 7));
    c->s[16] ^= (uint64_t)0x80 << 56;
    keccak(c->s);
    for (size_t i = 0, o = 0; i < outlen; i++, o++) {
        if (o == 136) { keccak(c->s); o = 0; }
        out[i] = (uint8_t)(c->s[o >> 3] >> (8 * (o & 7)));
    }
}
void ref_shake256(uint8_t *out, size_t outlen, const void *in, size_t len) { rshake c; rshake_init(&c); rshake_add(&c, in, len); rshake_end(&c, out, outlen); }

/* ------------------------------------------------------------------ addresses (specification layout) */
typedef struct { uint32_t layer; uint64_t tree; uint32_t type, w1, w2, w3; } adrs;  /* w1..w3: last three words */
enum { WOTS_HASH, WOTS_PK, TREE, FORS_TREE, FORS_ROOTS, WOTS_PRF, FORS_PRF };
static void be(uint8_t *o, uint64_t v, int n) { while (n--) { o[n] = (uint8_t)v; v >>= 8; } }
static size_t adr_bytes(const rps_t *p, const adrs *a, uint8_t o[32]) {
    if (p->fam == FAM_SHA2 || (p->fam == FAM_ABS && p->sha2adr)) {
        o[0] = (uint8_t)a->layer; be(o+1, a->tree, 8); o[9] = (uint8_t)a->type; be(o+10, a->w1, 4); be(o+14, a->w2, 4); be(o+18, a->w3, 4);
        return 22;
    }
    be(o, a->layer, 4); be(o+4, 0, 4); be(o+8, a->tree, 8); be(o+16, a->type, 4); be(o+20, a->w1, 4); be(o+24, a->w2, 4); be(o+28, a->w3, 4);
    return 32;
}

/* Everything below hashes through this one function: PK.seed, address, then m bytes.
   kind: ABS_PRF / ABS_F / number of blocks via T */
typedef struct { const rps_t *p; const uint8_t *pkseed; rsha256 mid256; rsha512 mid512; } hctx;
static void h_start(hctx *c, const rps_t *p, const uint8_t *pkseed) {
    static const uint8_t z[128];
    c->p = p; c->pkseed = pkseed;
    if (p->fam == FAM_SHA2) {
        rsha256_init(&c->mid256); rsha256_add(&c->mid256, pkseed, p->n); rsha256_add(&c->mid256, z, 64 - p->n);
        rsha512_init(&c->mid512); rsha512_add(&c->mid512, pkseed, p->n); rsha512_add(&c->mid512, z, 128 - p->n);
    }
}
static void tweak(const hctx *c, const adrs *a, int abstag, const uint8_t *in, size_t len, uint8_t *out) {
    const rps_t *p = c->p; uint8_t ab[32]; size_t al = adr_bytes(p, a, ab);
    if (p->fam == FAM_SHAKE) {
        rshake s; rshake_init(&s); rshake_add(&s, c->pkseed, p->n); rshake_add(&s, ab, al); rshake_add(&s, in, len); rshake_end(&s, out, p->n);
    } else if (p->fam == FAM_SHA2) {
        if (len == (size_t)p->n || p->n == 16) {   /* F and PRF always use SHA-256; H and T only in category 1 */
            uint8_t o[32]; rsha256 s = c->mid256; rsha256_add(&s, ab, al); rsha256_add(&s, in, len); rsha256_end(&s, o); memcpy(out, o, p->n);
        } else {
            uint8_t o[64]; rsha512 s = c->mid512; rsha512_add(&s, ab, al); rsha512_add(&s, in, len); rsha512_end(&s, o); memcpy(out, o, p->n);
        }
    } else {
        abs_t s; abs_init(&s, abstag); abs_add(&s, c->pkseed, p->n); abs_add(&s, ab, al);
        for (size_t i = 0; i < len; i += p->n) abs_add(&s, in + i, p->n);
        abs_out(&s, out, p->n, p->absmode);
    }
}
static void PRF(const hctx *c, const adrs *a, const uint8_t *skseed, uint8_t *out) { tweak(c, a, ABS_PRF, skseed, c->p->n, out); }
static void T(const hctx *c, const adrs *a, const uint8_t *in, size_t blocks, uint8_t *out) { tweak(c, a, ABS_F, in, blocks * c->p->n, out); }

/* ------------------------------------------------------------------ WOTS+ */
#define MAXN 32
#define MAXLEN (2*MAXN+3)
static int wlen(const rps_t *p) { return 2 * p->n + 3; }
unsigned ref_csums[1024];     /* which checksums have been met */
static void base_w(const rps_t *p, const uint8_t *m, unsigned dig[MAXLEN]) {
    unsigned csum = 0; int l1 = 2 * p->n;
    for (int i = 0; i < l1; i++) { dig[i] = (i & 1) ? (m[i/2] & 15u) : (m[i/2] >> 4); csum += 15 - dig[i]; }
    ref_csums[csum]++; csum <<= 4;                                  /* (8 - ((len2*lg_w) mod 8)) mod 8 = 4 */
    uint8_t cs[2] = { (uint8_t)(csum >> 8), (uint8_t)csum };
    dig[l1] = cs[0] >> 4; dig[l1+1] = cs[0] & 15; dig[l1+2] = cs[1] >> 4;
}
static void chain(const hctx *c, adrs a, unsigned from, unsigned to, uint8_t *x) {
    for (unsigned i = from; i < to; i++) { a.w3 = i; T(c, &a, x, 1, x); }
}
static void wots_sk(const hctx *c, const uint8_t *sk, uint32_t layer, uint64_t tree, uint32_t kp, uint32_t i, uint8_t *o) {
    adrs a = { layer, tree, WOTS_PRF, kp, i, 0 }; PRF(c, &a, sk, o);
}
static void wots_pk(const hctx *c, const uint8_t *sk, uint32_t layer, uint64_t tree, uint32_t kp, uint8_t *out) {
    int n = c->p->n, l = wlen(c->p); uint8_t tmp[MAXLEN * MAXN];
    for (int i = 0; i < l; i++) {
        wots_sk(c, sk, layer, tree, kp, i, tmp + i * n);
        adrs a = { layer, tree, WOTS_HASH, kp, (uint32_t)i, 0 }; chain(c, a, 0, 15, tmp + i * n);
    }
    adrs a = { layer, tree, WOTS_PK, kp, 0, 0 }; T(c, &a, tmp, l, out);
}
/* ------------------------------------------------------------------ trees */
static void xmss_node(const hctx *c, const uint8_t *sk, uint32_t layer, uint64_t tree, unsigned z, unsigned i, uint8_t *out) {
    if (z == 0) { wots_pk(c, sk, layer, tree, i, out); return; }
    uint8_t b[2 * MAXN]; int n = c->p->n;
    xmss_node(c, sk, layer, tree, z - 1, 2 * i, b); xmss_node(c, sk, layer, tree, z - 1, 2 * i + 1, b + n);
    adrs a = { layer, tree, TREE, 0, z, i }; T(c, &a, b, 2, out);
}
static void fors_secret(const hctx *c, const uint8_t *sk, uint64_t tree, uint32_t kp, uint32_t idx, uint8_t *out) {
    adrs a = { 0, tree, FORS_PRF, kp, 0, idx }; PRF(c, &a, sk, out);
}
static void fors_node(const hctx *c, const uint8_t *sk, uint64_t tree, uint32_t kp, unsigned z, unsigned i, uint8_t *out) {
    uint8_t b[2 * MAXN]; int n = c->p->n;
    if (z == 0) {
        fors_secret(c, sk, tree, kp, i, b);
        adrs a = { 0, tree, FORS_TREE, kp, 0, i }; T(c, &a, b, 1, out); return;
    }
    fors_node(c, sk, tree, kp, z - 1, 2 * i, b); fors_node(c, sk, tree, kp, z - 1, 2 * i + 1, b + n);
    adrs a = { 0, tree, FORS_TREE, kp, z, i }; T(c, &a, b, 2, out);
}
/* ------------------------------------------------------------------ top level */
unsigned ref_sig_len(const rps_t *p) { return p->n * (1 + p->k * (p->t + 1) + p->h + p->d * wlen(p)); }
unsigned ref_digest_len(const rps_t *p) { return (p->k * p->t + 7) / 8 + (p->h - p->mh + 7) / 8 + (p->mh + 7) / 8; }

void ref_keygen(const rps_t *p, const uint8_t *seed, uint8_t *sk) {
    hctx c; memmove(sk, seed, 3 * p->n); h_start(&c, p, sk + 2 * p->n);
    xmss_node(&c, sk, p->d - 1, 0, p->mh, 0, sk + 3 * p->n);
}
void ref_prf_msg(const rps_t *p, const uint8_t *sk, const uint8_t *optrand, const void *msg, size_t len, uint8_t *R) {
    int n = p->n; const uint8_t *prf = sk + n; if (!optrand) optrand = sk + 2 * n;
    if (p->fam == FAM_SHAKE) { rshake s; rshake_init(&s); rshake_add(&s, prf, n); rshake_add(&s, optrand, n); rshake_add(&s, msg, len); rshake_end(&s, R, n); }
    else if (p->fam == FAM_SHA2) {   /* HMAC */
        uint8_t k[128], o[64]; int bs = n == 16 ? 64 : 128;
        for (int i = 0; i < bs; i++) k[i] = (i < n ? prf[i] : 0) ^ 0x36;
        if (n == 16) { rsha256 s; rsha256_init(&s); rsha256_add(&s, k, bs); rsha256_add(&s, optrand, n); rsha256_add(&s, msg, len); rsha256_end(&s, o); }
        else { rsha512 s; rsha512_init(&s); rsha512_add(&s, k, bs); rsha512_add(&s, optrand, n); rsha512_add(&s, msg, len); rsha512_end(&s, o); }
        for (int i = 0; i < bs; i++) k[i] ^= 0x36 ^ 0x5c;
        if (n == 16) { rsha256 s; rsha256_init(&s); rsha256_add(&s, k, bs); rsha256_add(&s, o, 32); rsha256_end(&s, o); }
        else { rsha512 s; rsha512_init(&s); rsha512_add(&s, k, bs); rsha512_add(&s, o, 64); rsha512_end(&s, o); }
        memcpy(R, o, n);
    } else { abs_t s; abs_init(&s, ABS_PRFMSG); abs_add(&s, prf, n); abs_add(&s, optrand, n); abs_add(&s, msg, len); abs_out(&s, R, n, p->absmode); }
}
void ref_hash_msg(const rps_t *p, const uint8_t *pk, const uint8_t *R, const void *msg, size_t len, uint8_t *out, size_t outlen) {
    int n = p->n;
    if (p->fam == FAM_SHAKE) { rshake s; rshake_init(&s); rshake_add(&s, R, n); rshake_add(&s, pk, 2 * n); rshake_add(&s, msg, len); rshake_end(&s, out, outlen); }
    else if (p->fam == FAM_SHA2) {   /* MGF1(R || PK.seed || SHA-X(R || PK.seed || PK.root || M)) */
        uint8_t o[64], b[2 * MAXN + 64 + 4]; int hl = n == 16 ? 32 : 64;
        if (n == 16) { rsha256 s; rsha256_init(&s); rsha256_add(&s, R, n); rsha256_add(&s, pk, 2 * n); rsha256_add(&s, msg, len); rsha256_end(&s, o); }
        else { rsha512 s; rsha512_init(&s); rsha512_add(&s, R, n); rsha512_add(&s, pk, 2 * n); rsha512_add(&s, msg, len); rsha512_end(&s, o); }
        memcpy(b, R, n); memcpy(b + n, pk, n); memcpy(b + 2 * n, o, hl);
        for (uint32_t ctr = 0; outlen; ctr++) {
            be(b + 2 * n + hl, ctr, 4);
            if (n == 16) ref_sha256(o, b, 2 * n + hl + 4); else ref_sha512(o, b, 2 * n + hl + 4);
            size_t m = outlen < (size_t)hl ? outlen : (size_t)hl; memcpy(out, o, m); out += m; outlen -= m;
        }
    } else if (p->absmode & 2) {     /* the digest is the message itself, zero padded */
        for (size_t i = 0; i < outlen; i++) out[i] = i < len ? ((const uint8_t *)msg)[i] : 0;
    } else { abs_t s; abs_init(&s, ABS_HMSG); abs_add(&s, R, n); abs_add(&s, pk, 2 * n); abs_add(&s, msg, len); abs_out(&s, out, outlen, p->absmode); }
}
/* bit i (0 = most significant) of a byte string */
static unsigned bit(const uint8_t *b, unsigned i) { return (b[i / 8] >> (7 - i % 8)) & 1u; }
static uint64_t bytes_mod(const uint8_t *b, unsigned len, unsigned bits) {
    unsigned __int128 v = 0; for (unsigned i = 0; i < len; i++) v = v << 8 | b[i];
    return (uint64_t)(v & (((unsigned __int128)1 << bits) - 1));
}
void ref_position(const rps_t *p, const uint8_t *dg, unsigned *idx, uint64_t *tree, unsigned *leaf) {
    for (int i = 0; i < p->k; i++) { idx[i] = 0; for (int j = 0; j < p->t; j++) idx[i] = idx[i] << 1 | bit(dg, i * p->t + j); }
    unsigned a = (p->k * p->t + 7) / 8, b = (p->h - p->mh + 7) / 8, c = (p->mh + 7) / 8;
    *tree = bytes_mod(dg + a, b, p->h - p->mh); *leaf = (unsigned)bytes_mod(dg + a + b, c, p->mh);
}
void ref_sign_digest(const rps_t *p, const uint8_t *sk, const uint8_t *R, const uint8_t *dg, uint8_t *sig) {
    hctx c; int n = p->n; unsigned idx[64], leaf; uint64_t tree; uint8_t roots[64 * MAXN], m[MAXN]; uint8_t *o = sig;
    h_start(&c, p, sk + 2 * n); ref_position(p, dg, idx, &tree, &leaf);
    memmove(o, R, n); o += n;
    for (int i = 0; i < p->k; i++) {
        unsigned base = (unsigned)i << p->t;
        fors_secret(&c, sk, tree, leaf, base + idx[i], o); o += n;
        for (int z = 0; z < p->t; z++, o += n) fors_node(&c, sk, tree, leaf, z, (base + idx[i]) >> z ^ 1, o);
        /* the root, from the two children of the top: the sibling subtree is in the signature */
        adrs a = { 0, tree, FORS_TREE, leaf, 0, base + idx[i] }; uint8_t x[2 * MAXN], y[MAXN];
        T(&c, &a, o - (p->t + 1) * n, 1, y);
        for (int z = 0; z < p->t; z++) {
            const uint8_t *s = o - (p->t - z) * n; unsigned right = (idx[i] >> z) & 1;
            memcpy(x + (right ? n : 0), y, n); memcpy(x + (right ? 0 : n), s, n);
            adrs b = { 0, tree, FORS_TREE, leaf, (uint32_t)z + 1, (base + idx[i]) >> (z + 1) }; T(&c, &b, x, 2, y);
        }
        memcpy(roots + i * n, y, n);
    }
    adrs fr = { 0, tree, FORS_ROOTS, leaf, 0, 0 }; T(&c, &fr, roots, p->k, m);
    for (int layer = 0; layer < p->d; layer++) {
        unsigned dig[MAXLEN]; base_w(p, m, dig);
        for (int i = 0; i < wlen(p); i++, o += n) {
            wots_sk(&c, sk, layer, tree, leaf, i, o);
            adrs a = { (uint32_t)layer, tree, WOTS_HASH, leaf, (uint32_t)i, 0 }; chain(&c, a, 0, dig[i], o);
        }
        for (int z = 0; z < p->mh; z++, o += n) xmss_node(&c, sk, layer, tree, z, (leaf >> z) ^ 1, o);
        /* root of this tree = message of the next layer */
        uint8_t y[MAXN], x[2 * MAXN]; xmss_node(&c, sk, layer, tree, 0, leaf, y);
        for (int z = 0; z < p->mh; z++) {
            const uint8_t *s = o - (p->mh - z) * n; unsigned right = (leaf >> z) & 1;
            memcpy(x + (right ? n : 0), y, n); memcpy(x + (right ? 0 : n), s, n);
            adrs b = { (uint32_t)layer, tree, TREE, 0, (uint32_t)z + 1, leaf >> (z + 1) }; T(&c, &b, x, 2, y);
        }
        memcpy(m, y, n);
        leaf = (unsigned)(tree & ((1u << p->mh) - 1)); tree >>= p->mh;
    }
}
void ref_sign(const rps_t *p, const uint8_t *sk, const uint8_t *optrand, const void *msg, size_t len, uint8_t *sig) {
    uint8_t R[MAXN], dg[64]; ref_prf_msg(p, sk, optrand, msg, len, R);
    ref_hash_msg(p, sk + 2 * p->n, R, msg, len, dg, ref_digest_len(p)); ref_sign_digest(p, sk, R, dg, sig);
}
int ref_verify_digest(const rps_t *p, const uint8_t *pk, const uint8_t *dg, const uint8_t *sig) {
    hctx c; int n = p->n; unsigned idx[64], leaf; uint64_t tree; uint8_t roots[64 * MAXN], m[MAXN], x[2 * MAXN]; const uint8_t *s = sig + n;
    h_start(&c, p, pk); ref_position(p, dg, idx, &tree, &leaf);
    for (int i = 0; i < p->k; i++) {
        unsigned base = (unsigned)i << p->t; uint8_t y[MAXN];
        adrs a = { 0, tree, FORS_TREE, leaf, 0, base + idx[i] }; T(&c, &a, s, 1, y); s += n;
        for (int z = 0; z < p->t; z++, s += n) {
            unsigned right = (idx[i] >> z) & 1; memcpy(x + (right ? n : 0), y, n); memcpy(x + (right ? 0 : n), s, n);
            adrs b = { 0, tree, FORS_TREE, leaf, (uint32_t)z + 1, (base + idx[i]) >> (z + 1) }; T(&c, &b, x, 2, y);
        }
        memcpy(roots + i * n, y, n);
    }
    adrs fr = { 0, tree, FORS_ROOTS, leaf, 0, 0 }; T(&c, &fr, roots, p->k, m);
    for (int layer = 0; layer < p->d; layer++) {
        unsigned dig[MAXLEN]; uint8_t tmp[MAXLEN * MAXN]; base_w(p, m, dig);
        for (int i = 0; i < wlen(p); i++, s += n) {
            memcpy(tmp + i * n, s, n);
            adrs a = { (uint32_t)layer, tree, WOTS_HASH, leaf, (uint32_t)i, 0 }; chain(&c, a, dig[i], 15, tmp + i * n);
        }
        adrs a = { (uint32_t)layer, tree, WOTS_PK, leaf, 0, 0 }; T(&c, &a, tmp, wlen(p), m);
        for (int z = 0; z < p->mh; z++, s += n) {
            unsigned right = (leaf >> z) & 1; memcpy(x + (right ? n : 0), m, n); memcpy(x + (right ? 0 : n), s, n);
            adrs b = { (uint32_t)layer, tree, TREE, 0, (uint32_t)z + 1, leaf >> (z + 1) }; T(&c, &b, x, 2, m);
        }
        leaf = (unsigned)(tree & ((1u << p->mh) - 1)); tree >>= p->mh;
    }
    return memcmp(m, pk + n, n) == 0;
}
int ref_verify(const rps_t *p, const uint8_t *pk, const void *msg, size_t len, const uint8_t *sig, size_t siglen) {
    uint8_t dg[64]; if (siglen != ref_sig_len(p)) return 0;
    ref_hash_msg(p, pk, sig, msg, len, dg, ref_digest_len(p)); return ref_verify_digest(p, pk, dg, sig);
}
/* ------------------------------------------------------------------ value helpers */
void ref_fors_sk(const rps_t *p, const uint8_t *sk, uint64_t tree, unsigned leaf, unsigned index, uint8_t *out) {
    hctx c; h_start(&c, p, sk + 2 * p->n); fors_secret(&c, sk, tree, leaf, index, out);
}
void ref_fors_pk_from_sk(const rps_t *p, const uint8_t *sk, uint64_t tree, unsigned leaf, uint8_t *out) {
    hctx c; uint8_t roots[64 * MAXN]; h_start(&c, p, sk + 2 * p->n);
    for (int i = 0; i < p->k; i++) fors_node(&c, sk, tree, leaf, p->t, i, roots + i * p->n);
    adrs fr = { 0, tree, FORS_ROOTS, leaf, 0, 0 }; T(&c, &fr, roots, p->k, out);
}
void ref_tree_node(const rps_t *p, const uint8_t *sk, unsigned layer, uint64_t tree, unsigned height, unsigned index, uint8_t *out) {
    hctx c; h_start(&c, p, sk + 2 * p->n); xmss_node(&c, sk, layer, tree, height, index, out);
}
