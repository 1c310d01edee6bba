/* Validation of the reference model: the 12 known answers of the original SPHINCS+ reference code
   (copied from the project's test vectors), key, signature and verification; plus hash outputs that
   run.py compares with Python's hashlib.  Nothing of /repo is linked here. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "ref.h"
static struct { const char *name; unsigned char pk[64], opt[32], h[32]; } V[] = {
#include "kat.inc"
};
static const struct { const char *nm; int n, k, t, h, d; } P[] = { {"128f",16,33,6,66,22},{"128s",16,14,12,63,7},{"192f",24,33,8,66,22},{"192s",24,17,14,63,7},{"256f",32,35,9,68,17},{"256s",32,22,14,64,8} };
int main(int argc, char **argv) {
    if (argc > 1 && !strcmp(argv[1], "hashes")) {
        static uint8_t m[700], o[300]; for (int i = 0; i < 700; i++) m[i] = (uint8_t)(i * 7 + 3);
        for (int l = 0; l < 700; l++) {
            int sl = 1 + l % 290;
            printf("%d ", l); ref_sha256(o, m, l); for (int i = 0; i < 32; i++) printf("%02x", o[i]);
            printf(" "); ref_sha512(o, m, l); for (int i = 0; i < 64; i++) printf("%02x", o[i]);
            printf(" "); ref_shake256(o, sl, m, l); for (int i = 0; i < sl; i++) printf("%02x", o[i]);
            printf("\n");
        }
        return 0;
    }
    int i = atoi(argv[1]); int ok = 0;
    for (int j = 0; j < 6; j++) if (strstr(V[i].name, P[j].nm)) {
        rps_t p = { .n = P[j].n, .k = P[j].k, .t = P[j].t, .h = P[j].h, .d = P[j].d, .mh = P[j].h / P[j].d, .fam = strstr(V[i].name, "sha2") ? FAM_SHA2 : FAM_SHAKE };
        uint8_t seed[96], sk[128], *sig = malloc(ref_sig_len(&p)), hs[32];
        for (int b = 0; b < 96; b++) seed[b] = b;
        ref_keygen(&p, seed, sk);
        int a = !memcmp(sk + 2 * p.n, V[i].pk, 2 * p.n);
        ref_sign(&p, sk, V[i].opt, "abc", 3, sig); ref_sha256(hs, sig, ref_sig_len(&p));
        int b = !memcmp(hs, V[i].h, 32), c = ref_verify(&p, V[i].pk, "abc", 3, sig, ref_sig_len(&p));
        sig[100] ^= 1; int d = !ref_verify(&p, V[i].pk, "abc", 3, sig, ref_sig_len(&p));
        printf("%s pk=%d sig=%d ver=%d rej=%d\n", V[i].name, a, b, c, d); ok = a && b && c && d;
    }
    return ok ? 0 : 1;
}
