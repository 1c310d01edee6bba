/* what common.c names but the host does not run when the library runs on the interpreted machine */
#include <stdlib.h>
#define S(x) char ts_ps_##x##_simple[16];
S(shake_128f) S(shake_128s) S(shake_192f) S(shake_192s) S(shake_256f) S(shake_256s) S(sha2_128f) S(sha2_128s) S(sha2_192f) S(sha2_192s) S(sha2_256f) S(sha2_256s)
#define F(x) int x(void); int x(void) { abort(); }
F(ts_gen_key) F(ts_init_sign) F(ts_sign) F(ts_init_verify) F(ts_update_verify) F(ts_verify) F(ts_size_private_key) F(ts_size_public_key) F(ts_size_signature)
