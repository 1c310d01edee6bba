/* run a function on a dedicated stack whose previous content is chosen by the caller */
#ifndef STK_H_
#define STK_H_
#include <ucontext.h>
#define STK_SIZE (1 << 16)
static u8 *stk_mem; static ucontext_t stk_main, stk_ctx; static void (*stk_fn)(void *); static void *stk_arg;
static void stk_tramp(void) { stk_fn(stk_arg); }
static void stk_run(void (*fn)(void *), void *arg) {
    if (!stk_mem) { stk_mem = gbuf(STK_SIZE, 1); }
    getcontext(&stk_ctx); stk_ctx.uc_stack.ss_sp = stk_mem; stk_ctx.uc_stack.ss_size = STK_SIZE; stk_ctx.uc_link = &stk_main;
    stk_fn = fn; stk_arg = arg; makecontext(&stk_ctx, stk_tramp, 0); swapcontext(&stk_main, &stk_ctx);
}
/* fill the unused stack; the pattern is a byte, or deterministic noise when pat >= 256 */
static void stk_paint(unsigned pat) { if (!stk_mem) stk_mem = gbuf(STK_SIZE, 1); if (pat < 256) memset(stk_mem, pat, STK_SIZE); else fill(stk_mem, STK_SIZE, pat); }
#endif
