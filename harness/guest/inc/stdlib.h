#ifndef G_STDLIB_H_
#define G_STDLIB_H_
#include <stddef.h>
void abort(void) __attribute__((noreturn)); void exit(int) __attribute__((noreturn)); int abs(int); long labs(long);
void *malloc(size_t); void *calloc(size_t, size_t); void *realloc(void *, size_t); void free(void *);
#define EXIT_SUCCESS 0
#define EXIT_FAILURE 1
#endif
