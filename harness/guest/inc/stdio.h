#ifndef G_STDIO_H_
#define G_STDIO_H_
#include <stddef.h>
typedef struct g_file FILE; extern FILE *stdout, *stderr, *stdin;
int printf(const char *, ...); int fprintf(FILE *, const char *, ...); int snprintf(char *, size_t, const char *, ...); int puts(const char *); int putchar(int);
#endif
