/* Support of the native executable-contract harnesses: deterministic cases, a
 * trace of the operations performed, memory accounting and replay. */
#ifndef HX_H
#define HX_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <axl.h>
#include <axl_ns.h>
#include <axl_babel.h>

typedef void (*hx_case) (int n);
typedef struct { const char *prop, *name; hx_case fn; int quick, thorough; } hx_group;

extern int    hx_thorough;
/* random numbers of the current case */
unsigned      hx_rnd (void);
int           hx_r (int n);                      /* 0..n-1 */
int           hx_chance (int num, int den);
/* trace of the operations of the current case */
void          T (const char *fmt, ...) __attribute__((format(printf,1,2)));
void          hx_trace_reset (void);
/* reports a violated contract and ends the process */
void          hx_fail (const char *fmt, ...) __attribute__((format(printf,1,2), noreturn));
#define CK(cond, ...) do { if (!(cond)) hx_fail (__VA_ARGS__); } while (0)
/* bytes of heap in use */
size_t        hx_heap (void);
/* strdup-like into a block of exactly that size, so that any byte read beyond is caught */
char        * hx_exact (const char *s, int len);
const char  * hx_show (const char *s, int len);  /* printable */
char        * hx_tmpfile (const char *content, int len);   /* file in the scratch directory; free() the name */
/* reads of the library return at most this many bytes (0: no limit; < 0: random up to its negation) */
extern int    hx_read_max;
int           hx_main (int argc, char **argv, hx_group *groups);
#endif
