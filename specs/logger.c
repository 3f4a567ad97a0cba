/* Contract of the built-in logger (src/PrintfLogger.c).  The stdio functions
 * are known by their contract (trusted): what they print is appended to G_out;
 * the formatted message with all its arguments is the single marker 1. */
#include "vf.h"
#include <stdio.h>
#include <stdarg.h>
#include <NodesetLoader/NodesetLoader.h>
char G_out[64]; int G_n, G_msgs; const char *G_msg; int G_a1; void *G_a2; bool G_bad;
static void put(char c) { if(G_n < 64) G_out[G_n++] = c; else G_bad = true; }
static void puts_(const char *s) { while(*s) put(*s++); }
static void message(va_list vl) { int a = va_arg(vl, int); void *b = va_arg(vl, void *); if(a != G_a1 || b != G_a2) G_bad = true; G_msgs++; put(1); }
static void fmt_(const char *f, va_list vl) {
    if(f == G_msg) { message(vl); return; }
    while(*f) { if(f[0] == '%' && f[1] == 's') { puts_(va_arg(vl, const char *)); f += 2; } else if(f[0] == '%' && f[1] == 'c') { put((char)va_arg(vl, int)); f += 2; } else if(f[0] == '%' && f[1] == '%') { put('%'); f += 2; } else if(f[0] == '%') { G_bad = true; f++; } else put(*f++); } }
static int vf_printf(const char *f, ...) { va_list vl; va_start(vl, f); fmt_(f, vl); va_end(vl); return 1; }
static int vf_fprintf(FILE *o, const char *f, ...) { va_list vl; if(o != stdout) G_bad = true; va_start(vl, f); fmt_(f, vl); va_end(vl); return 1; }
static int vf_vprintf(const char *f, va_list vl) { fmt_(f, vl); return 1; }
static int vf_vfprintf(FILE *o, const char *f, va_list vl) { if(o != stdout) G_bad = true; fmt_(f, vl); return 1; }
/* the formatted message has any length: a buffer which is too small holds only a part of it (marker 2) */
int G_len;
static int vf_vsnprintf(char *b, size_t n, const char *f, va_list vl) {
    if(f != G_msg) { G_bad = true; return 0; }
    int a = va_arg(vl, int); void *p = va_arg(vl, void *); if(a != G_a1 || p != G_a2) G_bad = true;
    if(n) { if(n == 1) b[0] = 0; else { b[0] = n > (size_t)G_len ? 1 : 2; b[1] = 0; if(n > (size_t)G_len) G_msgs++; } }
    return G_len; }
static int vf_vsprintf(char *b, const char *f, va_list vl) { return vf_vsnprintf(b, (size_t)-1, f, vl); }
static int vf_fputc(int c, FILE *o) { if(o != stdout) G_bad = true; put((char)c); return c; }
static int vf_putchar(int c) { put((char)c); return c; }
static int vf_puts(const char *s) { puts_(s); put('\n'); return 1; }
static int vf_fputs(const char *s, FILE *o) { if(o != stdout) G_bad = true; puts_(s); return 1; }
#define printf vf_printf
#define fprintf vf_fprintf
#define vprintf vf_vprintf
#define vfprintf vf_vfprintf
#undef putchar
#define putchar vf_putchar
#define puts vf_puts
#define fputs vf_fputs
#define vsnprintf vf_vsnprintf
#define vsprintf vf_vsprintf
#define fputc vf_fputc
#undef putc
#define putc vf_fputc
#define fflush(x) 0
#include "gen/src/PrintfLogger.c"
#ifdef OB_logger
void harness(void) {
    NodesetLoader_Logger *l0 = InternalLogger_new(); bool gone = nondet_bool(); if(gone) { InternalLogger_delete(l0); l0 = NULL; }   /* any number of times */
    NodesetLoader_Logger *l = InternalLogger_new(); ENS(l != NULL && l != l0 && __CPROVER_w_ok(l, sizeof *l) && l->log != NULL); if(!gone) InternalLogger_delete(l0);
    char m[8]; G_msg = m; G_a1 = nondet_int(); G_a2 = nondet_ptr(); G_len = nondet_int(); __CPROVER_assume(G_len >= 1); int lv = nondet_int(); __CPROVER_assume(lv >= 0 && lv <= 2);   /* m: any message */
    l->log(l->context, (enum NodesetLoader_LogLevel)lv, m, G_a1, G_a2);
    static const char want[3][40] = { "NODESETLOADER: Debug : \1\n", "NODESETLOADER: Warning : \1\n", "NODESETLOADER: Error : \1\n" };
    int i = 0; bool same = true; for(; want[lv][i]; i++) if(i >= G_n || G_out[i] != want[lv][i]) same = false;
    ENS(!G_bad && G_msgs == 1 && same && i == G_n);
    VAC(lv == NODESETLOADER_LOGLEVEL_DEBUG); VAC(lv == NODESETLOADER_LOGLEVEL_WARNING); VAC(lv == NODESETLOADER_LOGLEVEL_ERROR); VAC(gone); VAC(!gone);
    InternalLogger_delete(l); }
#endif
