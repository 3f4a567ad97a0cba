/* Contract of unbase64 (backends/open62541/src/nodeset_base64.h).
 * The filtered text is defined by the characters which isspace (trusted
 * contract: the six white space characters) is asked about and denies. */
#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <ctype.h>
int G_n, G_g, G_P; unsigned char G_q0, G_q1, G_q2, G_q3, G_l1, G_l2, G_pc; bool G_illegal; int G_eqs, G_trail;
#define SPACE(c) ((c) == ' ' || ((c) >= 9 && (c) <= 13))
#define VALUE(c) ((c) >= 'A' && (c) <= 'Z' ? (c) - 'A' : (c) >= 'a' && (c) <= 'z' ? (c) - 'a' + 26 : (c) >= '0' && (c) <= '9' ? (c) - '0' + 52 : (c) == '+' ? 62 : (c) == '/' ? 63 : 0)
#define LEGAL(c) (((c) >= 'A' && (c) <= 'Z') || ((c) >= 'a' && (c) <= 'z') || ((c) >= '0' && (c) <= '9') || (c) == '+' || (c) == '/' || (c) == '=')
#define B0(a, b) ((unsigned char)((VALUE(a) << 2) | (VALUE(b) >> 4)))
#define B1(b, c) ((unsigned char)((VALUE(b) << 4) | (VALUE(c) >> 2)))
#define B2(c, d) ((unsigned char)((VALUE(c) << 6) | VALUE(d)))
static int vf_isspace(int c) {
    __CPROVER_precondition(c >= 0 && c <= 255, "isspace argument");
    if(SPACE(c)) return 1;
    if(!LEGAL(c)) G_illegal = true;
    if(G_n == 4 * G_g) G_q0 = (unsigned char)c; else if(G_n == 4 * G_g + 1) G_q1 = (unsigned char)c; else if(G_n == 4 * G_g + 2) G_q2 = (unsigned char)c; else if(G_n == 4 * G_g + 3) G_q3 = (unsigned char)c;
    if(G_n == G_P) G_pc = (unsigned char)c;
    G_l2 = G_l1; G_l1 = (unsigned char)c; if(c == '=') { G_eqs++; G_trail++; } else G_trail = 0; G_n++; return 0; }
#undef isspace
#define isspace vf_isspace
#define puts(x) 0
#include "gen/backends/open62541/src/nodeset_base64.h"
char *G_a; int G_len, *G_fl;
unsigned char *c_unbase64(const char *ascii, int len, int *flen)
__CPROVER_requires(ascii == G_a && len == G_len && flen == G_fl)
__CPROVER_assigns(*flen, G_n, G_q0, G_q1, G_q2, G_q3, G_l1, G_l2, G_pc, G_illegal, G_eqs, G_trail)
;
#ifdef OB_unbase64
void harness(void) {
    G_len = nondet_int(); __CPROVER_assume(G_len >= 0 && G_len <= (int)LIM(1 << 29)); G_a = (char *)malloc((size_t)G_len); G_fl = (int *)malloc(sizeof(int)); G_n = G_eqs = G_trail = 0; G_illegal = false; G_g = nondet_int(); G_P = nondet_int(); __CPROVER_assume(G_g >= 0 && G_g < 1 << 28 && G_P >= 0);
    unsigned char *r = unbase64(G_a, G_len, G_fl); int pad = G_n > 1 ? (G_l1 == '=') + (G_l1 == '=' && G_l2 == '=') : 0;
    ENS(IMP(r == NULL, *G_fl == 0));
    ENS(IMP(r != NULL, !G_illegal && G_n >= 4 && G_n % 4 == 0 && *G_fl == G_n / 4 * 3 - pad && __CPROVER_OBJECT_SIZE(r) == (size_t)*G_fl));
    ENS(IMP(r != NULL && G_P < G_n - pad, G_pc != '='));
    ENS(IMP(r != NULL && 3 * G_g < *G_fl, r[3 * G_g] == B0(G_q0, G_q1)));
    ENS(IMP(r != NULL && 3 * G_g + 1 < *G_fl, r[3 * G_g + 1] == B1(G_q1, G_q2)));
    ENS(IMP(r != NULL && 3 * G_g + 2 < *G_fl, r[3 * G_g + 2] == B2(G_q2, G_q3)));
#ifdef EXACT
    ENS(IMP(r == NULL, G_illegal || G_n < 4 || G_n % 4 != 0 || G_eqs != G_trail || G_trail > 2));
#endif
    VAC(r && pad == 0 && G_n == 8 && G_g == 1); VAC(r && pad == 2); VAC(r && pad == 1 && G_n < G_len); VAC(!r && G_illegal); VAC(!r && !G_illegal && G_n == 8); VAC(!r && G_n == 0);
    free(r); free(G_a); free(G_fl); }
#endif
