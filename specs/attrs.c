/* Contract of the attribute lookup (src/Nodeset.c: getAttributeValue). */
#include "vf.h"
size_t G_J;
/* memcpy: trusted contract, instantiated at the arbitrary index G_J */
int G_copies; 
static void *vf_memcpy(void *dst, const void *src, size_t n) {
        G_copies++;
    __CPROVER_precondition(n == 0 || __CPROVER_r_ok(src, n), "memcpy source"); __CPROVER_precondition(n == 0 || __CPROVER_w_ok(dst, n), "memcpy target");
    if(G_J < n) ((char *)dst)[G_J] = ((const char *)src)[G_J];
    return dst; }
#ifdef OB_first
/* The names of the table are opaque: entry k has the name G_names + k (assumed
 * for entry k + 1 when entry k is compared, so it holds for every entry that is
 * compared without a quantifier).  G_K is the first entry whose name is equal. */
static const char **G_tab; static int G_nb; static size_t G_K; static char *G_names; static const char *G_attrName; static int G_cmps;
static int vf_strcmp(const char *a, const char *b) {
    __CPROVER_precondition((a == G_attrName) != (b == G_attrName), "compared with the name of the attribute");
    const char *x = b == G_attrName ? a : b;
    __CPROVER_precondition(__CPROVER_same_object(x, G_names), "the name of an entry is compared");
    size_t k = (size_t)__CPROVER_POINTER_OFFSET(x); __CPROVER_precondition(k < (size_t)G_nb, "an entry of the table");
    if(k + 1 < (size_t)G_nb) __CPROVER_assume(G_tab[5 * (k + 1)] == G_names + (k + 1));
    int r = nondet_int(); __CPROVER_assume(k > G_K || ((r == 0) == (k == G_K)));
    return r; }
#else
static int vf_strcmp(const char *a, const char *b) { size_t i = 0; while(a[i] == b[i] && a[i]) i++; return (unsigned char)a[i] - (unsigned char)b[i]; }
#endif
#include <open62541/types.h>
#include <NodesetLoader/NodesetLoader.h>
#include "Nodeset.h"
#include "AliasList.h"
#include "NamespaceList.h"
#include "Sort.h"
#include "nodes/NodeContainer.h"
#include "nodes/DataTypeNode.h"
#include "nodes/Node.h"
const UA_NodeId UA_NODEID_NULL;
#define memcpy vf_memcpy
#define strcmp vf_strcmp
Nodeset *G_ns; 
#ifndef OB_first
const char **G_tab; int G_nb; size_t G_K;
#endif
CharArenaAllocator *G_arena; char *G_new; size_t G_newsize; int G_mallocs;
/* contract proved in arena.c: fresh zeroed storage (zeroed at the arbitrary index G_J and at the end) */
char *CharArenaAllocator_malloc(CharArenaAllocator *a, size_t n) { __CPROVER_precondition(a == G_arena, "arena of the node set"); G_mallocs++; G_newsize = n; G_new = (char *)malloc(n); if(G_J < n) G_new[G_J] = 0; if(n) G_new[n - 1] = 0; return G_new; }
#include "gen/src/Nodeset.c"
NodeAttribute *G_attr;
#ifdef OB_first
typedef struct { const char *f[5]; } Row;
char *G_def, *G_text; size_t G_s, G_e;
char *c_first(Nodeset *nodeset, const NodeAttribute *attr, const char **attributes, int nb_attributes)
__CPROVER_requires(nodeset == G_ns && attr == G_attr && attributes == G_tab && nb_attributes == G_nb && G_mallocs == 0)
__CPROVER_assigns(G_new, G_newsize, G_mallocs, G_copies)
;
void harness(void) { G_K = nondet_size_t(); G_nb = nondet_int(); __CPROVER_assume(G_nb >= 0 && G_nb <= LIM(1 << 24)); size_t len = nondet_size_t(); __CPROVER_assume(len <= (size_t)1 << 40);
    G_tab = (const char **)malloc((size_t)G_nb * sizeof(Row)); G_names = (char *)malloc((size_t)G_nb + 1); G_text = (char *)malloc(len + 1);
    G_ns = (Nodeset *)malloc(sizeof *G_ns); G_arena = (CharArenaAllocator *)nondet_ptr(); G_ns->charArena = G_arena; G_attr = (NodeAttribute *)malloc(sizeof *G_attr); G_def = G_attr->defaultValue; static char wanted[2]; G_attr->name = wanted; G_attrName = wanted; G_J = nondet_size_t();
    G_mallocs = 0; G_copies = 0; if(G_nb > 0) __CPROVER_assume(G_tab[0] == G_names);
    G_s = nondet_size_t(); G_e = nondet_size_t(); __CPROVER_assume(G_s <= G_e && G_e <= len);
    bool has = G_K < (size_t)G_nb; if(has) { G_tab[5 * G_K + 3] = G_text + G_s; G_tab[5 * G_K + 4] = G_text + G_e; }
    char cJ = 0; if(G_J < G_e - G_s) cJ = G_text[G_s + G_J];
    char *r = getAttributeValue(G_ns, G_attr, G_tab, G_nb);
    ENS(IMP(!has, r == G_def && G_mallocs == 0)); ENS(IMP(has, r == G_new && G_mallocs == 1 && G_newsize > G_e - G_s));
    ENS(IMP(has && G_J < G_e - G_s, r[G_J] == cJ)); ENS(IMP(has, r[G_e - G_s] == 0));
    VAC(!has && G_nb == 0); VAC(!has && G_nb > 3); VAC(has && G_K == 0 && G_e == G_s); VAC(has && G_K > 1); VAC(has && G_e - G_s > 70000 && G_J == 66000); }
#endif
#ifdef OB_exact
#ifndef NB
#define NB 5
#endif
#define NAME(i) (names + (i) * (NL + 1))
#ifndef NL
#define NL 3
#endif
/* one text holds all values; the table may name any part of it, in any order */
void harness(void) { G_nb = nondet_int(); __CPROVER_assume(G_nb >= 0 && G_nb <= NB); size_t len = nondet_size_t(); __CPROVER_assume(len <= (size_t)1 << 40); char *text = (char *)malloc(len + 1);
    static const char *tab[NB * 5]; G_tab = tab; char names[NB * (NL + 1)], want[NL + 1]; size_t s[NB], e[NB]; want[NL] = 0;
    for(int i = 0; i < NB; i++) { for(int k = 0; k < NL; k++) names[i * (NL + 1) + k] = nondet_char(); NAME(i)[NL] = 0; s[i] = nondet_size_t(); e[i] = nondet_size_t(); __CPROVER_assume(s[i] <= e[i] && e[i] <= len); G_tab[5 * i] = NAME(i); G_tab[5 * i + 1] = nondet_ptr(); G_tab[5 * i + 2] = nondet_ptr(); G_tab[5 * i + 3] = text + s[i]; G_tab[5 * i + 4] = text + e[i]; }
    G_ns = (Nodeset *)malloc(sizeof *G_ns); G_arena = (CharArenaAllocator *)nondet_ptr(); G_ns->charArena = G_arena; G_J = nondet_size_t();
    char *def = (char *)nondet_ptr(); NodeAttribute a = { want, def }; Nodeset n0 = *G_ns;
    int first = -1; for(int i = NB - 1; i >= 0; i--) if(i < G_nb) { bool eq = true; for(int k = 0; k <= NL; k++) { if(NAME(i)[k] != want[k]) { eq = false; break; } if(!want[k]) break; } if(eq) first = i; }
    char cJ = 0; if(first >= 0 && G_J < e[first] - s[first]) cJ = text[s[first] + G_J];
    char *r = getAttributeValue(G_ns, &a, G_tab, G_nb);
    ENS(IMP(first < 0, r == def && G_mallocs == 0));
    ENS(IMP(first >= 0, r == G_new && G_mallocs == 1 && G_newsize > e[first] - s[first]));
    ENS(IMP(first >= 0 && G_J < e[first] - s[first], r[G_J] == cJ)); ENS(IMP(first >= 0, r[e[first] - s[first]] == 0));
    ENS(n0.charArena == G_ns->charArena); for(int i = 0; i < NB; i++) ENS(G_tab[5 * i] == NAME(i) && G_tab[5 * i + 3] == text + s[i] && G_tab[5 * i + 4] == text + e[i]);
    VAC(first == NB - 1); VAC(first < 0 && G_nb == NB); VAC(first == 0 && e[0] == s[0]); VAC(first == 1 && e[1] - s[1] > 70000 && G_J == 66000); VAC(first == 2 && want[1]); VAC(G_nb == 0); }
#endif
