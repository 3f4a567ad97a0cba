/* Contracts of the loader's entry points (src/NodesetLoader.c): import of one
 * file, creation, deletion, sorting, iteration.  The callbacks are verified in
 * parser.c, the parser in parserun.c, the node tables in nodeset.c. */
#include "vf.h"
#include <stdio.h>
#include <NodesetLoader/NodesetLoader.h>
#include "Nodeset.h"
#include "Parser.h"
#include "nodes/Node.h"
#include "InternalLogger.h"
#include "InternalRefService.h"
bool G_bad; int G_errors, G_warnings, G_opened, G_closed, G_nsnew, G_starts, G_runs, G_pnew, G_pdel, G_valdel, G_nodedel, G_cleanups, G_rsnew, G_rsdel, G_lgnew, G_sorts; FILE *G_f; Nodeset *G_ns; bool G_startok, G_runok, G_leftval, G_leftnode, G_sortres; NL_Value *G_val; NL_Node *G_node; Parser *G_parser;
const char *G_path; NL_addNamespaceCallback G_cb; NodesetLoader_Logger *G_lg, *G_ilg; NL_ReferenceService *G_rs, *G_irs; void *G_uctx; NodesetLoader_ExtensionInterface *G_ext; void *G_lctx;
static void lg(void *ctx, enum NodesetLoader_LogLevel l, const char *m, ...) { if(ctx != G_lctx || !m) G_bad = true; if(l == NODESETLOADER_LOGLEVEL_ERROR) G_errors++; else G_warnings++; }
static unsigned short nscb(void *u, const char *uri) { return 0; }
static FILE *vf_fopen(const char *p, const char *m) { if(p != G_path || m[0] != 'r' || (m[1] != 0 && m[1] != 'b')) G_bad = true; if(G_f) G_opened++; return G_f; }
static int vf_fclose(FILE *f) { if(f != G_f || !f) G_bad = true; G_closed++; return 0; }
#ifdef VF_OOM
static bool G_oom;
static void *vf_calloc(size_t n, size_t z) { if(nondet_bool()) { G_oom = true; return NULL; } return calloc(n, z); }
#define calloc vf_calloc
static void *vf_malloc(size_t z) { if(nondet_bool()) { G_oom = true; return NULL; } return malloc(z); }
#define malloc vf_malloc
#else
#define G_oom false
#endif
#define fopen vf_fopen
#define fclose vf_fclose
Nodeset *Nodeset_new(NL_addNamespaceCallback cb, NodesetLoader_Logger *l, NL_ReferenceService *r) { if(cb != G_cb || l != G_lg || r != G_rs) G_bad = true; G_nsnew++; return G_ns; }
bool Nodeset_startFile(Nodeset *n, NL_addNamespaceCallback cb) { if(n != G_ns || cb != G_cb) G_bad = true; G_starts++; return G_startok; }
void Nodeset_cleanup(Nodeset *n) { if(n != G_ns || n == NULL) G_bad = true; G_cleanups++; }
bool Nodeset_sort(Nodeset *n) { if(n != G_ns) G_bad = true; G_sorts++; return G_sortres; }
Parser *Parser_new(void *ctx);
int Parser_run(Parser *p, FILE *f, Parser_callbackStart s, Parser_callbackEnd e, Parser_callbackChar c);
void Parser_delete(Parser *p) { if(p != G_parser || G_pdel) G_bad = true; G_pdel++; }
void Value_delete(NL_Value *v) { if(v != G_val || !G_leftval) G_bad = true; G_valdel++; }
void Node_delete(NL_Node *n) { if(n != G_node || !G_leftnode) G_bad = true; G_nodedel++; }
NodesetLoader_Logger *InternalLogger_new(void) { G_lgnew++; return G_ilg; }
void InternalLogger_delete(NodesetLoader_Logger *l) { free(l); }
NL_ReferenceService *InternalRefService_new(void) { G_rsnew++; return G_irs; }
void InternalRefService_delete(NL_ReferenceService *r) { if(r != G_irs) G_bad = true; G_rsdel++; }
#include "gen/src/NodesetLoader.c"
#undef malloc
#undef calloc
static TParserCtx *G_pc;
Parser *Parser_new(void *ctx) { TParserCtx *c = G_pc = (TParserCtx *)ctx; G_pnew++;
    /* the state of a file which is about to be read */
    if(c->state != PARSER_STATE_INIT || c->unknown_depth != 0 || c->onCharacters || c->onCharLength || c->node || c->val || c->userContext != G_uctx || c->extIf != G_ext || c->nodeset != G_ns) G_bad = true;
    return G_parser; }
int Parser_run(Parser *p, FILE *f, Parser_callbackStart s, Parser_callbackEnd e, Parser_callbackChar c) {
    if(p != G_parser || f != G_f || G_closed || s != OnStartElementNs || e != OnEndElementNs || c != OnCharacters) G_bad = true; G_runs++;
    if(!G_runok) { if(G_leftval) G_pc->val = G_val; if(G_leftnode) G_pc->node = G_node; } else G_leftval = G_leftnode = false;
    return G_runok ? 0 : 1; }
static void setup(void) {
    G_f = nondet_bool() ? NULL : (FILE *)malloc(1); G_ns = (Nodeset *)malloc(sizeof(Nodeset)); G_val = (NL_Value *)malloc(1); G_node = (NL_Node *)malloc(1); G_parser = (Parser *)malloc(1); G_path = (const char *)malloc(1);
    G_lg = (NodesetLoader_Logger *)malloc(sizeof *G_lg); G_lctx = nondet_ptr(); G_lg->context = G_lctx; G_lg->log = lg; G_rs = (NL_ReferenceService *)malloc(sizeof *G_rs); G_ext = nondet_bool() ? NULL : (NodesetLoader_ExtensionInterface *)malloc(1); G_uctx = nondet_ptr();
    G_startok = nondet_bool(); G_runok = nondet_bool(); G_leftval = nondet_bool(); G_leftnode = nondet_bool(); G_sortres = nondet_bool(); }
#ifdef OB_import
void harness(void) { setup();
    NodesetLoader l0, *l = (NodesetLoader *)malloc(sizeof *l); l->logger = G_lg; l->refService = G_rs; l->internalLogger = nondet_bool(); l->internalRefService = nondet_bool(); l->nodeset = nondet_bool() ? NULL : G_ns; l0 = *l;
    NL_FileContext *c = nondet_bool() ? NULL : (NL_FileContext *)malloc(sizeof *c); G_cb = nondet_bool() ? NULL : nscb; NL_FileContext c0;
    if(c) { c->userContext = G_uctx; c->file = G_path; c->addNamespace = G_cb; c->extensionHandling = G_ext; c0 = *c; }
    bool r = NodesetLoader_importFile(l, c);
    ENS(!G_bad);
    /* refused contexts: reported, nothing is touched */
    bool refused = !c || !G_cb;
    ENS(IMP(refused, !r && G_errors >= 1 && !G_nsnew && !G_starts && !G_opened && !G_pnew && l->nodeset == l0.nodeset));
    /* one set of tables for all files, started anew for each of them */
    ENS(IMP(!refused, l->nodeset == G_ns && (l0.nodeset ? !G_nsnew && G_starts == 1 : G_nsnew == 1)));
    bool stopped = !refused && l0.nodeset && !G_startok;
    ENS(IMP(stopped, !r && !G_runs && G_opened == G_closed));
    ENS(IMP(!refused && !stopped && !G_f, !r && G_errors >= 1 && !G_pnew));
    ENS(IMP(G_oom, !r && !G_runs));   /* no memory for the state of the file: nothing is imported */
    ENS(IMP(!refused && !stopped && G_f && !G_oom, G_runs == 1 && G_pnew == 1 && G_pdel == 1 && r == G_runok && (G_runok ? G_errors == 0 : G_errors >= 1)));
    /* nothing is left behind */
    ENS(G_closed == G_opened); ENS(IMP(G_runs, G_valdel == G_leftval && G_nodedel == G_leftnode));
    ENS(l->logger == l0.logger && l->refService == l0.refService && l->internalLogger == l0.internalLogger && l->internalRefService == l0.internalRefService && G_errors + G_warnings < 5);
    ENS(IMP(c, c->file == c0.file && c->addNamespace == c0.addNamespace && c->userContext == c0.userContext && c->extensionHandling == c0.extensionHandling));
    VAC(r && l0.nodeset); VAC(r && !l0.nodeset); VAC(!r && G_runs && G_leftval && G_leftnode); VAC(!r && !G_f && !refused); VAC(!c); VAC(c && !G_cb); VAC(stopped);
#ifdef VF_OOM
    VAC(G_oom && G_opened && !r);
#endif
    free(G_f); free(G_ns); free(G_val); free(G_node); free(G_parser); free((void *)G_path); free(G_lg); free(G_rs); free(G_ext); free(l); free(c); }
#endif
#ifdef OB_lnew
void harness(void) { setup(); bool ml = nondet_bool(), mr = nondet_bool(); G_ilg = (NodesetLoader_Logger *)malloc(1); G_irs = (NL_ReferenceService *)malloc(1);
    NodesetLoader *l = NodesetLoader_new(ml ? G_lg : NULL, mr ? G_rs : NULL);
    ENS(l != NULL && l->nodeset == NULL); ENS(ml ? l->logger == G_lg && !l->internalLogger && !G_lgnew : l->logger == G_ilg && l->internalLogger && G_lgnew == 1);
    ENS(mr ? l->refService == G_rs && !l->internalRefService && !G_rsnew : l->refService == G_irs && l->internalRefService && G_rsnew == 1); ENS(!G_bad);
    VAC(ml && mr); VAC(!ml && !mr); VAC(ml && !mr); }
#endif
#ifdef OB_ldelete
void harness(void) { setup(); bool il = nondet_bool(), ir = nondet_bool(), has = nondet_bool(); G_irs = (NL_ReferenceService *)malloc(1); NodesetLoader_Logger *ilg = (NodesetLoader_Logger *)malloc(1);
    NodesetLoader *l = (NodesetLoader *)malloc(sizeof *l); l->nodeset = has ? G_ns : NULL; l->internalLogger = il; l->logger = il ? ilg : G_lg; l->internalRefService = ir; l->refService = ir ? G_irs : G_rs;
    NodesetLoader_delete(l);
    ENS(!G_bad && G_cleanups == has && G_rsdel == ir);
    /* the caller's objects are still alive (leaks are checked) */
    G_lg->log(G_lctx, NODESETLOADER_LOGLEVEL_ERROR, ""); G_rs->context = NULL; VAC(has && il && ir); VAC(!has && !il && !ir);
    free(G_f); free(G_ns); free(G_val); free(G_node); free(G_parser); free((void *)G_path); free(G_lg); free(G_rs); free(G_ext); free(G_irs); if(!il) free(ilg); }
#endif
#if defined(OB_lsort) || defined(OB_lforeach) || defined(OB_lbidir)
size_t G_cnt; int G_each; const NL_BiDirectionalReference *G_bi;
static void each(void *c, NL_Node *n) {}
size_t Nodeset_forEachNode(Nodeset *n, NL_NodeClass c, void *ctx, NodesetLoader_forEachNode_Func fn) { if(n != G_ns || (int)c != G_each || ctx != G_uctx || fn != each) G_bad = true; return G_cnt; }
const NL_BiDirectionalReference *Nodeset_getBiDirectionalRefs(const Nodeset *n) { if(n != G_ns) G_bad = true; return G_bi; }
void harness(void) { setup(); bool has = nondet_bool(); NodesetLoader *l = (NodesetLoader *)malloc(sizeof *l); l->nodeset = has ? G_ns : NULL; G_each = nondet_int(); __CPROVER_assume(G_each >= 0 && G_each < 8); G_cnt = nondet_size_t(); G_bi = (NL_BiDirectionalReference *)malloc(1);
#ifdef OB_lsort
    bool r = NodesetLoader_sort(l); ENS(!G_bad && r == (has && G_sortres) && G_sorts == has); VAC(r); VAC(!r && has); VAC(!has);
#elif defined(OB_lforeach)
    size_t r = NodesetLoader_forEachNode(l, (NL_NodeClass)G_each, G_uctx, each); ENS(!G_bad && r == (has ? G_cnt : 0)); VAC(has && r > 5); VAC(!has);
#else
    const NL_BiDirectionalReference *r = NodesetLoader_getBidirectionalRefs(l); ENS(!G_bad && r == (has ? G_bi : NULL)); VAC(has); VAC(!has);
#endif
}
#endif
