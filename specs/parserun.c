/* Contract of Parser_run (src/Parser.c): the XML parser gets all bytes of the
 * file in order and is told the end; success exactly if nothing failed.
 * fread/ferror and libxml2 are known by their documented interface (trusted).
 * The file has G_size bytes (any number); G_J is an arbitrary position, G_c its byte. */
#include "vf.h"
#include <stdio.h>
size_t G_size, G_J, G_pos, G_fed; char G_c; FILE *G_file; bool G_ioerr, G_iofail, G_xmlerr, G_term, G_bad, G_live; int G_created, G_freed, G_started; size_t G_failAt, G_ioAt;
void *G_pctx; void *G_cbs, *G_cbe, *G_cbc; void *G_xctx;
static size_t vf_fread(void *p, size_t sz, size_t n, FILE *f) {
    __CPROVER_precondition(f == G_file && sz == 1, "reads bytes of the file"); __CPROVER_precondition(__CPROVER_w_ok(p, n), "buffer of fread");
    size_t left = G_size - G_pos, r = left < n ? left : n;
    if(G_ioAt < G_pos + r) { r = G_ioAt - G_pos; G_ioerr = true; } else if(G_ioAt == G_pos && G_iofail) { r = 0; G_ioerr = true; }
    if(r > 0) { __CPROVER_havoc_slice(p, r); if(G_J >= G_pos && G_J < G_pos + r) __CPROVER_assume(((char *)p)[G_J - G_pos] == G_c); }
    G_pos += r; return r; }
static int vf_ferror(FILE *f) { __CPROVER_precondition(f == G_file, "the file"); return G_ioerr; }
static int vf_feof(FILE *f) { __CPROVER_precondition(f == G_file, "the file"); return !G_ioerr && G_pos == G_size; }
#define fread vf_fread
#define ferror vf_ferror
#define feof vf_feof
#include <libxml/SAX.h>
#include <libxml/parser.h>
static void feed(const char *chunk, int n) {
    if(n < 0 || (n > 0 && !__CPROVER_r_ok(chunk, n))) { G_bad = true; return; }
    if(G_J >= G_fed && G_J < G_fed + (size_t)n && chunk[G_J - G_fed] != G_c) G_bad = true;
    G_fed += (size_t)n; if(G_fed > G_pos) G_bad = true; if(G_failAt < G_fed) G_xmlerr = true; }
static xmlParserCtxtPtr vf_create(xmlSAXHandlerPtr h, void *u, const char *chunk, int size, const char *fn) {
    if(G_created || !h || h->initialized != XML_SAX2_MAGIC || (void *)h->startElementNs != G_cbs || (void *)h->endElementNs != G_cbe || (void *)h->characters != G_cbc || u != G_pctx) G_bad = true;
    if(h->cdataBlock || h->startElement || h->endElement) G_bad = true;
    G_created = 1; if(!G_xctx) return NULL; G_live = true; feed(chunk, size); return (xmlParserCtxtPtr)G_xctx; }
static int vf_chunk(xmlParserCtxtPtr c, const char *chunk, int n, int term) {
    if((void *)c != G_xctx || !G_live || G_term) G_bad = true; feed(chunk, n);
    if(term) { G_term = true; if(G_failAt <= G_fed) G_xmlerr = true; }       /* e.g. unclosed elements */
    return G_xmlerr ? 76 : 0; }
static void vf_free(xmlParserCtxtPtr c) { if((void *)c != G_xctx || !G_live) G_bad = true; G_live = false; G_freed++; }
#define xmlCreatePushParserCtxt vf_create
#define xmlParseChunk vf_chunk
#define xmlFreeParserCtxt vf_free
#undef xmlParserError
#define xmlParserError(...) ((void)0)
#define xmlInitParser() ((void)0)
#define xmlCleanupParser() ((void)0)
#include "gen/src/Parser.c"
void s(void *ctx, const char *a, const char *b, const char *c, int d, const char **e, int f, int g, const char **h) {}
void e(void *ctx, const char *a, const char *b, const char *c) {}
void c(void *ctx, const char *a, int n) {}
static bool post_run(int r) {
    bool ok = G_created && G_xctx && !G_xmlerr && !G_ioerr && G_term && G_fed == G_size && G_pos == G_size;
    if(G_bad || G_live || G_freed != (G_created && G_xctx)) return false;
    if(r == 0 && !ok) return false;
    /* nothing is wrong with the file: it is accepted (the smallest document has four bytes) */
    if(r != 0 && G_size >= 4 && G_xctx && G_failAt > G_size && G_ioAt > G_size) return false;
    return true; }
int c_run(Parser *parser, FILE *file, Parser_callbackStart start, Parser_callbackEnd end, Parser_callbackChar onChars)
__CPROVER_requires(file == G_file && parser->context == G_pctx)
__CPROVER_assigns(G_pos, G_fed, G_ioerr, G_xmlerr, G_term, G_bad, G_live, G_created, G_freed)
;
void harness(void) {
    Parser *p = (Parser *)malloc(sizeof *p); __CPROVER_assume(p != NULL); p->context = G_pctx = nondet_ptr(); G_file = (FILE *)malloc(sizeof(FILE)); G_xctx = nondet_bool() ? NULL : malloc(1);
    G_cbs = (void *)s; G_cbe = (void *)e; G_cbc = (void *)c; G_size = nondet_size_t(); G_J = nondet_size_t(); G_c = nondet_char(); G_failAt = nondet_size_t(); G_ioAt = nondet_size_t(); G_iofail = nondet_bool();
    __CPROVER_assume(G_size <= LIM((size_t)1 << 60) && G_failAt <= ((size_t)1 << 61) && G_ioAt <= ((size_t)1 << 61)); G_pos = G_fed = 0; G_ioerr = G_xmlerr = G_term = G_bad = G_live = false; G_created = G_freed = 0;
    int r = Parser_run(p, G_file, s, e, c); ENS(post_run(r));
    VAC(r == 0 && G_size > 5000); VAC(r == 0 && G_size == 4); VAC(r != 0 && G_xmlerr && G_term); VAC(r != 0 && G_xmlerr && !G_term); VAC(r != 0 && G_ioerr && G_pos > 4); VAC(r != 0 && G_size == 0); }
