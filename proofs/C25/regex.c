/* C25: pattern restrictions. Contracts on cligen_regex.c.
 * regcomp, regexec, xmlRegexpCompile, xmlRegexpExec and the string buffer by assumed contracts: the
 * text built in the buffer is followed by its length, its first character and the character in an
 * arbitrary place k. */
#include "vh.h"
#include <regex.h>
#include "cligen_config.h"
#include <libxml/xmlregexp.h>
#include "vhalloc.h"
#include "cligen_buf.h"
#include "cligen_cv.h"
#include "cligen_cvec.h"
#include "cligen_parsetree.h"
#include "cligen_pt_head.h"
#include "cligen_callback.h"
#include "cligen_object.h"
#include "cligen_handle.h"
#include "cligen_regex.h"
static char *g_p;               /* the pattern */
static long g_n;                /* its length */
#if !defined(VH_NATIVE) || defined(EXEC)
#define STUBS
static long g_k;
static char g_cbm[4];
#define g_cb ((cbuf*)g_cbm)
static long g_len; static char g_first, g_at; static _Bool g_open, g_fail;
static _Bool g_bad1, g_bad2, g_badf;    /* p, (p and the text built are no patterns */
static _Bool g_oom;
static long g_compiled, g_freed;
static struct { void *re; long len; char first, at; _Bool asis; int flags; } g_last;
static void out(char c){ if (g_len == 0) g_first = c; if (g_len == g_k) g_at = c; g_len++; }
static void outp(void)
{
    if (g_n > 0 && g_len == 0) g_first = g_p[0];
    if (g_len <= g_k && g_k < g_len + g_n) g_at = g_p[g_k - g_len];
    g_len += g_n;
}
static size_t vh_slen(const char *s){ CHECK(s == g_p, "model of strlen: the pattern"); return g_n; }
static cbuf *vh_cbnew(void){ IN(_Bool, nocb); if (nocb) return NULL; CHECK(!g_open, "one buffer"); g_open = 1; g_len = 0; return g_cb; }
static char *vh_cbget(cbuf *cb){ CHECK(cb == g_cb && g_open, "buffer alive"); return g_cbm; }
static void vh_cbfree(cbuf *cb){ CHECK(cb == g_cb && g_open, "buffer alive"); g_open = 0; }
static void vh_cbreset(cbuf *cb){ CHECK(cb == g_cb && g_open, "buffer alive"); g_len = 0; }
static int vh_cbprintf(cbuf *cb, const char *f, const char *a)
{
    CHECK(cb == g_cb && g_open, "buffer alive");
    IN(_Bool, nomem);
    if (nomem) return -1;
    while (*f){
        if (*f == '%' && f[1] == 's'){
            CHECK(a == g_p, "model of cprintf: the pattern");
            outp(); f += 2; continue;
        }
        CHECK(*f != '%', "model of cprintf: conversion");
        out(*f); f++;
    }
    return 0;
}
static int vh_cbstr(cbuf *cb, const char *s)
{
    CHECK(cb == g_cb && g_open, "buffer alive");
    IN(_Bool, nomem);
    if (nomem) return -1;
    if (s == g_p) outp();
    else while (*s){ out(*s); s++; }
    return 0;
}
static int vh_regcomp(regex_t *re, const char *t, int flags)
{
    long len; char first, at; _Bool bad;
    CHECK(t == g_p || (t == g_cbm && g_open), "model of regcomp: a known text");
    if (t == g_p){ len = g_n; first = g_n > 0 ? g_p[0] : 0; at = 0; if (g_k < g_n) at = g_p[g_k]; bad = g_bad1; }
    else {
        len = g_len; first = g_first; at = g_at;
        bad = len == g_n + 1 && first == '(' ? g_bad2 : len == g_n ? g_bad1 : g_badf;
    }
    IN(_Bool, space);
    if (space){ g_oom = 1; return REG_ESPACE; }
    if (bad) return REG_EPAREN;
    g_compiled++;
    g_last.re = re; g_last.len = len; g_last.first = first; g_last.at = at; g_last.flags = flags;
    return 0;
}
static void vh_regfree(regex_t *re){ g_compiled--; }
static size_t vh_regerror(int e, const regex_t *re, char *b, size_t n){ if (n) b[0] = 0; return 1; }
static regex_t *g_re; static xmlRegexp *g_xre; static char *g_s; static int g_status; static int g_execs;
static int vh_regexec(const regex_t *re, const char *s, size_t n, regmatch_t *m, int fl)
{
    CHECK(re == g_re && s == g_s, "this pattern on this value");
    CHECK(fl == 0, "the value is a whole line");
    g_execs++;
    return g_status;
}
#define strlen vh_slen
#define regcomp vh_regcomp
#define regexec vh_regexec
#define regfree vh_regfree
#define regerror vh_regerror
#define cbuf_new vh_cbnew
#define cbuf_get vh_cbget
#define cbuf_free vh_cbfree
#define cbuf_reset vh_cbreset
#define VH_A1(a, ...) a
#define cprintf(cb, f, ...) vh_cbprintf(cb, f, VH_A1(__VA_ARGS__ __VA_OPT__(,) NULL))
#define cbuf_append_str vh_cbstr
#define perror(s) ((void)0)
static xmlRegexp *vh_xcompile(const xmlChar *p);
static int vh_xexec(xmlRegexp *re, const xmlChar *s)
{
    CHECK(re == g_xre && s == (xmlChar*)g_s, "this pattern on this value");
    g_execs++;
    return g_status;
}
static int g_xfrees, g_pfrees;
static char g_xm[2];
static xmlRegexp *vh_xcompile(const xmlChar *p){ CHECK(p == (xmlChar*)g_p, "this pattern"); return g_badf ? NULL : (xmlRegexp*)g_xm; }
static void vh_xfree(xmlRegexp *re){ CHECK(re == (xmlRegexp*)g_xm, "the compiled pattern"); g_xfrees++; }
#define xmlRegexpCompile vh_xcompile
#define xmlRegexpExec vh_xexec
#define xmlRegFreeRegexp vh_xfree
#endif
static int g_xsd;
int cligen_regex_xsd(cligen_handle h){ return g_xsd; }
#include "cligen_regex.c"
#ifdef STUBS
#undef strlen
#endif
#ifndef EXEC
void h_compile(void)
{
    int ret; void *re = NULL;
    vh_live = 0;
#ifdef VH_NATIVE
    /* short patterns of a few characters against the meaning of their parts */
    static const char ab[] = "ab|()^$\\";
    char p[8], w[16], s[4];
    IN(uint8_t, n); n %= 6;
    for (int i = 0; i < n; i++){ IN(uint8_t, c); p[i] = ab[c % 8]; }
    p[n] = 0; g_p = p; g_n = n;
    IN(uint8_t, m); m %= 4;
    for (int i = 0; i < m; i++){ IN(uint8_t, d); s[i] = "ab$)"[d % 4]; }
    s[m] = 0;
    regex_t r0, r1, r2;
    _Bool begin = n > 0 && p[0] == '^', end = n > 0 && p[n-1] == '$' && !(n > 1 && p[n-2] == '\\');
    vh_reliable = 1;
    if (begin && end) strcpy(w, p);
    else {
        ASSUME(regcomp(&r1, p, REG_EXTENDED|REG_NOSUB) == 0);
        regfree(&r1);
        if (end && !begin){ sprintf(w, "(%s", p); ASSUME(regcomp(&r2, w, REG_EXTENDED|REG_NOSUB) != 0); }
        sprintf(w, "^(%s)$", p);
    }
    ret = cligen_regex_posix_compile(p, &re);
    if (regcomp(&r0, w, REG_EXTENDED|REG_NOSUB) != 0){ CHECK(ret != 1, "no pattern of what is none"); return; }
    CHECK(ret == 1, "a pattern compiles");
    CHECK((regexec(re, s, 0, NULL, 0) == 0) == (regexec(&r0, s, 0, NULL, 0) == 0), "the pattern applies to the whole value");
    CHECK(cligen_regex_posix_exec(re, s) == (regexec(&r0, s, 0, NULL, 0) == 0), "match and mismatch reported");
    g_xsd = 0;
    CHECK(match_regexp(NULL, s, p, 0) == (regexec(&r0, s, 0, NULL, 0) == 0), "match reported");
    CHECK(match_regexp(NULL, s, p, 1) == (regexec(&r0, s, 0, NULL, 0) != 0), "inverted match reported");
    regfree(&r0); cligen_regex_free(NULL, re);
#else
    IN(size_t, n); IN(_Bool, b1); IN(_Bool, b2); IN(_Bool, bf); IN(long, k);
    BOUND(n, 4);
    ASSUME(n < INT_MAX);
    ASSUME(k >= 0 && k < (long)INT_MAX + 8);
    g_n = n; g_k = k; g_bad1 = b1; g_bad2 = b2; g_badf = bf; g_oom = 0; g_compiled = 0; g_open = 0; g_last.re = NULL;
    g_p = vh_string(n);
    _Bool begin = n > 0 && g_p[0] == '^', end = n > 0 && g_p[n-1] == '$' && !(n > 1 && g_p[n-2] == '\\');
    ret = cligen_regex_posix_compile(g_p, &re);
    COVER("returns");
    if (ret == 1) COVER("compiled");
    CHECK(ret == 1 || ret == 0 || ret == -1, "documented return values");
    CHECK(!g_open, "buffer freed");
    if (ret == 1){
        /* 0: as it is  1: p)$  2: ^(p  3: ^(p)$ */
        int form = begin && end ? 0 : begin && n > 1 && g_p[1] == '(' && g_bad1 ? 1 :
            end && n > 1 && g_p[n-2] == ')' && !g_bad2 && !begin ? 2 : 3;
        long pre = form >= 2 ? 2 : 0, suf = form & 1 ? 2 : 0;
        CHECK(re != NULL && g_last.re == re, "the compiled pattern is handed out");
        CHECK(g_compiled == 1 && vh_live == 1, "nothing but the compiled pattern is kept");
        CHECK(g_last.len == g_n + pre + suf, "the pattern is anchored at both ends");
        if (k < g_last.len){
            char want = k < pre ? "^("[k] : k < pre + g_n ? g_p[k - pre] : ")$"[k - pre - g_n];
            CHECK(g_last.at == want, "the pattern must match from start to end");
        }
        CHECK((g_last.flags & REG_EXTENDED) && !(g_last.flags & ~(REG_EXTENDED|REG_NOSUB)), "read as an extended regular expression");
    }
    else {
        CHECK(re == NULL, "no pattern handed out");
        CHECK(g_compiled == 0 && vh_live == 0, "nothing is kept");
    }
#endif
}
#else
void h_exec(void)
{
    IN(int, status); int ret;
    IN(_Bool, known); IN(_Bool, yes);
    if (known) status = yes ? 0 : REG_NOMATCH; regex_t re; char s[2] = "a";
    g_re = &re; g_s = s; g_status = status; g_execs = 0;
    ret = cligen_regex_posix_exec(&re, s);
    COVER("returns");
    CHECK(g_execs == 1, "matched once");
    CHECK((ret == 1) == (status == 0), "a match exactly when the engine says so");
    CHECK((ret == 0) == (status == REG_NOMATCH), "a mismatch exactly when the engine says so");
    CHECK(ret == 1 || ret == 0 || ret == -1, "documented return values");
    if (known && yes) status = 1;
    g_status = status;
    g_xre = (xmlRegexp*)g_xm; g_execs = 0;
    ret = cligen_regex_libxml2_exec(g_xm, s);
    CHECK(g_execs == 1, "matched once");
    CHECK((ret == 1) == (status == 1) && (ret == 0) == (status == 0) && (ret < 0) == (status < 0), "what the other engine says");
    IN(_Bool, bf); void *x = NULL;
    g_p = s; g_badf = bf;
    ret = cligen_regex_libxml2_compile(s, &x);
    CHECK(ret == !bf && x == (bf ? NULL : (void*)g_xm), "compiled exactly when it is a pattern");
}
#endif
