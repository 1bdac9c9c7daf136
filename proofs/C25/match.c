/* C25: match_regexp and the choice of engine; the engines' functions by contract (shown in regex.c) */
#include "vh.h"
#include "vhalloc.h"
#include <sys/types.h>
#include <regex.h>
#include "cligen_config.h"
#include <libxml/xmlregexp.h>
#include "cligen_buf.h"
#include "cligen_cv.h"
#include "cligen_cvec.h"
#include "cligen_parsetree.h"
#include "cligen_pt_head.h"
#include "cligen_callback.h"
#include "cligen_object.h"
#include "cligen_handle.h"
#include "cligen_regex.h"
static int g_xsd, g_comp, g_res, g_frees, g_execs;
static char *g_s, *g_p; static void *g_re; static int g_eng;
int cligen_regex_xsd(cligen_handle h){ return g_xsd; }
#ifdef VH_PROOF
static int compile(int eng, char *p, void **re)
{
    CHECK(p == g_p, "this pattern");
    CHECK(eng == !!g_xsd, "compiled by the engine asked for");
    if (g_comp == 1){ *re = g_re = malloc(eng ? 2 : sizeof(regex_t)); if (g_re == NULL) return -1; }
    return g_comp;
}
static int exec(int eng, void *re, char *s)
{
    CHECK(re != NULL && re == g_re && s == g_s, "this pattern on this value");
    CHECK(eng == !!g_xsd, "matched by the engine asked for");
    g_execs++;
    return g_res;
}
int m_pcompile(char *p, void **re){ return compile(0, p, re); }
int m_xcompile(char *p, void **re){ return compile(1, p, re); }
int m_pexec(void *re, char *s){ return exec(0, re, s); }
int m_xexec(void *re, char *s){ return exec(1, re, s); }
int m_pfree(void *re){ CHECK(re == NULL || (re == g_re && !g_xsd), "freed by its own engine"); if (re) g_frees++; return 0; }
int m_xfree(void *re){ CHECK(re == NULL || (re == g_re && g_xsd), "freed by its own engine"); if (re){ g_frees++; free(re); } return 0; }
#else
/* the engines themselves answer as told */
static regex_t *l_re; static char g_xm[2];
static int vh_regcomp(regex_t *re, const char *t, int f){ if (g_comp == 1){ g_re = l_re = re; return 0; } return REG_EPAREN; }
static int vh_regexec(const regex_t *re, const char *s, size_t n, regmatch_t *m, int fl)
{
    CHECK(re == g_re && s == g_s, "this pattern on this value"); CHECK(!g_xsd, "matched by the engine asked for");
    g_execs++;
    return g_res == 1 ? 0 : g_res == 0 ? REG_NOMATCH : REG_ESPACE;
}
static void vh_regfree(regex_t *re){ CHECK(re == g_re, "the compiled pattern"); g_frees++; g_re = NULL; }
static xmlRegexp *vh_xcompile(const xmlChar *p){ CHECK(g_xsd, "compiled by the engine asked for"); if (g_comp == 1){ g_re = g_xm; return (xmlRegexp*)g_xm; } return NULL; }
static int vh_xexec(xmlRegexp *re, const xmlChar *s){ CHECK((char*)re == g_xm && s == (xmlChar*)g_s, "this pattern on this value"); g_execs++; return g_res; }
static void vh_xfree(xmlRegexp *re){ CHECK((char*)re == g_xm, "freed by its own engine"); g_frees++; g_re = NULL; }
#define xmlRegexpCompile vh_xcompile
#define xmlRegexpExec vh_xexec
#define xmlRegFreeRegexp vh_xfree
#define regcomp vh_regcomp
#define regexec vh_regexec
#define regfree vh_regfree
#define regerror(e, re, b, n) ((b)[0] = 0, 1)
#include "cligen_buf.c"
#endif
#include "cligen_regex.c"
#ifdef VH_PROOF
#define GOT (g_re != NULL)
#else
#define GOT 1
#endif
void h_match(void)
{
    IN(int, comp); IN(int, res); IN(int, inv); IN(_Bool, xsd); IN(uint8_t, null); int ret; char s[2], p[2];
    comp = comp < 0 ? -1 : comp & 1; res = res < 0 ? -1 : res & 1;
    g_xsd = xsd ? 1 : 0; g_comp = comp; g_res = res; g_frees = g_execs = 0; vh_live = 0; g_re = NULL;
    g_s = s; g_p = p; null &= 3;
#ifndef VH_PROOF
    vh_reliable = 1; p[0] = 'a'; p[1] = 0; s[0] = 'a'; s[1] = 0;
    if (comp < 0) comp = g_comp = 0;
#endif
    ret = match_regexp(NULL, null & 1 ? NULL : s, null & 2 ? NULL : p, inv);
    COVER("returns");
    if (ret == 1) COVER("match");
    CHECK(ret == 1 || ret == 0 || ret == -1, "documented return values");
    CHECK(!null || ret == -1, "nothing to match is an error");
    CHECK((ret == 1) == (!null && comp == 1 && GOT && (inv ? res == 0 : res == 1)), "a match exactly when the pattern matches, or does not when inverted");
    CHECK(ret != 0 || comp == 0 || (GOT && (inv ? res == 1 : res == 0)), "a mismatch only of a pattern that is none or does not match");
    CHECK(g_execs <= 1, "matched once");
#ifdef VH_PROOF
    CHECK(vh_live == 0 && g_frees == (g_re != NULL), "the compiled pattern is freed");
#else
    CHECK(vh_live == 0 && g_frees == g_execs, "the compiled pattern is freed");
#endif
}
