/* C17: one input word against one object. Proof reading: words of any length, comparison of the C
 * library by its contract. Other readings: actual words. */
#include "cvh.h"
#include "vhalloc.h"
#include "cligen_handle_internal.h"
static char *KW, *STR; static size_t LK, LS; static int OFF; static _Bool PRE, PRECASE, QPRE, QPRECASE, IGN;
#ifdef VH_PROOF
static size_t s_strlen(const char *s)
{
    CHECK(s == KW || s == KW + 1 || s == STR, "model of strlen: of the words");
    return s == STR ? LS : s == KW ? LK : LK - 1;
}
static int s_cmp(const char *a, const char *b, size_t n, _Bool c0, _Bool c1)
{
    int r; ASSUME(r != 0);
    CHECK((a == KW || a == KW + 1) && b == STR, "model of comparison: of the words");
    CHECK(n == LS, "the whole input word is compared");
    return (a == KW ? c0 : c1) ? 0 : r;
}
#define strlen(s) s_strlen(s)
#define strncmp(a, b, n) s_cmp(a, b, n, PRE, QPRE)
#define strncasecmp(a, b, n) s_cmp(a, b, n, PRECASE, QPRECASE)
#define strdup(s) s_strdup(s)
static char *s_strdup(const char *s)
{
    IN(_Bool, nomem);
    if (nomem) return NULL;
    vh_live++;
    return vh_raw(2);
}
#endif
#include "cligen_match.c"
#undef strlen
#undef strncmp
#undef strncasecmp
static int VAR, vcalls;
int cligen_caseignore_get(cligen_handle h){ return IGN ? 1 : 0; }
int var_contract(cligen_handle h, cg_obj *co, char *str, char **reason)
{
    vcalls++;
    if (VAR == 0 && reason) *reason = strdup("r");
    if (VAR == 0 && reason && *reason == NULL) return -1;
    return VAR;
}
static int lower(int c){ return c >= 'A' && c <= 'Z' ? c + 32 : c; }
void h_keyword(void)
{
    static cg_obj co; int exact, match, i; char *reason = NULL; size_t lk, ls;
    IN(_Bool, best); IN(_Bool, ign); IN(_Bool, none); IN(_Bool, want); IN(_Bool, wantx);
    IGN = ign; vh_live = 0; vh_reliable = 0;
#ifdef VH_PROOF
    ASSUME(lk < VH_HUGE && ls < VH_HUGE);
    KW = vh_raw(lk + 1); STR = vh_raw(ls + 1);
    ASSUME(KW != NULL && STR != NULL);
    KW[lk] = '\0'; STR[ls] = '\0';
    if (lk > 0) ASSUME(KW[0] != '\0');
    LK = lk; LS = ls;
    _Bool a, b, c, d;
    PRE = a; PRECASE = b; QPRE = c; QPRECASE = d;
    if (PRE) ASSUME(ls <= lk && PRECASE);          /* a prefix is not longer; and one regardless of case */
    if (PRECASE) ASSUME(ls <= lk);
    if (QPRE) ASSUME(ls + 1 <= lk && QPRECASE);
    if (QPRECASE) ASSUME(ls + 1 <= lk);
#else
    static char kw[12], str[12];
    IN(uint8_t, nk); IN(uint8_t, ns);
    IN(_Bool, quoted);
    lk = nk % sizeof(kw); ls = ns % sizeof(str);
    for (i = 0; i < lk; i++){ IN(char, c); kw[i] = i == 0 && quoted ? '"' : c & 4 ? 'a' + (c & 1) : 'A' + (c & 1); }
    for (i = 0; i < ls; i++){ IN(char, c); str[i] = c & 4 ? 'a' + (c & 1) : 'A' + (c & 1); }
    kw[lk] = str[ls] = '\0';
    KW = kw; STR = str;
    int off = best && lk > 0 && kw[0] == '"';
    PRE = PRECASE = ls + off <= lk;
    for (i = 0; i < ls && i + off < lk; i++){ if (str[i] != kw[i + off]) PRE = 0; if (lower(str[i]) != lower(kw[i + off])) PRECASE = 0; }
    QPRE = PRE; QPRECASE = PRECASE;
#endif
    co.co_type = CO_COMMAND; co.co_command = KW;
    _Bool q = best && lk > 0 && KW[0] == '"';
    _Bool prefix = ign ? (q ? QPRECASE : PRECASE) : (q ? QPRE : PRE);
    exact = 7;
    match = match_object(NULL, none ? NULL : STR, &co, best, wantx ? &exact : NULL, want ? &reason : NULL);
    COVER("returns");
    if (match == -1){ CHECK(want && !prefix && reason == NULL && !none, "fails only for lack of memory for the reason"); return; }
    CHECK(match == 0 || match == 1, "documented return values");
    if (none) CHECK(match == 1 && (!wantx || exact == 0), "no input word: every keyword, incomplete");
    else {
        CHECK(match == (prefix ? 1 : 0), "matches exactly when the word is a prefix of the keyword");
        if (match && wantx) CHECK(exact == (ls == lk - (q ? 1 : 0) ? 1 : 0), "exact exactly when nothing of the keyword remains");
    }
    if (want) CHECK((reason != NULL) == (match == 0), "a reason exactly when it does not match");
    CHECK(vh_live == (reason != NULL), "nothing else kept");
#ifndef VH_PROOF
    if (reason) free(reason);
#endif
}
/* other kinds of objects */
void h_other(void)
{
    static cg_obj co; char *reason = NULL; int exact, match; char word[2];
    IN(_Bool, best); IN(_Bool, none); IN(_Bool, empty); IN(uint8_t, kind); IN(uint8_t, type); IN(int, v); IN(_Bool, want);
    vh_live = 0; vh_reliable = 0; vcalls = 0;
    word[0] = empty ? '\0' : 'w'; word[1] = '\0';
    KW = STR = word; LS = empty ? 0 : 1;
    ASSUME(-1 <= v && v <= 1);
    VAR = v;
    co.co_type = kind % 3 == 0 ? CO_VARIABLE : kind % 3 == 1 ? CO_REFERENCE : CO_EMPTY;
    co.co_vtype = type % 3 == 0 ? CGV_STRING : type % 3 == 1 ? CGV_INT32 : CGV_UINT8;
    co.co_command = word;
    exact = 7;
    match = match_object(NULL, none ? NULL : word, &co, best, &exact, want ? &reason : NULL);
    COVER("returns");
    CHECK(exact == 0, "only keywords match exactly");
    if (co.co_type != CO_VARIABLE) CHECK(match == 0 || (match == -1 && want), "references and the empty object match nothing");
    else if ((none || empty) && !(best && co.co_vtype != CGV_STRING)) CHECK(match == 1 && vcalls == 0, "no input word: an incomplete variable");
    else CHECK(vcalls == 1 && (match == v || (match == -1 && want)), "a variable matches as its type says");
    if (want && match >= 0) CHECK((reason != NULL) == (match == 0), "a reason exactly when it does not match");
}
