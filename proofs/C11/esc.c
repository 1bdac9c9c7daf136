/* C11: escaping. Proof reading: values of any length; the number of characters to escape among the first
 * i is a ghost function whose definition is the lemma used. Other readings: a plain description. */
#include "vh.h"
#ifndef VH_NATIVE
#include <ctype.h>
#undef isspace
#define isspace(c) ((c) == ' ' || ((c) >= 9 && (c) <= 13))
static char *vh_strpbrk(const char *s, const char *set);
#undef strpbrk
#define strpbrk vh_strpbrk
#endif
#ifdef VH_PROOF
static size_t vh_strlen(const char *s);
#define strlen vh_strlen
#endif
#include "vhalloc.h"
#include "cligen_expand.c"
#undef strlen
long *cligen_ghost_count;
static struct { long at; } S; static char *T; static long N;
static int in_set(char c){ return c == '?' || c == '\\' || c == ' ' || c == '\t'; }
#ifdef VH_PROOF
static size_t vh_strlen(const char *s){ CHECK(s == T, "model of strlen: of the value"); return N; }
static char *vh_strpbrk(const char *s, const char *set)
{
    long r; long at = S.at;
    CHECK(s == T + at && set[0] == '?' && set[1] == '\\' && set[2] == ' ' && set[3] == '\t' && set[4] == 0, "model of strpbrk: the characters that need escaping, in the rest of the value");
    if (!cligen_ghost_holds || at > (long)cligen_ghost_k){ _Bool none; r = none || !cligen_ghost_holds ? -1 : r; }
    ASSUME(r == -1 || (at <= r && r < N && in_set(T[r]) && !(cligen_ghost_holds && at <= (long)cligen_ghost_k && (long)cligen_ghost_k < r)));
    ASSUME(!(r == -1 && cligen_ghost_holds && at <= (long)cligen_ghost_k));
    if (r == -1){ ASSUME(GHOST_ESC(N) == GHOST_ESC(at)); S.at = N; return NULL; }
    ASSUME(GHOST_ESC(r) == GHOST_ESC(at));              /* none of them in between */
    ASSUME(GHOST_ESC(r + 1) == GHOST_ESC(r) + GHOST_SPECIAL(T[r]));
    S.at = r + 1;
    return T + r;
}
static void value(void)
{
    long n, k; _Bool any;
    ASSUME(0 <= n && n < (1 << 29) && 0 <= k && k < n + 1);
    T = vh_raw(n + 1); ASSUME(T != NULL); T[n] = '\0';
    if (any) ASSUME(k < n && in_set(T[k]));     /* some character of the set is at k, or there is none */
    N = n; cligen_ghost_n = n; cligen_ghost_k = k; cligen_ghost_holds = any ? 1 : 0; S.at = 0; cligen_ghost_state = &S;
    vh_live = 0; vh_reliable = 0;
    cligen_ghost_count = vh_raw((n + 2) * sizeof(long)); ASSUME(cligen_ghost_count != NULL);
    ASSUME(GHOST_ESC(0) == 0);
}
int nr_contract(const char *s)
{
    CHECK(s == T, "model of counting: of the value");
    ASSUME(GHOST_ESC(N) >= 0 && GHOST_ESC(N) <= N);
    if (!cligen_ghost_holds){ ASSUME(GHOST_ESC(N) == 0); return 0; }
    return 2 + (int)GHOST_ESC(N);
}
void h_nr(void)
{
    int r;
    value();
    r = cligen_escape_nr(T);
    COVER("returns");
    CHECK(cligen_ghost_holds ? r == 2 + GHOST_ESC(N) : r == 0 && GHOST_ESC(N) == 0, "number of characters added");
}
void h_need(void)
{
    int r; _Bool quoted;
    value();
    quoted = N > 1 && T[0] == '"' && T[N-1] == '"';
    r = cligen_escape_need(T);
    COVER("returns");
    CHECK(r == (cligen_ghost_holds && !quoted ? 1 : 0), "needed exactly for special characters outside quotes");
    CHECK(cligen_escape_need(NULL) == -1, "no value is an error");
}
void h_do(void)
{
    char *o; long k, p; char ck; _Bool last;
    value();
    k = cligen_ghost_k;
    if (!cligen_ghost_holds){ long q; ASSUME(0 <= q && q <= N); k = q; cligen_ghost_k = q; if (k < N) ASSUME(!in_set(T[k])); }
    else { long q; ASSUME(0 <= q && q <= N); k = q; cligen_ghost_k = q; }
    ck = T[k];
    o = cligen_escape_do(T);
    COVER("returns");
    CHECK(T[k] == ck && T[N] == '\0', "the value itself is unchanged");
    if (o == NULL){ CHECK(vh_live == 0, "nothing kept on failure"); return; }
    COVER("escaped");
    CHECK(vh_live == 1, "new memory");
    CHECK(o[0] == '"', "starts with a quote");
    if (k < N){
        p = 1 + k + GHOST_ESC(k);
        if (GHOST_SPECIAL(ck)) CHECK(o[p++] == '\\', "backslash before each special character");
        CHECK(o[p] == ck, "nothing else is changed");
    }
    p = 1 + N + GHOST_ESC(N);
    CHECK(o[p] == '"' && o[p + 1] == '\0', "ends with a quote");
}
#else
#ifndef VH_NATIVE
static char *vh_strpbrk(const char *s, const char *set)
{
    for (; *s; s++)
        for (const char *t = set; *t; t++) if (*s == *t) return (char*)s;
    return NULL;
}
#endif
#ifdef VH_NATIVE
#define MAXN 40
#else
#define MAXN 4
#endif
static void escape(void)
{
    char *all, *s, *o; int i, j, n, special = 0, need, quoted; char copy[MAXN + 1];
    IN(uint8_t, nn);
    n = nn % (MAXN + 1);
    all = vh_raw(MAXN + 1);
    ASSUME(all != NULL);
    s = all + MAXN - n;             /* nothing after the value */
    for (i = 0; i < n; i++){
        IN(char, c);
#ifdef VH_NATIVE
        if (c >= 0) c = "?\\ \t\"ab\n"[c & 7];
#endif
        ASSUME(c != '\0');
        s[i] = copy[i] = c;
        if (in_set(c)) special = 1;
    }
    s[n] = copy[n] = '\0';
    vh_live = 0; vh_reliable = 0;
    quoted = n > 1 && s[0] == '"' && s[n-1] == '"';
    need = cligen_escape_need(s);
    CHECK(need == (special && !quoted), "needed exactly for special characters outside quotes");
    o = cligen_escape_do(s);
    if (o != NULL){
        j = 0;
        CHECK(o[j++] == '"', "starts with a quote");
        for (i = 0; i < n; i++){
            if (copy[i] == '?' || copy[i] == '\\') CHECK(o[j++] == '\\', "backslash before each special character");
            CHECK(o[j++] == copy[i], "nothing else is changed");
        }
        CHECK(o[j] == '"' && o[j+1] == '\0', "ends with a quote");
        CHECK(vh_live == 1, "new memory");
    }
    else CHECK(vh_live == 0, "nothing kept on failure");
    for (i = 0; i <= n; i++) CHECK(s[i] == copy[i], "the value itself is unchanged");
    CHECK(cligen_escape_need(NULL) == -1 && cligen_escape_do(NULL) == NULL, "no value is an error");
    free(o);
    vh_rawfree(all);
}
void h_nr(void){ escape(); }
void h_need(void){ escape(); }
void h_do(void){ escape(); }
#endif
