/* C10: tokens of a command line. Lines of any length; P is an arbitrary position in the line and Q one in the token. */
#include "cvh.h"
#include "vhalloc.h"
unsigned long cligen_ghost_k; long cligen_ghost_n, *cligen_ghost_count; char cligen_ghost_ch[2];
long cligen_ghost_v[8]; void *cligen_ghost_node[3]; char *cligen_ghost_text;
#define BLANK(c) ((c) == ' ' || (c) == '\t')
#ifdef VH_PROOF
static long Q, TLEN; static char *TTOK;
/* the sets of delimiters and quotes have one or two members */
static char *t_index(const char *set, int c)
{
    CHECK(set[0] != '\0' && (set[1] == '\0' || set[2] == '\0'), "model of index: a small set");
    return (char)c == set[0] ? (char*)set : (char)c == set[1] ? (char*)set + 1 : set[1] != '\0' && c == '\0' ? (char*)set + 2 : NULL;
}
static void *t_memcpy(void *d, const void *s, size_t n)
{
    CHECK(__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n), "copied inside line and token");
    if (0 <= Q && Q < n) ((char*)d)[Q] = ((const char*)s)[Q];
    return d;
}
static void *t_malloc(size_t n){ TTOK = vh_malloc(n); TLEN = n - 1; return TTOK; }
#define index t_index
#define strchr t_index
#define memcpy t_memcpy
#undef malloc
#define malloc t_malloc
#endif
#include "cligen_cvec.c"
#undef index
#undef strchr
#undef memcpy
#undef malloc
#define malloc vh_malloc
void h_token(void)
{
    char *s, *token, *rest, *base; int leading, r; long n, off, R, E; IN(_Bool, rel);
    vh_live = 0; vh_reliable = rel;
#ifdef VH_PROOF
    long nn, oo, p, q; char c;
    ASSUME(0 <= oo && oo <= nn && nn < (1 << 30) && 0 <= p && p <= nn && 0 <= q); n = nn; off = oo;
    base = vh_raw(n + 1); cligen_ghost_count = vh_raw((n + 2) * sizeof(long));
    ASSUME(base != NULL && cligen_ghost_count != NULL);
    base[n] = '\0'; c = base[p];
    cligen_ghost_n = n; cligen_ghost_k = p; cligen_ghost_ch[0] = c; Q = q;
#else
    IN(uint8_t, nn); IN(uint8_t, oo);
#ifdef VH_NATIVE
    n = nn % 12;
#else
    n = nn % 5;
#endif
    off = oo % (n + 1);
    base = vh_raw(n + 1); ASSUME(base);
    for (long i = 0; i < n; i++){ IN(uint8_t, b); base[i] = b % 8 == 0 ? ' ' : b % 8 == 1 ? '\t' : b % 8 == 2 ? '"' : b % 8 == 3 ? '\\' : 'a' + b % 5; }
    base[n] = '\0';
#endif
    s = base + off; token = rest = NULL; leading = -1;
    r = next_token(&s, &token, &rest, &leading);
    COVER("returns");
    CHECK(r == 0 || (r == -1 && !vh_reliable), "fails only without memory");
    if (r != 0){ CHECK(vh_live == 0, "everything is released"); goto done; }
#ifdef VH_PROOF
    R = GHOST_OFF(rest);
    CHECK(__CPROVER_same_object(rest, base) && off <= R && R <= n, "the rest is part of the line");
    CHECK(leading == R - off, "leading blanks are counted");
    CHECK(!BLANK(base[R]), "the rest starts with the token");
    if (off <= p && p < R) CHECK(BLANK(c), "only blanks are passed over");
    if (base[R] == '\0'){
        CHECK(token == NULL && s == NULL && vh_live == 0, "no token at the end of the line");
        return;
    }
    CHECK(token != NULL && s != NULL && token == TTOK && vh_live == 1, "a token");
    E = GHOST_OFF(s);
    CHECK(__CPROVER_same_object(s, base) && R < E && E <= n, "the line goes on behind the token");
    CHECK(TLEN >= 0 && token[TLEN] == '\0', "the token is a text");
    if (base[R] == '"'){
        if (TLEN == E - R){
            CHECK(base[E] == '\0', "a quote without end is part of the last token");
            if (q < TLEN) CHECK(token[q] == base[R + q], "the token is the text to the end");
            if (R < p && p < E) CHECK(c != '"' && c != '\0', "the quoted part ends with the next quote");
        }
        else {
            COVER("quoted");
            CHECK(TLEN == E - R - 2 && E - 1 > R && base[E-1] == '"', "quoted part is the token, without the quotes");
            if (q < TLEN) CHECK(token[q] == base[R + 1 + q], "the token is the text between the quotes");
            if (R < p && p < E - 1) CHECK(c != '"' && c != '\0', "the quoted part ends with the next quote");
        }
    }
    else {
        COVER("plain");
        CHECK(TLEN == E - R, "the token is all up to the next delimiter");
        if (q < TLEN) CHECK(token[q] == base[R + q], "the token is the text of the line");
        CHECK(base[E] == '\0' || (BLANK(base[E]) && GHOST_ESC(E) == 0), "the token ends at a delimiter");
        if (R <= p && p < E) CHECK(c != '\0' && (!BLANK(c) || GHOST_ESC(p) != 0), "no delimiter in a token");
    }
#else
    { long i = off, j, k, st, len; _Bool esc = 0;
    while (BLANK(base[i])) i++;
    CHECK(rest == base + i && leading == i - off, "the rest starts with the token");
    if (base[i] == '\0'){ CHECK(token == NULL && s == NULL, "no token at the end of the line"); goto done; }
    st = i;
    if (base[i] == '"'){
        for (j = i + 1; base[j] && base[j] != '"'; j++) ;
        if (base[j]){ st = i + 1; len = j - st; j++; } else len = j - st;
    }
    else { for (j = i; base[j] && (esc || !BLANK(base[j])); j++) esc = !esc && base[j] == '\\'; len = j - st; }
    CHECK(s == base + j, "the line goes on behind the token");
    CHECK(token != NULL, "a token");
    for (k = 0; k < len; k++) CHECK(token[k] == base[st + k], "the token is the text of the line");
    CHECK(token[len] == '\0', "the token is a text");
    vh_free(token); CHECK(vh_live == 0, "everything is released"); }
#endif
done:
    vh_rawfree(base);
}
