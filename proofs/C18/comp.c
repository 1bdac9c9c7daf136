/* C18: completion of a line. Proof reading: any number of matches, words of any length: the first one that counts is
 * E1 (number FIRST), number K is EK, any other EO with arbitrary contents each time. P is an arbitrary position in
 * the words. Texts and buffer by the contracts of strlen, strcmp, strncat, realloc. */
#include "cvh.h"
#include "vhalloc.h"
#include "cligen_handle_internal.h"
#ifdef VH_PROOF
#define ANY(T, x) T x
#else
#define ANY(T, x) IN(T, x)
#endif
long cligen_ghost_c[10]; void *cligen_ghost_node[3];
/* cligen_ghost_v: matches visited; size of the buffer; length of the line; a match is not the same as the first;
 * length of EO's word; realloc failed */
long cligen_ghost_v[8], cligen_ghost_m; char cligen_ghost_ch[2];
#define AT cligen_ghost_v[0]
#define SIZE cligen_ghost_v[1]
#define LEN cligen_ghost_v[2]
#define DIFFER cligen_ghost_v[3]
#define LO cligen_ghost_v[4]
#define NOROOM cligen_ghost_v[5]
static char PT[8], CVV[8], MRS[8], CVT[8], CVR[8]; static long N, LT; static int MODE, MRSN, CVS; static _Bool ICASE, FAILED, REFUSED; static char *BUF; static char DELIM;
static int lower(int c){ return c >= 'A' && c <= 'Z' ? c + 32 : c; }
#define SAMECHAR(a, b) ((a) == (b) || (ICASE && lower(a) == lower(b)))
#ifdef VH_PROOF
static cg_obj E1, EK, EO; static char *W1, *WK, *WO, TOK[2]; static long L1, LK, K, P, FIRST; static _Bool KSAME, HYP; static long APPENDED;
static size_t c_strlen(const char *s)
{
    if (s == TOK) return LT;
    if (s == W1) return L1;
    if (s == WK) return LK;
    if (s == WO) return LO;
    CHECK(__CPROVER_same_object(s, BUF) && s - BUF <= LEN, "model of strlen: of the line");
    return LEN - (s - BUF);
}
static int c_cmp(const char *a, const char *b, _Bool nocase)
{
    _Bool same; int d;
    ASSUME(d != 0);
    CHECK(a == W1, "model of comparison: with the first command");
    CHECK(!nocase == !ICASE, "compared with case as configured");
    if (b == W1) return 0;
    if (b == WK) same = KSAME;
    else ASSUME(!same || LO == L1);
    if (!same) DIFFER = 1;
    return same ? 0 : d;
}
static char *c_strncat(char *d, const char *s, size_t n)
{
    CHECK(d == BUF && APPENDED == 0, "appended to the line, once");
    CHECK(n <= L1, "at most the rest of the command is appended");
    CHECK(s == W1 + LT && LT + n <= L1, "the continuation is appended");
    APPENDED = n; LEN += n;
    BUF[LEN] = '\0';
    return d;
}
static void *c_realloc(void *p, size_t n)
{
    _Bool nomem;
    CHECK(p == BUF, "model of realloc: the line");
    CHECK(n >= SIZE, "the buffer never becomes smaller");
    if (nomem && !vh_reliable){ NOROOM = 1; return NULL; }
    ASSUME(n <= __CPROVER_OBJECT_SIZE(BUF));
    SIZE = n;
    return p;
}
#define strlen(s) c_strlen(s)
#define strcmp(a, b) c_cmp(a, b, 0)
#define strcasecmp(a, b) c_cmp(a, b, 1)
#define strncat(d, s, n) c_strncat(d, s, n)
#undef realloc
#define realloc(p, n) c_realloc(p, n)
#undef isblank
static int c_isblank(int c){ return c == ' ' || c == '\t'; }
#define isblank(c) c_isblank(c)
#undef tolower
#define tolower(c) lower(c)
#else
#ifdef VH_NATIVE
#define MAXN 5
#define MAXW 7
#else
#define MAXN 2
#define MAXW 3
#endif
static cg_obj E[MAXN]; static char W[MAXN][MAXW+1]; static char TOK[MAXW+1];
#endif
#include "cligen_match.c"
#undef strlen
#undef strcmp
#undef strcasecmp
#undef strncat
#undef isblank
#undef tolower
int cligen_caseignore_get(cligen_handle h){ return ICASE ? 1 : 0; }
int cligen_tabmode(cligen_handle h){ return MODE; }
char cligen_delimiter(cligen_handle h){ return DELIM; }
int cligen_str2cvv(char *s, cvec **t, cvec **r){ IN(_Bool, nocv); CHECK(s == BUF, "the line is completed"); if (nocv && !vh_reliable){ FAILED = 1; return -1; } CVS = 2; *t = (cvec*)CVT; *r = (cvec*)CVR; return 0; }
int cvec_free(cvec *c){ CVS--; return 0; }
int mr_free(match_result *mr){ CHECK(mr == (match_result*)MRS, "the result is released"); MRSN--; return 0; }
int mr_pt_len_get(match_result *mr){ return N; }
char *mr_token_get(match_result *mr){ return TOK; }
int pattern_contract(cligen_handle h, cvec *cvt, cvec *cvr, parse_tree *pt, int best, cvec *cvv, match_result **mrp)
{
    IN(_Bool, nopat);
    CHECK(!best && pt == (parse_tree*)PT && cvt == (cvec*)CVT && cvr == (cvec*)CVR, "all options are matched");
    if (nopat && !vh_reliable){ FAILED = 1; return -1; }
    MRSN++; *mrp = (match_result*)MRS;
    return 0;
}
cg_obj *mr_pt_i_get(match_result *mr, int i)
{
#ifdef VH_PROOF
    int t; long lo;
    CHECK(i == AT && i < N, "model of list: matches in order"); AT++;
    if (i == FIRST) return &E1;
    if (i == K) return &EK;
    EO.co_type = t; EO.co_command = WO;
    ASSUME(0 <= lo && lo < __CPROVER_OBJECT_SIZE(WO));
    if (i < FIRST) ASSUME(t != CO_COMMAND);
    else if (HYP) ASSUME(lo > P);
    LO = lo;
    return &EO;
#else
    return i >= 0 && i < N ? &E[i] : NULL;
#endif
}
void h_complete(void)
{
    int r; char *s; size_t slen; long len0; _Bool blank, counts;
    IN(int, mode); IN(_Bool, ic); IN(_Bool, rel); IN(char, delim);
    MODE = mode & 7; ICASE = ic ? 1 : 0; vh_reliable = rel; DELIM = delim; ASSUME(delim != '\0');
    vh_live = 0; MRSN = CVS = 0; FAILED = 0;
#ifdef VH_PROOF
    long n, k, p, l1, lk, lt, first, cap, size, q, lo; int t1, tk; _Bool ks, hyp;
    ASSUME(0 <= n && n < INT_MAX && 0 <= k && 0 <= p && p < (1 << 30) && 0 <= first && 0 <= l1 && 0 <= lk && 0 <= lt && l1 < (1 << 30) && lk < (1 << 30) && lt < (1 << 30) && k != first);
    N = n; K = k; P = p; L1 = l1; LK = lk; LT = lt; FIRST = first; KSAME = ks ? 1 : 0; HYP = hyp ? 1 : 0; APPENDED = 0;
    ASSUME(0 < lo && lo < (1 << 30)); W1 = vh_raw(l1 + 1); WK = vh_raw(lk + 1); WO = vh_raw(lo);
    ASSUME(0 < cap && cap < (long)1 << 40 && 0 < size && size <= cap && lt <= len0 && 0 <= len0 && len0 < size && len0 < (1 << 30));
    BUF = vh_raw(cap);
    ASSUME(W1 && WK && WO && BUF);
    W1[l1] = '\0'; WK[lk] = '\0'; BUF[len0] = '\0'; if (len0 > 0) ASSUME(BUF[0] != '\0');
    E1.co_type = t1; E1.co_command = W1; EK.co_type = tk; EK.co_command = WK;
    counts = (MODE & CLIGEN_TABMODE_VARS) || tk == CO_COMMAND;
    if (MODE & CLIGEN_TABMODE_VARS) ASSUME(first == 0); else ASSUME(t1 == CO_COMMAND && (k >= first || tk != CO_COMMAND));
    counts = k < n && k > first && counts;
    /* a word that is the same as another one has its length and letters */
    if (KSAME) ASSUME(lk == l1 && (p >= l1 || SAMECHAR(W1[p], WK[p])));
    if (HYP) ASSUME(l1 > p && lk > p);
    cligen_ghost_m = cap; AT = 0; SIZE = size; LEN = len0; DIFFER = 0; LO = 0; NOROOM = 0;
    cligen_ghost_c[0] = n; cligen_ghost_c[1] = k; cligen_ghost_c[2] = p; cligen_ghost_c[3] = l1; cligen_ghost_c[4] = lk; cligen_ghost_c[5] = HYP;
    cligen_ghost_c[6] = ICASE; cligen_ghost_c[7] = first; cligen_ghost_c[8] = lt; cligen_ghost_c[9] = counts;
    cligen_ghost_k = KSAME; cligen_ghost_text = BUF; cligen_ghost_node[1] = &E1; cligen_ghost_node[2] = W1; cligen_ghost_state = &EO; cligen_ghost_j = p < l1 && p < lk && SAMECHAR(W1[p], WK[p]);
    ASSUME(0 <= q && q < len0);
    char was = BUF[q];
    s = BUF; slen = size;
    vh_live = 0;
    r = match_complete(NULL, (parse_tree*)PT, &s, &slen, (cvec*)CVV);
    COVER("returns");
    CHECK(r == 0 || r == 1 || r == -1, "documented return values");
    CHECK((r == -1) == (FAILED || NOROOM), "fails exactly when something failed");
    CHECK(MRSN == 0 && CVS == 0, "everything is released");
    CHECK(s == BUF, "the caller still has the buffer");
    CHECK(BUF[q] == was, "what was typed is not changed");
    blank = BUF[LEN] != '\0';
    CHECK(LEN + (blank ? 1 : 0) < SIZE, "the result fits the buffer");
    if (blank) CHECK(BUF[LEN] == DELIM && BUF[LEN+1] == '\0', "only a delimiter after the continuation");
    if (!blank) CHECK(slen == SIZE, "the size of the buffer is reported");
    if (r < 0){ CHECK(APPENDED == 0 && !blank, "unchanged on failure"); return; }
    COVER("success");
    if (first >= n) CHECK(APPENDED == 0 && !blank, "nothing is appended when no command matches");
    CHECK(r == (APPENDED > 0 ? 1 : 0), "tells whether the line was completed");
    if (counts && lt <= p && p < lt + APPENDED) CHECK(p < lk && SAMECHAR(W1[p], WK[p]), "all matching commands continue like this");
    if (APPENDED) CHECK(lt + APPENDED <= l1, "the continuation of a command");
    if (HYP && first < n && p >= lt) CHECK(lt + APPENDED > p, "as long as all matching commands continue alike");
    if (blank && counts) CHECK(KSAME, "a blank only when the match is unique");
    if (blank) CHECK(lt + APPENDED == l1, "a blank only when the match is complete");
    if (first < n && !blank && (lt == 0 || (HYP && p == lt - 1))) CHECK(DIFFER, "a blank when the match is unique");
#else
    int i, j, nc = 0, want = 0, first = -1; char *was; _Bool same = 1, exp;
    IN(uint8_t, nn); IN(uint8_t, lead); IN(uint8_t, tl); IN(uint8_t, slack);
    N = nn % (MAXN + 1); LT = tl % 3; TOK[0] = 'a'; TOK[1] = 'a'; TOK[LT] = '\0';
    for (i = 0; i < N; i++){
        IN(uint8_t, b); IN(uint8_t, wl); int l = LT + wl % (MAXW - 1);
        E[i].co_type = (b & 6) == 6 ? CO_VARIABLE : CO_COMMAND; E[i].co_command = W[i];
        if (E[i].co_type == CO_VARIABLE) l = wl % (MAXW + 1);
        if (l > MAXW) l = MAXW;
        for (j = 0; j < l; j++){ IN(char, c); W[i][j] = j < LT ? (ic && (c & 1) ? 'A' : 'a') : (c & 7) == 7 ? 'b' : (c & 0x18) == 0x18 ? 'A' : 'a'; }
        W[i][l] = '\0';
        if (E[i].co_type == CO_COMMAND || (MODE & CLIGEN_TABMODE_VARS)){
            if (first < 0){ first = i; want = l; }
            else {
                for (j = 0; j < want && j < l; j++) if (!SAMECHAR(W[first][j], W[i][j])) break;
                if (j < l || W[first][j] != '\0') same = 0;
                if (j < want) want = j;
            }
        }
    }
    len0 = lead % 4 + LT; SIZE = len0 + 1 + slack % 4; 
    s = vh_malloc(SIZE); if (s == NULL) return;
    was = vh_raw(len0 + 1); ASSUME(was);
    memset(s, ' ', len0); memcpy(s + len0 - LT, TOK, LT); s[len0] = '\0'; memcpy(was, s, len0 + 1); BUF = s;
    slen = SIZE;
    r = match_complete(NULL, (parse_tree*)PT, &s, &slen, (cvec*)CVV);
    CHECK(r == 0 || r == 1 || r == -1, "documented return values");
    CHECK(MRSN == 0 && CVS == 0, "everything is released");
    if (rel && !FAILED) CHECK(r >= 0, "fails exactly when something failed");
    CHECK(memcmp(s, was, len0) == 0, "what was typed is not changed");
    if (r >= 0){
        exp = first >= 0 && want >= LT; i = exp ? want - LT : 0;
        CHECK(strncmp(s + len0, exp ? W[first] + LT : "", i) == 0, "all matching commands continue like this");
        if (exp && same) CHECK(s[len0 + i] == DELIM && s[len0 + i + 1] == '\0', "a blank when the match is unique");
        else CHECK(s[len0 + i] == '\0', "a blank only when the match is unique");
        CHECK(r == (i ? 1 : 0), "tells whether the line was completed");
    }
    else CHECK(s[len0] == '\0', "unchanged on failure");
    CHECK(vh_live == 1, "everything is released");
    vh_free(s); vh_rawfree(was);
#endif
}
