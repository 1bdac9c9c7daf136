/* C18: completing the line in front of the cursor: the part of the line up to the cursor is completed, the text behind
 * the cursor moves. Lines of any length; LP is an arbitrary position in the line, LQ one in what was added. strlen,
 * strncpy, completion (unit complete) and room in the line buffer by contract. */
#include "cvh.h"
#include "vhalloc.h"
#include "cligen_handle_internal.h"
long cligen_ghost_n; char cligen_ghost_ch[2];
static long LEN, CUR, ADDED, LP, LQ, CAP; static char *LINE, *TMP, OLD, NEW; static _Bool FAILED; static char CVV[8], PT[8];
#ifdef VH_PROOF
static size_t t_strlen(const char *s)
{
    if (__CPROVER_same_object(s, LINE)){ CHECK(s == LINE, "model of strlen: of the line"); return LEN; }
    CHECK(s == TMP, "model of strlen: of the completed part");
    return CUR + ADDED;
}
static char *t_strncpy(char *d, const char *s, size_t n)
{
    if (s == LINE){
        CHECK(__CPROVER_w_ok(d, n), "the copy fits");
        CHECK(n > LEN || n > CUR, "the part in front of the cursor is copied");
        if (LP < n) d[LP] = OLD;
        TMP = d;
    }
    else {
        CHECK(s == TMP + CUR && d == LINE + CUR && n == ADDED, "what was added is inserted at the cursor");
        CHECK(CUR + n < CAP, "what was added fits");
        if (LQ >= 0) LINE[CUR + LQ] = NEW;
    }
    return d;
}
#define strlen t_strlen
#define strncpy t_strncpy
#endif
#include "cligen_read.c"
#undef strlen
#undef strncpy
char *cligen_buf(cligen_handle h){ return LINE; }
int cligen_buf_size(cligen_handle h){ return CAP; }
int cligen_buf_increase(cligen_handle h, size_t len1)
{
    IN(_Bool, nobuf); IN(uint8_t, more); char *p;
#ifdef VH_PROOF
    long cap;
#else
    long cap = CAP;
#endif
    if (nobuf && !vh_reliable){ FAILED = 1; return -1; }
    if (len1 + 1 <= CAP) return 0;
#ifdef VH_PROOF
    ASSUME(cap > 0 && len1 + 1 <= cap && cap <= INT_MAX);
#else
    cap = len1 + 1 + more % 3;
#endif
    p = vh_malloc(cap);
    if (p == NULL){ FAILED = 1; return -1; }
#ifdef VH_PROOF
    p[LP] = OLD; p[LEN] = '\0';
#else
    memcpy(p, LINE, LEN + 1);
#endif
    vh_free(LINE); LINE = p; CAP = cap;
    COVER("buffer moved");
    return 0;
}
int complete_contract(cligen_handle h, parse_tree *pt, char **sp, size_t *np, cvec *cvv)
{
    IN(_Bool, nocmp); IN(_Bool, some); IN(_Bool, room); IN(char, c); IN(_Bool, blank); char *p = *sp; long n;
    CHECK(pt == (parse_tree*)PT && cvv == (cvec*)CVV, "the line is matched with the commands");
    CHECK(LP >= CUR || p[LP] == OLD, "the line up to the cursor is completed");
    CHECK(p[CUR] == '\0', "the line only up to the cursor is completed");
#ifdef VH_PROOF
    CHECK(__CPROVER_r_ok(p, *np) && CUR < *np, "buffer of the size given");
#else
    CHECK(memcmp(p, LINE, CUR) == 0, "the line up to the cursor is completed");
#endif
    if (nocmp && !vh_reliable){ FAILED = 1; return -1; }
    if (!some) return 0;
#ifdef VH_PROOF
    long added, q; char new;
    ASSUME(0 < added && added < (1 << 29) && 0 <= q && q < added && new != '\0'); ADDED = added; LQ = q; NEW = new;
    if (CUR + ADDED >= *np){
        size_t size; char *p2;
        ASSUME(size > CUR + ADDED && size < (1 << 30));
        p2 = vh_malloc(size);
        if (p2 == NULL){ FAILED = 1; ADDED = 0; LQ = -1; return -1; }
        vh_free(p); p = p2; *np = size;
        if (LP < CUR) p[LP] = OLD;
    }
    p[CUR + LQ] = NEW; p[CUR + ADDED] = '\0'; TMP = p; *sp = p;
#else
    IN(uint8_t, a); ADDED = 1 + a % 4; LQ = a % ADDED; NEW = '1' + LQ;
    if (CUR + ADDED >= *np){
        p = vh_realloc(p, CUR + ADDED + 1);
        if (p == NULL){ FAILED = 1; ADDED = 0; LQ = -1; return -1; }
        *np = CUR + ADDED + 1; *sp = p;
    }
    for (int i = 0; i < ADDED; i++) p[CUR + i] = '1' + i;
    p[CUR + ADDED] = '\0';
#endif
    if (blank) *np = 0;
    COVER("completed");
    return 1;
}
#ifdef VH_NATIVE
int match_complete(cligen_handle h, parse_tree *pt, char **sp, size_t *np, cvec *cvv){ return complete_contract(h, pt, sp, np, cvv); }
#endif
static struct cligen_handle H;
void h_shift(void)
{
    IN(_Bool, rel); IN(uint8_t, nl); IN(uint8_t, nc); IN(uint8_t, slack); int cursor, r, i;
    vh_reliable = 1; vh_live = 0; FAILED = 0; ADDED = 0; LQ = -1;
#ifdef VH_PROOF
    long len, cur, cap, p; char old;
    ASSUME(0 <= cur && cur <= len && len < cap && cap < (1 << 29) && 0 <= p && p <= len && (p == len ? old == '\0' : old != '\0'));
    LEN = len; CUR = cur; CAP = cap; LP = p; OLD = old;
    LINE = vh_malloc(cap); ASSUME(LINE != NULL);
    LINE[len] = '\0'; LINE[p] = old;
#else
    LEN = nl % 5; CUR = nc % (LEN + 1); CAP = LEN + 1 + slack % 3;
    LINE = vh_malloc(CAP); memset(LINE, 'x', CAP);
    for (i = 0; i < LEN; i++) LINE[i] = 'a' + i;
    LINE[LEN] = '\0';
    LP = slack % (LEN + 1); OLD = LINE[LP];
#endif
    cligen_ghost_n = LP; cligen_ghost_ch[0] = OLD;
    vh_reliable = rel;
    cursor = CUR;
    r = cli_complete(&H, &cursor, (parse_tree*)PT, (cvec*)CVV);
    COVER("returns");
    CHECK(r == 0 || r == -1, "documented return values");
    CHECK(vh_live == 1, "everything is released");
    if (vh_reliable) CHECK(r == 0, "fails exactly when something failed");
    if (FAILED) CHECK(r == -1, "fails exactly when something failed");
    if (r < 0){
        CHECK(cursor == CUR && LINE[LP] == OLD, "unchanged on failure");
        vh_free(LINE); return;
    }
    COVER("success");
    CHECK(cursor == CUR + ADDED, "the cursor is behind what was added");
    CHECK(LINE[LP < CUR ? LP : LP + ADDED] == OLD, "what was typed is not changed");
    if (LQ >= 0) CHECK(LINE[CUR + LQ] == NEW, "what was added is inserted at the cursor");
    vh_free(LINE);
}
