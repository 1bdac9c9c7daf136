/* C19: outcome of matching. The match result and lists of objects by their contracts (unit ops, C14). Proof
 * reading: any number of matches: number 0 is E0, number K is EK, any other is EO with arbitrary contents each
 * time; likewise children of the only match: number K2 is CK, any other CO. */
#include "cvh.h"
#include "vhalloc.h"
#include "cligen_handle_internal.h"
/* at, at2: visited; differ: a match differs from the first one; empty: an empty child was seen */
static struct st { long at; int differ, empty; long at2; cg_obj eo, co; } S;
static char MRS[8], PT[8], PTN[8], PTC[8], CVT[8], CVR[8], CV1[8], CVV[8], PH[8];
long cligen_ghost_len[2]; static long N, K, K2;
#define CURN cligen_ghost_len[0]
#define NC cligen_ghost_len[1]
 static _Bool ICASE, K0SAME, RESTS, FAILED, TRUNCED, CHILDREN, BEST, EXPANDED; static int LEVELS, LEVEL_;
static int PTNS, CVVS, MRSN, CLEARED; static char *REASON;
#ifdef VH_NATIVE
#define MAXN 6
#else
#define MAXN 3
#endif
#ifdef VH_PROOF
static cg_obj E0, EK, CK; static char W0[2], WK[2], WO[2];
/* comparison of the words of two matches */
static int w_cmp(const char *a, const char *b, _Bool nocase)
{
    _Bool same; int d;
    ASSUME(d != 0);
    CHECK(a == W0, "model of comparison: with the first match");
    CHECK(!!nocase == !!ICASE, "compared with case as configured");
    if (b == W0) return 0;
    if (b == WK) same = K0SAME;
    if (!same) S.differ = 1;
    return same ? 0 : d;
}
#define strcmp(a, b) w_cmp(a, b, 0)
#define strcasecmp(a, b) w_cmp(a, b, 1)
#else
static cg_obj E[MAXN], CH[MAXN]; static _Bool CNULL[MAXN]; static char W[MAXN][2];
#endif
static char *k_strdup(const char *s)
{
    char *r = vh_strdup("r");
    if (r == NULL) FAILED = 1;
    return r;
}
#undef strdup
#define strdup(s) k_strdup(s)
#define perror(s) (void)0
#include "cligen_match.c"
#undef strcmp
#undef strcasecmp
int cligen_caseignore_get(cligen_handle h){ return ICASE ? 1 : 0; }
int mr_pt_len_get(match_result *mr){ return CURN; }
cg_obj *mr_pt_i_get(match_result *mr, int i)
{
    if (i < 0 || i >= CURN) return NULL;
#ifdef VH_PROOF
    if (i == 0){ if (E0.co_type != CO_COMMAND) S.differ = 1; S.at = 1; return &E0; }
    CHECK(i == S.at, "model of list: matches in order"); S.at++;
    if (i == K){ if (EK.co_type != CO_COMMAND) S.differ = 1; return &EK; }
    int t; S.eo.co_type = t; S.eo.co_command = WO;
    if (t != CO_COMMAND) S.differ = 1;
    return &S.eo;
#else
    return &E[i];
#endif
}
int mr_pt_reset(match_result *mr){ CURN = 0; return 0; }
int mr_pt_trunc(match_result *mr, int len)
{
    CHECK(len == 1, "collapsed to one match");
#ifdef VH_PROOF
    CHECK(K == 0 || K >= N || (EK.co_type == CO_COMMAND && K0SAME), "only equal keywords are collapsed");
    CHECK(E0.co_type == CO_COMMAND, "only keywords are collapsed");
#endif
    TRUNCED = 1; CURN = 1;
    return 0;
}
char *mr_reason_get(match_result *mr){ return REASON; }
int mr_reason_set(match_result *mr, char *r){ if (REASON) vh_free(REASON); REASON = r; return 0; }
int mr_level_get(match_result *mr){ return LEVEL_; }
int mr_free(match_result *mr){ CHECK(mr == (match_result*)MRS, "the result is released"); if (REASON) vh_free(REASON); REASON = NULL; MRSN--; return 0; }
int cvec_len(cvec *c){ CHECK(c == (cvec*)CVT, "model of tokens"); return LEVELS + 2; }
cvec *cvec_new(int n){ IN(_Bool, nocv); if (nocv && !vh_reliable){ FAILED = 1; return NULL; } CVVS++; return (cvec*)CV1; }
int cvec_free(cvec *c){ CHECK(c == (cvec*)CV1, "own vector is released"); CVVS--; return 0; }
struct pt_head *cligen_pt_head_active_get(cligen_handle h){ IN(_Bool, nohead); if (nohead && !vh_reliable){ FAILED = 1; return NULL; } return (struct pt_head*)PH; }
char *cligen_ph_pipe_get(struct pt_head *ph){ return NULL; }
void co_flags_reset(cg_obj *co, uint32_t f){ co->co_flags &= ~f; }
int pt_apply(parse_tree *pt, cg_applyfn_t fn, int depth, void *arg)
{
    static cg_obj x; 
    x.co_flags = ~0u;
    if (fn(&x, arg) == 0 && pt == (parse_tree*)PT && x.co_flags == ~(uint32_t)CO_FLAGS_MATCH) CLEARED++;
    return 0;
}
parse_tree *co_pt_get(cg_obj *co){ return CHILDREN ? (parse_tree*)PTC : NULL; }
parse_tree *pt_new(void){ IN(_Bool, nopt); if (nopt && !vh_reliable){ FAILED = 1; return NULL; } PTNS++; return (parse_tree*)PTN; }
int pt_free(parse_tree *pt, int recursive){ CHECK(pt == (parse_tree*)PTN && recursive == 0, "own list is released"); PTNS--; return 0; }
int pt_expand(cligen_handle h, cg_obj *co, parse_tree *pt, cvec *cvt, cvec *cvv, int hide, int ev, cg_callback *cb, cg_obj *cop, parse_tree *ptn)
{
    IN(_Bool, noexp);
    CHECK(pt == (parse_tree*)PTC && ptn == (parse_tree*)PTN, "children of the only match are expanded");
    if (noexp && !vh_reliable){ FAILED = 1; return -1; }
    EXPANDED = 1;
    return 0;
}
int pt_expand_cleanup(cligen_handle h, parse_tree *pt){ return 0; }
unsigned int pt_len_get(parse_tree *pt){ CHECK(pt == (parse_tree*)PTN && EXPANDED, "model of children: expanded"); return NC; }
cg_obj *pt_vec_i_get(parse_tree *pt, int i)
{
#ifdef VH_PROOF
    cg_obj *c; _Bool null; int t;
    CHECK(i == S.at2 && i < NC, "model of children: in order"); S.at2++;
    if (i == K2) c = CHILDREN && CK.co_flags ? NULL : &CK;
    else { S.co.co_type = t; c = null ? NULL : &S.co; }
    if (c == NULL || c->co_type == CO_EMPTY) S.empty = 1;
    return c;
#else
    CHECK(i >= 0 && i < NC, "children of the list");
    return CNULL[i] ? NULL : &CH[i];
#endif
}
int sets_contract(cligen_handle h, cvec *cvt, cvec *cvr, char *pipe, parse_tree *pt, int level, int best, cvec *cvv, cg_callback *cb, match_result **mrp)
{
    IN(_Bool, nosets);
    CHECK(level == 0 && !best == !BEST && pt == (parse_tree*)PT, "matching starts at the top, with the selection asked for");
    if (nosets && !vh_reliable){ FAILED = 1; if (REASON){ vh_free(REASON); REASON = NULL; } return -1; }
    MRSN++; *mrp = (match_result*)MRS;
    return 0;
}
static int lower(int c){ return c >= 'A' && c <= 'Z' ? c + 32 : c; }
void h_pattern(void)
{
    int r, i; match_result *mr = NULL; _Bool rest = 0, alike, child = 0;
    IN(_Bool, best); IN(_Bool, reason); IN(int, levels); IN(int, level); IN(_Bool, ic); IN(_Bool, rel); IN(_Bool, ch);
    vh_live = 0; vh_reliable = 1; BEST = best ? 1 : 0; ICASE = ic ? 1 : 0; CHILDREN = ch;
    PTNS = CVVS = MRSN = CLEARED = 0; FAILED = TRUNCED = EXPANDED = 0; LEVELS = levels; LEVEL_ = level;
    S.at = 0; S.differ = S.empty = 0; S.at2 = 0;
    REASON = reason ? vh_strdup("r") : NULL; vh_reliable = rel;
    ASSUME(0 <= level && 0 <= levels && levels < INT_MAX - 2);
#ifdef VH_PROOF
    long n, k, nc, k2; _Bool same, erest; int t0, tk, tc, v0; cg_obj ref; _Bool cnull;
    ASSUME(0 <= n && n < INT_MAX && 0 <= nc && nc < INT_MAX && 0 <= k && 0 <= k2);
    N = n; K = k; NC = nc; K2 = k2; K0SAME = same;
    E0.co_type = t0; E0.co_command = W0; if (t0 == CO_VARIABLE) E0.co_vtype = v0; 
    static cg_obj RR; int rt, rv; _Bool hasref; RR.co_type = rt; RR.co_vtype = rv; E0.co_ref = hasref ? &RR : NULL;
    EK.co_type = tk; EK.co_command = WK; CK.co_type = tc; CK.co_flags = cnull;
    rest = (t0 == CO_VARIABLE && v0 == CGV_REST) || (hasref && rt == CO_VARIABLE && rv == CGV_REST);
    cligen_ghost_state = &S; cligen_ghost_k = k; cligen_ghost_j = k2; cligen_ghost_text = W0;
    cligen_ghost_holds = k == 0 || k >= n || (tk == CO_COMMAND && same);          /* number k is like the first */
    cligen_ghost_n = k2 < nc && ((ch && cnull) || tc == CO_EMPTY);                /* child number k2 is empty */
#else
    IN(uint8_t, nn); IN(uint8_t, nnc);
    N = nn % (MAXN + 1); NC = nnc % (MAXN + 1); alike = 1;
    for (i = 0; i < N; i++){
        IN(uint8_t, b);
        E[i].co_type = b & 0x30 ? CO_COMMAND : CO_VARIABLE; W[i][0] = b & 0xc ? 'a' : b & 1 ? 'A' : 'b'; W[i][1] = '\0'; E[i].co_command = W[i];
        if (E[i].co_type == CO_VARIABLE) E[i].co_vtype = b & 2 ? CGV_REST : CGV_STRING;
        if (E[i].co_type != CO_COMMAND || (ic ? lower(W[i][0]) != lower(W[0][0]) : W[i][0] != W[0][0])) alike = 0;
    }
    for (i = 0; i < NC; i++){
        IN(uint8_t, b);
        CNULL[i] = (b & 7) == 7; CH[i].co_type = (b & 0x38) == 0x38 ? CO_EMPTY : CO_COMMAND;
        if (CNULL[i] || CH[i].co_type == CO_EMPTY) child = 1;
    }
    rest = N > 0 && E[0].co_type == CO_VARIABLE && E[0].co_vtype == CGV_REST;
#endif
    CURN = N;
    _Bool last = level >= levels, had = reason;
    r = match_pattern((cligen_handle)NULL, (cvec*)CVT, (cvec*)CVR, (parse_tree*)PT, best, (cvec*)CVV, &mr);
    COVER("returns");
    CHECK(r == 0 || r == -1, "documented return values");
    CHECK((r == -1) == FAILED, "fails exactly when something failed");
    CHECK(PTNS == 0 && CVVS == 0, "own lists are released");
    CHECK(vh_live == (REASON != NULL), "reasons are released but the one in the result");
    if (r < 0){ CHECK(MRSN == 0 && mr == NULL, "no result on failure"); return; }
    COVER("success");
    CHECK(mr == (match_result*)MRS && MRSN == 1, "the result is handed over");
    CHECK(CLEARED >= 1, "marks of sets are cleared");
    if (CURN == 0) CHECK(REASON != NULL, "no match has a reason");
    if (!last && !(N == 1 && rest) && !(N != 1 && had)) CHECK(CURN == 0, "no match when words remain");
    if (N == 0) CHECK(CURN == 0, "no match stays no match");
    if (last && N > 1){
#ifdef VH_PROOF
        if (!TRUNCED) CHECK(S.differ && CURN == N, "different alternatives stay ambiguous");
#else
        CHECK(TRUNCED == alike, "equal keywords count as one match, others stay ambiguous");
        if (!TRUNCED) CHECK(CURN == N, "different alternatives stay ambiguous");
#endif
    }
    if (N == 1 && (last || rest)){
        if (!best || !ch) CHECK(CURN == 1, "a single match stays");
#ifdef VH_PROOF
        else {
            if (CURN == 0) CHECK(!cligen_ghost_n, "incomplete only when nothing may end here");
            else CHECK(S.empty && CURN == 1, "complete only when the command may end here");
        }
#else
        else CHECK(CURN == (child ? 1 : 0), "complete exactly when the command may end here");
#endif
    }
    if (CURN && CURN != N) CHECK(TRUNCED && CURN == 1, "no other outcome");
}
