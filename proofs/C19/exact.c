/* C19: exact matching: outcome, reason and matched object */
#include "cvh.h"
#include "vhalloc.h"
#include "cligen_handle_internal.h"
static char MRS[8], PT[8], CVT[8], CVR[8], CVV[8]; static int N, MRSN, COPIES; static char *REASON; static _Bool FAILED; static cg_obj A, OBJ;
static char *k_strdup(const char *s)
{
    CHECK(s == REASON, "the reason of the result");
    char *r = vh_strdup("r");
    if (r == NULL) FAILED = 1;
    return r;
}
#undef strdup
#define strdup(s) k_strdup(s)
#include "cligen_match.c"
int mr_pt_len_get(match_result *mr){ return N; }
cg_obj *mr_pt_i_get(match_result *mr, int i){ return 0 <= i && i < N ? &A : NULL; }
char *mr_reason_get(match_result *mr){ return REASON; }
int mr_free(match_result *mr){ CHECK(mr == (match_result*)MRS, "the result is released"); MRSN--; return 0; }
cligen_result mr2result(match_result *mr){ return N == 0 ? CG_NOMATCH : N == 1 ? CG_MATCH : CG_MULTIPLE; }
int co_copy1(cg_obj *co, cg_obj *parent, int recursive, uint32_t flags, cg_obj **conp)
{
    IN(_Bool, nocopy);
    CHECK(co == &A && N == 1, "the only match is copied");
    if (nocopy && !vh_reliable){ FAILED = 1; return -1; }
    COPIES++; *conp = &OBJ;
    return 0;
}
int pattern_contract(cligen_handle h, cvec *cvt, cvec *cvr, parse_tree *pt, int best, cvec *cvv, match_result **mrp)
{
    IN(_Bool, nopat);
    CHECK(best && cvt == (cvec*)CVT && cvr == (cvec*)CVR && pt == (parse_tree*)PT && cvv == (cvec*)CVV, "best match of the line");
    if (nopat && !vh_reliable){ FAILED = 1; return -1; }
    MRSN++; *mrp = (match_result*)MRS;
    return 0;
}
void h_exact(void)
{
    int r; cg_obj *obj = NULL; char *why = NULL; cligen_result res; static char reason[2];
    IN(int, n); IN(_Bool, hasreason); IN(_Bool, wantobj); IN(_Bool, wantwhy); IN(_Bool, rel);
    ASSUME(n >= 0); ASSUME(n > 0 || hasreason);     /* match_pattern: no match has a reason */
    N = n; MRSN = COPIES = 0; FAILED = 0; vh_live = 0; vh_reliable = rel; REASON = hasreason ? reason : NULL; reason[0] = 'r'; res = 77;
    r = match_pattern_exact((cligen_handle)NULL, (cvec*)CVT, (cvec*)CVR, (parse_tree*)PT, (cvec*)CVV, wantobj ? &obj : NULL, &res, wantwhy ? &why : NULL);
    COVER("returns");
    CHECK(r == 0 || r == -1, "documented return values");
    CHECK((r == -1) == FAILED, "fails exactly when something failed");
    CHECK(MRSN == 0, "the result is released");
    CHECK(vh_live == (why != NULL), "nothing else kept");
    if (r < 0) CHECK(res == 77, "no outcome on failure");
    else {
        COVER("success");
        CHECK(res == (n == 0 ? CG_NOMATCH : n == 1 ? CG_MATCH : CG_MULTIPLE), "the number of matches decides the outcome");
        CHECK((obj != NULL) == (wantobj && n == 1 ? 1 : 0), "an object exactly for a single match");
        if (wantwhy && n == 0) CHECK(why != NULL, "no match is reported with its reason");
        if (!wantwhy || !hasreason) CHECK(why == NULL, "no other reason");
    }
}
