/* C19: the match result: one operation on any result. The list of objects by its contract (C14); its entry
 * number K is followed, for an arbitrary K. */
#include "cvh.h"
#include "vhalloc.h"
#include "cligen_handle_internal.h"
/* parse_tree, as its contract sees it */
struct gp { long len; cg_obj *atk; };
static long K; static int KFREE, COPIES, OFREE, LISTS; static cg_obj A, B, OTHER, *LASTCOPY;
parse_tree *pt_new(void)
{
    struct gp *p; IN(_Bool, nopt);
    if (nopt && !vh_reliable) return NULL;
    p = vh_raw(sizeof(*p)); ASSUME(p != NULL);
    p->len = 0; p->atk = NULL; LISTS++;
    return (parse_tree*)p;
}
int pt_free(parse_tree *pt, int recursive)
{
    struct gp *p = (struct gp*)pt;
    if (p == NULL) return -1;
    CHECK(recursive == 0, "the copies are released, not what they refer to");
    if (K < p->len) KFREE++;
    vh_rawfree(p); LISTS--;
    return 0;
}
int pt_vec_append(parse_tree *pt, cg_obj *co)
{
    struct gp *p = (struct gp*)pt; IN(_Bool, noappend);
    if (p == NULL || (noappend && !vh_reliable)) return -1;
    if (p->len == K) p->atk = co;
    p->len++;
    return 0;
}
int pt_trunc(parse_tree *pt, int len)
{
    struct gp *p = (struct gp*)pt;
    if (p == NULL || len <= 0 || len > p->len) return -1;
    if (len <= K && K < p->len) KFREE++;
    p->len = len;
    return 0;
}
unsigned int pt_len_get(parse_tree *pt){ return pt == NULL ? -1 : ((struct gp*)pt)->len; }
cg_obj *pt_vec_i_get(parse_tree *pt, int i)
{
    struct gp *p = (struct gp*)pt;
    if (p == NULL || i < 0 || i >= p->len) return NULL;
    return i == K ? p->atk : &OTHER;
}
int co_copy1(cg_obj *co, cg_obj *parent, int recursive, uint32_t flags, cg_obj **conp)
{
    IN(_Bool, nocopy); cg_obj *c;
    CHECK(co == &A, "the object itself is copied");
    if (nocopy && !vh_reliable) return -1;
    c = vh_raw(sizeof(cg_obj)); ASSUME(c != NULL); *c = *co;
    COPIES++; LASTCOPY = c; *conp = c;
    return 0;
}
int co_free(cg_obj *co, int recursive){ CHECK(co == LASTCOPY && recursive == 0, "only the copy is released"); OFREE++; vh_rawfree(co); return 0; }
void co_flags_set(cg_obj *co, uint32_t f){ co->co_flags |= f; }
#include "cligen_result.c"
static match_result *M; static long N; static char T0[2], T1[2]; static char *R0;
static void result(void)
{
    IN(int, n); IN(int, k); IN(_Bool, none); IN(_Bool, reason); IN(_Bool, rel); IN(int, level); IN(int, last); IN(_Bool, same);
    ASSUME(0 <= n && n < INT_MAX && 0 <= k);
    K = k; N = none ? 0 : n; vh_live = 0; KFREE = COPIES = OFREE = LISTS = 0; vh_reliable = 1; LASTCOPY = NULL;
    M = mr_new();
    ASSUME(M != NULL);
    CHECK(mr_pt_len_get(M) == 0 && mr_reason_get(M) == NULL && mr_level_get(M) == 0 && mr_last_get(M) == 0, "a new result is empty");
    if (none){ pt_free(M->mr_pt, 0); M->mr_pt = NULL; }
    else { ((struct gp*)M->mr_pt)->len = n; ((struct gp*)M->mr_pt)->atk = &B; }
    R0 = reason ? strdup("r") : NULL; M->mr_reason = R0; M->mr_level = level; M->mr_last = last; M->mr_token = T0; M->mr_co_match_orig = same ? &A : &OTHER;
    KFREE = 0; vh_reliable = rel;
}
static _Bool rest_kept(match_result *m, char *reason){ return m->mr_reason == reason; }
void h_ops(void)
{
    int r; match_result *F; char *q;
    IN(uint8_t, op); IN(int, i); IN(int, len); IN(_Bool, null);
    result();
    int level = M->mr_level, last = M->mr_last;
    switch (op % 8){
    case 0:
        r = mr_pt_append(M, &A, T1);
        COVER("append");
        if (r == 0){
            CHECK(mr_pt_len_get(M) == N + 1, "one more match");
            CHECK(COPIES == 1 && OFREE == 0, "a copy of the object is recorded");
            if (K == N) CHECK(mr_pt_i_get(M, N) == LASTCOPY, "recorded last");
            CHECK(mr_token_get(M) == T1, "with its token");
        }
        else { CHECK(r == -1 && mr_pt_len_get(M) == N, "refused: unchanged"); CHECK(COPIES == OFREE, "refused: the copy is released"); }
        if (vh_reliable && M->mr_pt) CHECK(r == 0, "refused only for lack of memory");
        CHECK(KFREE == 0, "nothing recorded is released");
        if (K < N) CHECK(mr_pt_i_get(M, K) == &B, "earlier matches kept in place");
        CHECK(M->mr_reason == R0 && M->mr_level == level && M->mr_last == last, "nothing else changed");
        break;
    case 1:
        r = mr_pt_reset(M);
        COVER("reset");
        CHECK(r == 0 || r == -1, "documented return values");
        CHECK(mr_pt_len_get(M) == 0, "no matches left");
        CHECK(KFREE == (K < N ? 1 : 0), "every match is released");
        CHECK(M->mr_reason == R0 && M->mr_level == level && M->mr_last == last, "nothing else changed");
        if (vh_reliable) CHECK(r == 0, "refused only for lack of memory");
        break;
    case 2:
        r = mr_pt_trunc(M, len);
        COVER("trunc");
        if (0 < len && len <= N){
            CHECK(r == 0 && mr_pt_len_get(M) == len, "as many matches as asked for");
            CHECK(KFREE == (len <= K && K < N ? 1 : 0), "the others are released");
            if (K < len) CHECK(mr_pt_i_get(M, K) == &B, "earlier matches kept in place");
        }
        else CHECK(r == -1 && mr_pt_len_get(M) == N && KFREE == 0, "refused: unchanged");
        CHECK(M->mr_reason == R0, "reason kept");
        break;
    case 3:
        q = null ? NULL : strdup("s");
        r = mr_reason_set(M, q);
        COVER("reason");
        CHECK(r == 0 && mr_reason_get(M) == q, "reason replaced");
        CHECK(vh_live == 1 + (q != NULL), "the earlier reason is released");
        CHECK(mr_pt_len_get(M) == N && KFREE == 0, "matches kept");
        break;
    case 4:
        vh_reliable = 1; F = mr_new(); ASSUME(F != NULL);
        q = null ? NULL : strdup("s"); F->mr_reason = q;
        r = mr_mv_reason(F, M);
        COVER("move");
        CHECK(r == 0 && mr_reason_get(M) == (R0 ? R0 : q), "the first reason is kept, else the other one moves");
        CHECK(mr_reason_get(F) == (R0 ? q : NULL), "a reason has one owner");
        mr_free(F);
        break;
    case 5:
        r = mr2result(M);
        COVER("outcome");
        CHECK(r == (N == 0 ? CG_NOMATCH : N == 1 ? CG_MATCH : CG_MULTIPLE), "the number of matches decides the outcome");
        CHECK(mr_pt_len_get(M) == N && M->mr_reason == R0, "unchanged");
        break;
    case 6:
        mr_level_set(M, i);
        mr_last_set(M);
        COVER("level");
        CHECK(mr_level_get(M) == i && mr_last_get(M) == 1 && mr_pt_len_get(M) == N && M->mr_reason == R0, "level and last set, nothing else");
        break;
    case 7:
        COVER("get");
        CHECK(mr_pt_i_get(M, i) == (i < 0 || i >= N ? NULL : i == K ? &B : &OTHER), "the match at the position");
        CHECK(mr_token_get(M) == T0, "the token");
        break;
    }
    N = mr_pt_len_get(M); KFREE = 0;
    mr_free(M);
    COVER("free");
    CHECK(KFREE == (K < N ? 1 : 0) && LISTS == 0 && vh_live == 0, "everything is released");
}
void h_new(void)
{
    match_result *m; IN(_Bool, rel); vh_live = 0; LISTS = 0; vh_reliable = rel; K = 0;
    m = mr_new();
    if (m == NULL){ COVER("no memory"); CHECK(!rel && vh_live == 0 && LISTS == 0, "nothing kept"); return; }
    COVER("new");
    CHECK(mr2result(m) == CG_NOMATCH && mr_token_get(m) == NULL, "a new result is empty");
    mr_free(m);
    CHECK(vh_live == 0 && LISTS == 0, "everything is released");
}
