/* C16: selection among the alternatives. Proof reading: any number of alternatives; number k is EK, number m is
 * EM, any other is OV (a variable) or OC (not a variable) with arbitrary contents each time. */
#include "cvh.h"
#include "cligen_handle_internal.h"
#ifdef VH_PROOF
#define ANY(T, x) T x
#else
#define ANY(T, x) IN(T, x)
#endif
void *cligen_ghost_node[3], *cligen_ghost_fn; long cligen_ghost_m;
#define OTHER 0
#define ISK 1
#define ISM 2
/* at: alternatives visited; in[ISK], in[ISM]: times recorded; len: list nonempty; first: which one is first; topvar: the
 * first one is a variable; rset: a reason is recorded; live: reasons in memory */
struct alt { _Bool match, marked, null; int pref, exact; };
struct st { long at; int ink, inm, len, first, topvar, rset, live, failed, top; cg_obj ov, oc; struct alt ao; };
static struct st S;
static cg_obj EK, EM, RK, RM; static char REASON[4], TOK[2], REST[2], PT[8], MR[8];
static long N, K, M; static int MODE; static _Bool LAST, RELIABLE;
static struct alt AK, AM;
static _Bool isrest(cg_obj *co){ return (co->co_type == CO_VARIABLE && co->co_vtype == CGV_REST) || (co->co_ref && co->co_ref->co_type == CO_VARIABLE && co->co_ref->co_vtype == CGV_REST); }
#define HOLDS(a) ((a).match && !(a).marked && !(a).null)
static void *r_strdup(const char *s){ ANY(_Bool, nomem); if (nomem && !RELIABLE){ S.failed = 1; return NULL; } S.live++; return REASON; }
static void r_free(void *p){ CHECK(p == REASON, "only reasons are released"); S.live--; }
#undef strdup
#define strdup r_strdup
#define free r_free
#include "cligen_match.c"
#undef strdup
#undef free
int co_flags_get(cg_obj *co, uint32_t flag){ return (co->co_flags & flag) ? 1 : 0; }
int cligen_preference_mode(cligen_handle h){ return MODE; }
int cligen_caseignore_get(cligen_handle h){ return 0; }
int mr_reason_set(match_result *mr, char *reason)
{
    CHECK(mr == (match_result*)MR && (reason == NULL || reason == REASON), "model of result: reason in memory");
    if (S.rset) S.live--;
    S.rset = reason != NULL;
    return 0;
}
int mr_pt_len_get(match_result *mr){ ANY(int, n); if (S.len == 0) return 0; ASSUME(n > 0); return n; }
int mr_pt_reset(match_result *mr)
{
    ANY(_Bool, bad);
    S.len = 0; S.ink = S.inm = 0; 
    if (bad && !RELIABLE){ S.failed = 1; return -1; }
    return 0;
}
#ifdef VH_PROOF
unsigned int pt_len_get(parse_tree *pt){ return N; }
static struct alt *alt_of(cg_obj *co){ return co == &EK ? &AK : co == &EM ? &AM : &S.ao; }
static void any_other(struct st *s)
{
    ANY(int, vt); ANY(uint32_t, fl); ANY(int, t); ANY(_Bool, rest); ANY(int, pref); ANY(int, ex); ANY(_Bool, m); ANY(_Bool, mk);
    ASSUME(t != CO_VARIABLE); ASSUME(1 <= pref && pref <= UINT16_MAX);
    s->ov.co_vtype = vt; s->ov.co_flags = mk ? fl | CO_FLAGS_MATCH : fl & ~CO_FLAGS_MATCH; s->ov.co_type = CO_VARIABLE; s->ov.co_ref = rest ? &RK : NULL;
    s->oc.co_vtype = vt; s->oc.co_flags = s->ov.co_flags; s->oc.co_type = t; s->oc.co_ref = rest ? &RK : NULL;
    s->ao.match = m; s->ao.marked = mk; s->ao.pref = pref; s->ao.exact = ex;
}
cg_obj *pt_vec_i_get(parse_tree *pt, int i)
{
    _Bool var, null;
    CHECK(i == S.at && i < N, "model of list: alternatives in order");
    S.at++;
    if (i == K) return AK.null ? NULL : &EK;
    if (i == M) return AM.null ? NULL : &EM;
    any_other(&S);
    return null ? NULL : var ? &S.ov : &S.oc;
}
int match_contract(cligen_handle h, char *str, cg_obj *co, int best, int *exact, char **reason)
{
    _Bool bad; struct alt *a = alt_of(co);
    CHECK(str == (isrest(co) ? REST : TOK), "the input word, or the rest of the line, is matched");
    if (bad && !RELIABLE){ S.failed = 1; return -1; }
    if (exact) *exact = a->exact;
    if (!a->match && reason){ *reason = REASON; S.live++; }
    return a->match ? 1 : 0;
}
int co_pref(cg_obj *co, int exact)
{
    struct alt *a = alt_of(co);
    CHECK(exact == a->exact, "preference of the match at hand");
    return a->pref;
}
int mr_pt_append(match_result *mr, cg_obj *co, char *token)
{
    _Bool bad;
    CHECK(token == (isrest(co) ? REST : TOK), "recorded with the text it matched");
    CHECK(co == &EK ? K == S.at - 1 : co == &EM ? M == S.at - 1 : 1, "recorded when visited");
    if (bad && !RELIABLE){ S.failed = 1; return -1; }
    if (!S.len){ S.len = 1; S.first = co == &EK ? ISK : co == &EM ? ISM : OTHER; S.topvar = co->co_type == CO_VARIABLE; }
    if (co == &EK) S.ink++;
    if (co == &EM) S.inm++;
    return 0;
}
long cligen_ghost_c[10];
static void alternative(cg_obj *co, cg_obj *ref, struct alt *a)
{
    struct alt any; cg_obj c; _Bool r; int vt;
    *a = any; ASSUME(1 <= a->pref && a->pref <= UINT16_MAX);
    *co = c; ref->co_type = c.co_type; ref->co_vtype = vt;
    co->co_ref = r ? ref : NULL;
    if (a->marked) co->co_flags |= CO_FLAGS_MATCH; else co->co_flags &= ~CO_FLAGS_MATCH;
}
void h_vec(void)
{
    long n, k, m; int mode, r, pref; _Bool last, rel, best;
    ASSUME(0 <= n && n <= INT_MAX && 0 <= k && 0 <= m && k != m);
    N = n; K = k; M = m; MODE = mode; LAST = last; RELIABLE = rel;
    S.at = 0; S.ink = S.inm = S.len = S.first = S.topvar = S.rset = S.live = S.failed = 0;
    RK.co_type = CO_VARIABLE; RK.co_vtype = CGV_REST;
    any_other(&S);
    alternative(&EK, &RM, &AK); alternative(&EM, &RM, &AM);
    cligen_ghost_state = &S;
    cligen_ghost_c[0] = n; cligen_ghost_c[1] = k; cligen_ghost_c[2] = m;
    cligen_ghost_c[3] = k < n && HOLDS(AK); cligen_ghost_c[4] = AK.pref; cligen_ghost_c[5] = m < n && HOLDS(AM); cligen_ghost_c[6] = AM.pref;
    /* alternatives of equal preference that are resolved silently, as configured */
    _Bool skip = (mode == 1 && last) || (mode == 2 && !last) || mode == 3;
    cligen_ghost_c[7] = best && skip && EK.co_type == CO_VARIABLE; cligen_ghost_c[8] = best && skip && EM.co_type == CO_VARIABLE;
    /* gives a reason if nothing matches */
    cligen_ghost_c[9] = k < n && !AK.null && (AK.match ? AK.marked : EK.co_type == CO_VARIABLE);
    cligen_ghost_node[0] = &S.ov; cligen_ghost_fn = &S.oc; cligen_ghost_node[1] = &EK; cligen_ghost_node[2] = &EM;
    r = match_vec((cligen_handle)NULL, (parse_tree*)PT, TOK, REST, last, best, (match_result*)MR);
    COVER("returns");
    CHECK(r == 0 || r == -1, "documented return values");
    CHECK(S.live == S.rset, "every reason but the recorded one is released");
    CHECK((r == -1) == S.failed, "fails exactly when something failed");
    if (r < 0) return;
    _Bool kok = cligen_ghost_c[3], mok = cligen_ghost_c[5];
    CHECK(0 <= S.ink && S.ink <= (kok ? 1 : 0), "only matching alternatives are recorded, once");
    if (kok) CHECK(S.len, "something is recorded when something matches");
    if (kok && !best) CHECK(S.ink, "without selection every match is recorded");
    if (best && S.ink && mok) CHECK(AK.pref >= AM.pref, "only the best alternatives are recorded");
    if (best && kok && !S.ink)
        CHECK((S.first == ISM && mok && AM.pref > AK.pref) || S.first != ISM || cligen_ghost_c[7], "a match is left out for a better one");
    if (best && kok && S.inm && !S.ink && !cligen_ghost_c[7]) CHECK(AM.pref > AK.pref, "equals are all recorded, unless configured otherwise");
    if (best && S.ink && S.first != ISK) CHECK(!(cligen_ghost_c[7] && S.topvar), "of equal variables only the first, when so configured");
    if (best && kok && !S.ink && S.inm && AM.pref == AK.pref) CHECK(cligen_ghost_c[7] && S.topvar, "of equal variables only the first, only when so configured");
    if (S.len) CHECK(!S.rset, "no reason when something matches");
    if (!S.len && cligen_ghost_c[9]) CHECK(S.rset, "a reason when a variable does not match");
    COVER("success");
}
#else
#ifdef VH_NATIVE
#define MAXN 7
#else
#define MAXN 3
#endif
static cg_obj O[MAXN]; static struct alt A[MAXN]; static cg_obj RR[MAXN]; static int nlist, list[MAXN+1];
unsigned int pt_len_get(parse_tree *pt){ return N; }
cg_obj *pt_vec_i_get(parse_tree *pt, int i){ CHECK(i >= 0 && i < N, "alternatives of the list"); return A[i].null ? NULL : &O[i]; }
int match_contract(cligen_handle h, char *str, cg_obj *co, int best, int *exact, char **reason)
{
    struct alt *a = &A[co - O];
    IN(uint8_t, bad);
    CHECK(str == (isrest(co) ? REST : TOK), "the input word, or the rest of the line, is matched");
    if (bad == 77 && !RELIABLE){ S.failed = 1; return -1; }
    if (exact) *exact = a->exact;
    if (!a->match && reason){ *reason = REASON; S.live++; }
    return a->match ? 1 : 0;
}
int co_pref(cg_obj *co, int exact){ CHECK(exact == A[co - O].exact, "preference of the match at hand"); return A[co - O].pref; }
int mr_pt_append(match_result *mr, cg_obj *co, char *token)
{
    IN(uint8_t, bad);
    CHECK(token == (isrest(co) ? REST : TOK), "recorded with the text it matched");
    if (bad == 77 && !RELIABLE){ S.failed = 1; return -1; }
    if (!S.len){ S.len = 1; nlist = 0; }
    CHECK(nlist < MAXN, "recorded once"); list[nlist++] = co - O;
    return 0;
}
void h_vec(void)
{
    int i, r, max = 0, first = -1, want = 0, why = 0;
    IN(uint8_t, nn); IN(uint8_t, mode); IN(_Bool, last); IN(_Bool, rel); IN(_Bool, best);
    N = nn % (MAXN + 1); MODE = mode % 5; LAST = last; RELIABLE = rel; nlist = 0;
    S.at = 0; S.ink = S.inm = S.len = S.first = S.topvar = S.rset = S.live = S.failed = 0;
    _Bool skip = (MODE == 1 && last) || (MODE == 2 && !last) || MODE == 3;
    for (i = 0; i < N; i++){
        IN(uint8_t, b); IN(uint8_t, c); IN(uint8_t, kind); IN(uint8_t, vt);
        A[i].match = b & 1; A[i].marked = (b & 6) == 6; A[i].null = (b & 0x38) == 0x38; A[i].exact = b >> 6 & 1; A[i].pref = 1 + (c & 3);
        O[i].co_type = kind & 1 ? CO_VARIABLE : kind & 2 ? CO_COMMAND : CO_EMPTY; O[i].co_vtype = vt & 1 ? CGV_REST : CGV_STRING;
        RR[i].co_type = kind & 4 ? CO_VARIABLE : CO_COMMAND; RR[i].co_vtype = vt & 2 ? CGV_REST : CGV_STRING; O[i].co_ref = kind & 8 ? &RR[i] : NULL;
        O[i].co_flags = A[i].marked ? CO_FLAGS_MATCH : 0;
        if (HOLDS(A[i]) && A[i].pref > max){ max = A[i].pref; first = i; }
        if (!A[i].null && (A[i].match ? A[i].marked : O[i].co_type == CO_VARIABLE)) why = 1;
    }
    r = match_vec((cligen_handle)NULL, (parse_tree*)PT, TOK, REST, last, best, (match_result*)MR);
    CHECK(r == 0 || r == -1, "documented return values");
    CHECK(S.live == S.rset, "every reason but the recorded one is released");
    CHECK((r == -1) == S.failed, "fails exactly when something failed");
    if (r < 0) return;
    if (!S.len) nlist = 0;
    for (i = 0; i < N; i++){
        _Bool in = HOLDS(A[i]) && (!best || (A[i].pref == max && !(skip && i != first && O[i].co_type == CO_VARIABLE && O[first].co_type == CO_VARIABLE)));
        if (in){ CHECK(want < nlist && list[want] == i, "every best match is recorded, in order"); want++; }
    }
    CHECK(nlist == want, "only the best matches are recorded");
    if (nlist) CHECK(!S.rset, "no reason when something matches");
    if (!nlist) CHECK(S.rset == why, "a reason exactly when a variable does not match");
}
#endif
