/* C15: siblings in order. A sorted list of N entries (any number) as seen by the object (or name) X looked for: X is
 * greater than the entries in front of position T, equal to the one in position T if HIT, and less than the ones behind:
 * this is what sorted means, by transitivity (order.c). The search is recursive: a call in it is checked against the
 * contract of the search (below), whose measure must get smaller. */
#include "cvh.h"
#undef cligen_reason
#include "vhalloc.h"
#include "cligen_handle_internal.h"
#define MAXN 6
static cg_obj OB[MAXN], X; static long LAST, N, T; static _Bool HIT, EMPTY0, PHASE; static char NAME[8], OTHER[MAXN][8];
static int INSERTS, MERGES, FREES, IPOS; static _Bool FAILED;
static int sgn(long i){ IN(uint8_t, d); int m = 1 + d; if (EMPTY0 && i == 0) return m; return i < T ? m : i == T && HIT ? 0 : -m; }   /* X compared with entry i */
static long at(cg_obj *co)
{
#ifdef VH_PROOF
    CHECK(co == &OB[0], "model: entry of the list");
    return LAST;
#else
    return co - OB;
#endif
}
static int x_cmp(const char *a, const char *b)
{
    const char *o = a == NAME ? b : a;
    CHECK(a == NAME || b == NAME, "model of comparison: with the name looked for");
    CHECK(o != NULL, "model of comparison: a name");
#ifdef VH_PROOF
    return a == NAME ? sgn(LAST) : -sgn(LAST);
#else
    return a == NAME ? sgn((o - OTHER[0]) / 8) : -sgn((o - OTHER[0]) / 8);
#endif
}
#define strcmp x_cmp
#define strcasecmp x_cmp
#define strverscmp x_cmp
#define strcoll x_cmp
#include "cligen_object.c"
#undef strcmp
#undef strcasecmp
#undef strverscmp
static _Bool IGN, LEX;
int cligen_ignorecase(cligen_handle h){ return IGN ? 1 : 0; }
int cligen_lexicalorder(cligen_handle h){ return LEX ? 1 : 0; }
unsigned int pt_len_get(parse_tree *pt){ return N; }
cg_obj *pt_vec_i_get(parse_tree *pt, int i)
{
    CHECK(0 <= i && i < N, "entry inside the list");
#ifdef VH_PROOF
    LAST = i;
    return EMPTY0 && i == 0 ? NULL : &OB[0];
#else
    return EMPTY0 && i == 0 ? NULL : &OB[i];
#endif
}
int eq_contract(cg_obj *a, cg_obj *b)
{
    CHECK((a == &X) != (b == &X), "model of comparison: the new object with one of the list");
    return a == &X ? sgn(at(b)) : -sgn(at(a));
}
/* contract of the position search: looked for between low and upper, where the position must be */
int pos_contract(parse_tree *pt, cg_obj *co1, int low, int upper)
{
    CHECK(0 <= low && upper <= N && (co1 == NULL || (low <= T && T <= (long)upper + 1)), "the position is in the part searched");
    return co1 == NULL ? 0 : T;
}
static long MEASURE;
int pos_rec(parse_tree *pt, cg_obj *co1, int low, int upper)
{
    CHECK((long)upper - low < MEASURE, "the part searched gets smaller");
    return pos_contract(pt, co1, low, upper);
}
cg_obj *search_contract(parse_tree *pt, char *name, int low, int upper)
{
    CHECK(0 <= low && upper <= N && low <= T && T <= (long)upper + (HIT ? 0 : 1), "the position is in the part searched");
    CHECK(name == NAME, "the name asked for");
#ifdef VH_PROOF
    LAST = T;
    return HIT ? &OB[0] : NULL;
#else
    return HIT ? &OB[T] : NULL;
#endif
}
cg_obj *search_rec(parse_tree *pt, char *name, int low, int upper)
{
    CHECK((long)upper - low < MEASURE, "the part searched gets smaller");
    return search_contract(pt, name, low, upper);
}
int pt_vec_i_insert(parse_tree *pt, int pos, cg_obj *co)
{
    IN(_Bool, noins);
    if (noins && !vh_reliable){ FAILED = 1; return -1; }
    CHECK(co == &X || (co == NULL && X.co_command == NULL), "the new object is inserted");
    INSERTS++; IPOS = pos;
    return 0;
}
static parse_tree *PTN = (parse_tree*)OTHER[1], *PTO = (parse_tree*)OTHER[2];
int cligen_parsetree_merge(parse_tree *pt0, cg_obj *parent, parse_tree *pt1)
{
    CHECK(MERGES == 0 && FREES == 0, "merged once");
    CHECK(pt0 == PTO && pt1 == PTN && parent != &X && at(parent) == T, "merged with the equal object");
    MERGES++;
    return 0;
}
parse_tree *tree_contract(cg_obj *co){ return co == &X ? PTN : PTO; }
int free_contract(cg_obj *co, int recursive){ CHECK(co == &X && MERGES == 1, "only the new object is released, when merged"); FREES++; return 0; }
static void list(void)
{
    IN(_Bool, hit); IN(_Bool, empty); IN(_Bool, rel); IN(_Bool, ign); IN(_Bool, lex);
    vh_reliable = rel; FAILED = 0; INSERTS = MERGES = FREES = 0; IGN = ign; LEX = lex;
#ifdef VH_PROOF
    int n, t;
    ASSUME(0 <= n && n < (1 << 29) && 0 <= t && t <= n); N = n; T = t;
#else
    IN(uint8_t, n); IN(uint8_t, t); N = n % (MAXN + 1); T = t % (N + 1);
#endif
    HIT = hit && T < N; EMPTY0 = empty && N > 0 && T > 0;   /* the empty object is first, if any */
    for (int i = 0; i < MAXN; i++) OB[i].co_command = OTHER[i];
    X.co_command = NAME;
}
/* the recursive functions themselves, whose calls from within go to the contracts */
#ifdef VH_PROOF
int enter_pos(parse_tree *pt, cg_obj *co1, int low, int upper);
cg_obj *enter_search(parse_tree *pt, char *name, int low, int upper);
#else
static int enter_pos(parse_tree *pt, cg_obj *co1, int low, int upper){ return co_insert_pos(pt, co1, low, upper); }
static cg_obj *enter_search(parse_tree *pt, char *name, int low, int upper){ return co_search1(pt, name, low, upper); }
#endif
void h_pos(void)
{
    int r, low, upper;  _Bool none = 0;
    list();
#ifdef VH_PROOF
    int l, u; _Bool nx;
    ASSUME(0 <= l && l <= T && T <= (long)u + 1 && u <= N); low = l; upper = u; none = nx;
    if (none) ASSUME(low == 0 && upper == N && T == 0 && !HIT);
#else
    low = 0; upper = N;
#endif
    MEASURE = (long)upper - low;
    r = enter_pos(PTO, none ? NULL : &X, low, upper);
    COVER("returns");
    CHECK(r == T, "the position found is in order");
}
void h_search(void)
{
    cg_obj *r; int low, upper; 
    list();
#ifdef VH_PROOF
    int l, u;
    ASSUME(0 <= l && l <= T && T <= (long)u + 1 && u <= N && (!HIT || T <= u)); low = l; upper = u;
#else
    low = 0; upper = N;
#endif
    MEASURE = (long)upper - low;
    r = enter_search(PTO, NAME, low, upper);
    COVER("returns");
    if (HIT) CHECK(r != NULL && at(r) == T, "an object of the list is found by its name");
    else CHECK(r == NULL, "nothing is found when there is none of the name");
}
void h_find(void)
{
    cg_obj *r;
    list();
    r = co_find_one(PTO, NAME);
    COVER("returns");
    if (HIT) CHECK(r != NULL && at(r) == T, "an object of the list is found by its name");
    else CHECK(r == NULL, "nothing is found when there is none of the name");
}
void h_insert(void)
{
    cg_obj *r, *x = &X; IN(_Bool, none);
    list();
    if (none){ x = NULL; X.co_command = NULL; T = 0; HIT = 0; EMPTY0 = N > 0 && EMPTY0; }
    r = co_insert1(PTO, x, 1);
    COVER("returns");
    if (x == NULL){
        CHECK(r == NULL && MERGES == 0 && FREES == 0, "an empty object");
        CHECK(INSERTS == (EMPTY0 || FAILED ? 0 : 1), "an empty object is inserted once");
        return;
    }
    if (HIT){
        CHECK(r != NULL && r != x && at(r) == T, "the equal object is used");
        CHECK(MERGES == 1 && FREES == 1 && INSERTS == 0, "merged instead of duplicated");
        return;
    }
    CHECK(MERGES == 0 && FREES == 0, "nothing is lost");
    CHECK(r == (FAILED ? NULL : x) && INSERTS == (FAILED ? 0 : 1), "inserted once");
    if (!FAILED) CHECK(IPOS == T, "inserted in order");
    if (!FAILED) COVER("inserted");
}
