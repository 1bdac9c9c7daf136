/* C22: named trees. Settings of a tree: complete. List of trees: bounded number of additions
 * (names from a few); search by name: any number of trees, through the contract of cligen_ph_each. */
#define VH_TEXT_ID
#include "cvh.h"
#include "vhalloc.h"
#include "cligen_handle_internal.h"
static struct { long at; } C;   /* trees visited */
pt_head *cligen_ghost_trees;
static pt_head *A; static long N; static char *KN, *WANT; static _Bool km, om, mm; static char *MN, *ON;
#ifdef VH_PROOF
static int s_strcmp(const char *a, const char *b)
{
    int r; const char *o;
    CHECK(a == WANT || b == WANT, "model of strcmp: against the name asked for");
    o = a == WANT ? b : a;
    if (o == KN ? km : o == MN ? mm : 0) return 0;
    ASSUME(r != 0);
    return r;
}
#ifdef FIND
#define strcmp s_strcmp
#endif
#endif
#include "cligen_pt_head.c"
#undef strcmp
static struct cligen_handle H;
pt_head *cligen_pt_head_get(cligen_handle h){ return H.ch_pt_head; }
int cligen_pt_head_set(cligen_handle h, pt_head *p){ H.ch_pt_head = p; return 0; }
pt_head *cligen_pt_head_active_get(cligen_handle h){ return H.ch_pt_head_active; }
int cligen_pt_head_active_set(cligen_handle h, pt_head *p){ H.ch_pt_head_active = p; return 0; }
cg_obj *cligen_co_match(cligen_handle h){ return H.ch_co_match; }
static int pt_frees; static parse_tree *pt_freed; static int up_sets;
static cg_obj OBJ[3]; static int pt_n; static char PT[4][8];
int pt_free(parse_tree *pt, int r){ pt_frees++; pt_freed = pt; return 0; }
unsigned int pt_len_get(parse_tree *pt){ return pt_n; }
cg_obj *pt_vec_i_get(parse_tree *pt, int i){ return i == 1 ? NULL : &OBJ[i]; }
int co_up_set(cg_obj *co, cg_obj *up){ co->co_prev = up; up_sets++; return 0; }
cg_obj *co_up(cg_obj *co){ return co->co_prev; }
parse_tree *co_pt_get(cg_obj *co){ return NULL; }
int pt_print1(FILE *f, parse_tree *pt, int b){ return 0; }
cg_var *cvec_i(cvec *c, int i){ return i == 0 ? (cg_var*)c : NULL; }
char *cv_string_get(cg_var *cv){ return (char*)cv; }

static char *text(char *mem)
{
    IN(_Bool, none); IN(uint8_t, c);
    mem[0] = 'a' + c % 4; mem[1] = '\0';
    return none ? NULL : mem;
}
static _Bool own(char *t, char *mem, _Bool set){ return set ? t != NULL && t != mem && t[0] == mem[0] && t[1] == '\0' : t == NULL; }
/* settings of one tree; the other tree keeps its own */
void h_settings(void)
{
    pt_head *p, *q; char n[2], a[2], b[2], c[2], d[2]; int r, k; _Bool ok = 1;
    vh_live = 0; vh_reliable = 1; pt_frees = 0; H.ch_pt_head = H.ch_pt_head_active = NULL; H.ch_co_match = NULL;
    n[0] = 'n'; n[1] = 0;
    p = cligen_ph_add(&H, n);
    n[0] = 'o';
    q = cligen_ph_add(&H, n);
    CHECK(p != NULL && q != NULL, "added");
    char *tp = text(a), *ti = text(b); IN(uint8_t, w); IN(uint8_t, ptn);
    w %= 3; pt_n = ptn % 4;
    CHECK(cligen_ph_prompt_set(p, tp) == 0 && cligen_ph_pipe_set(p, ti) == 0 && cligen_ph_workpoint_set(p, &OBJ[w]) == 0, "set");
    OBJ[0].co_prev = OBJ[2].co_prev = &OBJ[1];
    CHECK(cligen_ph_parsetree_set(p, (parse_tree*)PT[0]) == 0, "set");
    if (pt_n > 0) CHECK(OBJ[0].co_prev == NULL, "tree has no parent");
    if (pt_n > 2) CHECK(OBJ[2].co_prev == NULL, "tree has no parent");
    char va = a[0], vb = b[0];
    /* one more setting, of either tree */
    IN(uint8_t, kk);
    IN(_Bool, other);
    pt_head *x = other ? q : p;
    char *t = text(c);
    k = kk % 5; vh_reliable = 0;
    r = k == 0 ? cligen_ph_prompt_set(x, t) : k == 1 ? cligen_ph_pipe_set(x, t) : k == 2 ? cligen_ph_workpoint_set(x, t ? &OBJ[1] : NULL) :
        k == 3 ? cligen_ph_name_set(x, t) : cligen_ph_parsetree_set(x, (parse_tree*)PT[1]);
    COVER("set");
    CHECK(r == 0 || r == -1, "documented return values");
    char vc = c[0]; _Bool set = t != NULL;
    c[0] = c[0];
    if (r == 0){
        if (k == 0) CHECK(own(cligen_ph_prompt_get(x), c, set), "prompt as last set");
        if (k == 1) CHECK(own(cligen_ph_pipe_get(x), c, set), "pipe as last set");
        if (k == 2) CHECK(cligen_ph_workpoint_get(x) == (t ? &OBJ[1] : NULL), "working point as last set");
        if (k == 3) CHECK(own(cligen_ph_name_get(x), c, set), "name as last set");
        if (k == 4) CHECK(cligen_ph_parsetree_get(x) == (parse_tree*)PT[1], "tree as last set");
    }
    a[0] = va; b[0] = vb;
    if (other || k != 0) CHECK(own(cligen_ph_prompt_get(p), a, tp != NULL), "prompt kept");
    if (other || k != 1) CHECK(own(cligen_ph_pipe_get(p), b, ti != NULL), "pipe kept");
    if (other || k != 2) CHECK(cligen_ph_workpoint_get(p) == &OBJ[w], "working point kept");
    if (other || k != 4) CHECK(cligen_ph_parsetree_get(p) == (parse_tree*)PT[0], "tree kept");
    n[0] = 'n';
    if (other || k != 3) CHECK(own(cligen_ph_name_get(p), n, 1), "name kept");
    if (!other) CHECK(!cligen_ph_prompt_get(q) && !cligen_ph_pipe_get(q) && !cligen_ph_workpoint_get(q) && !cligen_ph_parsetree_get(q), "other tree untouched");
    CHECK(cligen_ph_name_get(NULL) == NULL && cligen_ph_parsetree_get(NULL) == NULL, "no tree: nothing");
    pt_frees = 0;
    parse_tree *pp = cligen_ph_parsetree_get(p), *pq = cligen_ph_parsetree_get(q);
    cligen_ph_free(p);
    CHECK(pt_frees == 1 && pt_freed == pp, "tree released");
    cligen_ph_free(q);
    CHECK(pt_frees == 1 + (pq != NULL), "tree released (2)");
    CHECK(vh_live == 0, "everything released");
}
#ifdef VH_NATIVE
#define MAXN 14
#else
#define MAXN 4
#endif
static pt_head *ref[MAXN]; static char refname[MAXN][2];
void h_list(void)
{
    int i, n = 0, op; pt_head *p, *act = NULL; char name[2];
    vh_live = 0; vh_reliable = 0;
    H.ch_pt_head = H.ch_pt_head_active = NULL; H.ch_co_match = NULL;
    CHECK(cligen_pt_active_get(&H) == NULL && cligen_ph_find(&H, "a") == NULL && cligen_ph_each(&H, NULL) == NULL && cligen_ph_i(&H, 0) == NULL, "no trees");
    for (op = 0; op < MAXN; op++){
        IN(uint8_t, c);
        long live = vh_live;
        name[0] = 'a' + c % 3; name[1] = '\0';
        p = cligen_ph_add(&H, name);
        if (p == NULL){ CHECK(vh_live == live, "nothing kept when no memory"); }
        else {
            CHECK(cligen_ph_prompt_get(p) == NULL && cligen_ph_pipe_get(p) == NULL && cligen_ph_workpoint_get(p) == NULL && cligen_ph_parsetree_get(p) == NULL, "fresh tree");
            if (n == 0) act = p;
            ref[n] = p; refname[n][0] = name[0]; refname[n][1] = '\0';
            n++;
        }
        name[0] = '!';
        CHECK(cligen_ph_active_get(&H) == act, "first tree is the active one");
    }
    p = NULL;
    for (i = 0; i < n; i++){
        p = cligen_ph_each(&H, p);
        CHECK(p == ref[i], "every tree once, in order");
        CHECK(cligen_ph_i(&H, i) == ref[i], "tree by number");
        CHECK(cligen_ph_name_get(ref[i])[0] == refname[i][0], "name as added");
    }
    CHECK(cligen_ph_each(&H, p) == NULL || n == 0, "no more trees");
    CHECK(cligen_ph_i(&H, n) == NULL && cligen_ph_i(&H, -1) == NULL, "no tree by other numbers");
    CHECK(cligen_ph_find(&H, NULL) == NULL, "no name: nothing");
    IN(uint8_t, q);
    IN(uint8_t, what);
    name[0] = 'a' + q % 4; name[1] = '\0';
    p = NULL;
    for (i = n - 1; i >= 0; i--) if (refname[i][0] == name[0]) p = ref[i];
    CHECK(cligen_ph_find(&H, name) == p, "first tree of the name, or nothing");
    for (i = 0; i < n; i++) cligen_ph_workpoint_set(ref[i], &OBJ[1]);
    OBJ[1].co_prev = &OBJ[2];
    OBJ[0].co_treeref_orig = q & 16 ? &OBJ[2] : NULL; OBJ[0].co_ref = q & 32 ? &OBJ[0] : NULL;
    H.ch_co_match = q & 64 ? &OBJ[0] : NULL;
    cg_obj *want = &OBJ[1];
    switch (what % 4){
    case 0: cligen_wp_up(&H, NULL, (cvec*)name); want = &OBJ[2]; break;
    case 1: cligen_wp_top(&H, NULL, (cvec*)name); want = NULL; break;
    case 2: cligen_wp_set(&H, NULL, (cvec*)name); if (q & 64) want = q & 16 ? &OBJ[2] : q & 32 ? &OBJ[0] : &OBJ[1]; break;
    case 3: cligen_ph_active_set_byname(&H, name); CHECK(cligen_ph_active_get(&H) == p, "active tree as asked for"); break;
    }
    for (i = 0; i < n; i++) CHECK(cligen_ph_workpoint_get(ref[i]) == (ref[i] == p ? want : &OBJ[1]), "working point of the named tree only");
    while ((p = H.ch_pt_head) != NULL){ H.ch_pt_head = p->ph_next; cligen_ph_free(p); }
    CHECK(vh_live == 0, "everything released");
}
#if defined(VH_PROOF) && defined(FIND)
/* contract of cligen_ph_each: the trees in order (number at is the next one) */
pt_head *each_contract(cligen_handle h, pt_head *prev)
{
    CHECK(prev == (C.at == 0 ? NULL : &A[C.at - 1]), "model of enumeration: from the first on");
    if (C.at >= N) return NULL;
    return &A[C.at++];
}
void h_find(void)
{
    pt_head *p, o, k; long n, ik, im; _Bool nonames;
    IN(char, c);
    vh_live = 0; vh_reliable = 1;
    ASSUME(1 <= n && n < (1 << 20) && 0 <= ik && ik < n && 0 <= im && im < n && im != ik);
    WANT = malloc(2); KN = malloc(2); MN = malloc(2); ON = malloc(2);
    ASSUME(WANT && KN && MN && ON);
    A = malloc(n * sizeof(pt_head));
    ASSUME(A != NULL);
    o.ph_name = nonames ? NULL : ON;
    __CPROVER_array_set(A, o);
    A[ik].ph_name = KN; A[im].ph_name = MN;
    N = n; C.at = 0; cligen_ghost_trees = A; cligen_ghost_n = n;
    _Bool a, b; km = a; mm = b;
    ASSUME(!(mm && im < ik));            /* k is the first one of the name, if any */
    cligen_ghost_k = ik; cligen_ghost_state = &C; cligen_ghost_holds = km;
    p = cligen_ph_find(&H, WANT);
    COVER("returns");
    if (km) CHECK(p == &A[ik], "first tree of the name");
    else if (!mm) CHECK(p == NULL, "nothing when no tree has the name");
}
#else
void h_find(void){ h_list(); }
#endif
