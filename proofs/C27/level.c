/* C27: expansion of one level: every object of it is expanded once, in order. The level has any number of objects:
 * number k, an arbitrary one, is followed; all others are arbitrary each time. pt_expand1_co, pt_expand_reference,
 * co_expand_treeref_copy_shallow and tree_resolve by contract. */
#include "cvh.h"
#undef cligen_reason
#include "cligen_syntax.h"
#include "cligen_expand.h"
#include "cligen_print.h"
#ifdef VH_NATIVE
#include "cligen_expand.c"
int cligen_logsyntax(cligen_handle h){ return 0; }
/* a few commands, some hidden, some empty entries */
void h_level(void)
{
    parse_tree *pt = pt_new(), *ptn = pt_new(); ASSUME(pt && ptn);
    IN(uint8_t, n); IN(int, hide); IN(_Bool, sets); n %= 5; int left = 0, empty = 0;
    cg_obj *o[4];
    pt_sets_set(pt, sets & 1);
    for (int i = 0; i < n; i++){
        IN(uint8_t, what); char name[2] = {'a' + i, 0};
        ASSUME(pt_realloc(pt) == 0);
        if ((what & 3) == 0){ empty++; o[i] = NULL; continue; }
        ASSUME((o[i] = co_new_only(what & 4 ? CO_COMMAND : CO_VARIABLE)) != NULL);
        o[i]->co_command = strdup(name);
        if (o[i]->co_type == CO_VARIABLE) o[i]->co_vtype = CGV_STRING;
        if ((what & 3) == 1) o[i]->co_flags |= CO_FLAGS_HIDE;
        if (!(hide && (what & 3) == 1)) left++;
        pt_vec_i_insert(pt, i, o[i]);
        pt_vec_i_delete(pt, i + 1, 0);
    }
    int ret = pt_expand(NULL, NULL, pt, NULL, NULL, hide, 0, NULL, NULL, ptn);
    CHECK(ret == 0, "fails exactly when an object cannot be expanded");
    CHECK(pt_len_get(ptn) <= (unsigned)(left + empty), "nothing is expanded twice");
    CHECK(n == 0 || pt_sets_get(ptn) == pt_sets_get(pt), "the new tree is a set if the level is");
    for (int i = 0; i < n; i++){
        int seen = 0;
        if (o[i] == NULL) continue;
        for (int j = 0; j < (int)pt_len_get(ptn); j++){ cg_obj *c = pt_vec_i_get(ptn, j); if (c && strcmp(c->co_command, o[i]->co_command) == 0 && c->co_ref == o[i]) seen++; }
        CHECK(seen == !(hide && (o[i]->co_flags & CO_FLAGS_HIDE)), "every object is expanded once");
    }
    for (int j = 0; j + 1 < (int)pt_len_get(ptn); j++){ cg_obj *c = pt_vec_i_get(ptn, j), *d = pt_vec_i_get(ptn, j+1); CHECK(!c || !d || co_eq(c, d) <= 0, "the new tree is sorted"); }
    pt_free(ptn, 0); pt_free(pt, 0);
}
void h_reference(void){}
#else
#define g_k ((long)cligen_ghost_k)
void *cligen_ghost_node[3];
#define fprintf(...) ((void)0)
static struct { long at; int done; int bad; int stage; cg_obj cur; } g_st;
#define CUR_K (g_st.at - 1 == g_k)
static cg_obj PARENT, PREV, PIPE; static cg_callback *g_pcb, *g_cb; static parse_tree *g_pt, *g_new, *g_ref, *g_tmp; static cvec *g_cvt, *g_var, *g_par, *g_lab;
static int g_hide, g_ev, g_sets; static cligen_handle g_h; static char MK[16][2]; static cg_obj *g_co0; static _Bool g_pipe, g_sorted, g_setset;
static struct { _Bool null; int type; _Bool prev; } g_kk;
static int g_copies; static _Bool g_in_ref;
/* how an object is to be handled: 0 none is due, 1 one is due, 2 its pipe is due too */
static void due(int what){ CHECK(g_st.stage == what, "each object is expanded once, in order"); }
uint32_t pt_len_get(parse_tree *pt){ if (pt == g_new) return 0; CHECK(pt == (g_in_ref ? g_tmp : g_pt), "the level"); return (int)cligen_ghost_n; }
static _Bool pipe_due(void)
{
    return g_st.cur.co_type == CO_EMPTY && g_st.cur.co_prev != NULL && PREV.co_callbacks != NULL && g_pipe;
}
cg_obj *pt_vec_i_get(parse_tree *pt, int i)
{
    _Bool null, prev; int type;
    CHECK(pt == (g_in_ref ? g_tmp : g_pt) && i == g_st.at && i < cligen_ghost_n, "object after object of the level");
    CHECK(g_st.stage == 0, "each object is expanded once, in order");
    g_st.at++;
    if (CUR_K){ null = g_kk.null; type = g_kk.type; prev = g_kk.prev; }
    type &= 3;
    if (g_in_ref && null){ if (CUR_K) g_st.done++; return NULL; }
    g_st.stage = 1;
    if (null) return NULL;
    g_st.cur.co_type = type;
    g_st.cur.co_prev = prev ? &PREV : NULL;
    return &g_st.cur;
}
static int done_one(int next)
{
    _Bool f;
    g_st.stage = next;
    if (f){ g_st.bad = 1; return -1; }
    if (next == 0 && CUR_K) g_st.done++;
    return 0;
}
int pt_realloc(parse_tree *pt)
{
    CHECK(pt == g_new, "an empty entry in the new tree");
    due(1);
    CHECK(!CUR_K || g_kk.null, "an empty entry for an empty entry");
    return done_one(0);
}
int m_expand1(cligen_handle h, cg_obj *co, int hide, int ev, cvec *var, cvec *flt, cg_callback *cb, int tr, parse_tree *ptn)
{
    due(1);
    CHECK(co == &g_st.cur && (!CUR_K || !g_kk.null), "this object");
    CHECK(g_in_ref || co->co_type != CO_REFERENCE, "an object of this tree");
    CHECK(h == g_h && hide == g_hide && ev == g_ev && var == g_var && flt == g_par && cb == g_cb && ptn == g_new, "with what was asked for and the parent's filter");
    CHECK(tr == g_in_ref, "of this tree or of the one referenced");
    return done_one(!g_in_ref && pipe_due() ? 2 : 0);
}
int m_reference(cligen_handle h, cg_obj *co, cvec *cvt, cvec *var, cvec *flt, int hide, int ev, cg_callback *cb, parse_tree *ptn)
{
    CHECK(h == g_h && hide == g_hide && ev == g_ev && var == g_var && flt == g_par && cb == g_cb && ptn == g_new && cvt == g_cvt, "with what was asked for and the parent's filter");
    if (g_st.stage == 2) CHECK(co == &PIPE, "the default pipe");
    else { due(1); CHECK(co == &g_st.cur && co->co_type == CO_REFERENCE, "this reference"); }
    return done_one(0);
}
int co_callback_copy(cg_callback *cc0, cg_callback **ccn)
{
    _Bool f;
    CHECK(cc0 == g_pcb && ccn == &PIPE.co_callbacks && g_st.stage == 2, "the callbacks of the parent");
    if (f){ g_st.stage = 0; g_st.bad = 1; return -1; }
    return 0;
}
int pt_sets_get(parse_tree *pt){ CHECK(pt == g_pt, "the level"); return g_sets; }
int pt_sets_set(parse_tree *pt, int s){ CHECK(pt == g_new && s == g_sets, "the new tree is a set if the level is"); g_setset = 1; return 0; }
void cligen_parsetree_sort(parse_tree *pt, int rec){ CHECK(pt == g_new && rec == 0, "the new tree is sorted"); g_sorted = 1; }
int cligen_logsyntax(cligen_handle h){ return 0; }
/* of a reference */
static int g_live; static _Bool g_found, g_copied, g_oom;
int m_resolve(cligen_handle h, cg_obj *co, cvec *cvt, parse_tree **pp){ IN(_Bool, f); CHECK(co == &PIPE && cvt == g_cvt, "the tree referred to"); if (f){ g_oom = 1; return -1; } *pp = g_ref; return 0; }
parse_tree *pt_new(void){ IN(_Bool, f); if (f){ g_oom = 1; return NULL; } g_live++; return g_tmp; }
int pt_free(parse_tree *pt, int rec){ CHECK(pt == g_tmp && rec == 0, "only the copy is freed"); g_live--; return 0; }
cvec *cvec_new(int n){ IN(_Bool, f); CHECK(n == 0, "no label yet"); if (f){ g_oom = 1; return NULL; } g_live++; return g_lab; }
int cvec_free(cvec *v){ CHECK(v == g_lab, "only the labels are freed"); g_live--; return 0; }
int m_labels(cligen_handle h, cg_obj *co, cvec *cvv){ IN(_Bool, f); CHECK(co == &PIPE && cvv == g_lab, "the labels of the reference"); if (f){ g_oom = 1; return -1; } g_found = 1; return 0; }
int m_shallow(cligen_handle h, cg_obj *co, cvec *flt, cvec *cvt, parse_tree *pt, parse_tree *ptn)
{
    IN(_Bool, f);
    CHECK(co == &PIPE && flt == g_lab && g_found && pt == g_ref && ptn == g_tmp, "the tree referred to, with the labels to be removed");
    g_copied = 1;
    if (f){ g_oom = 1; return -1; }
    return 0;
}
#include "cligen_expand.c"
void enter_reference(void){}
static void start(void)
{
    IN(unsigned long, k); IN(uint32_t, n); IN(_Bool, kn); IN(int, kt); IN(_Bool, kp); IN(_Bool, pc); IN(_Bool, p); IN(_Bool, pcb); IN(_Bool, ppar); IN(int, hide); IN(int, ev); IN(int, sets); IN(_Bool, cb);
    ASSUME(k < (1ul << 40)); ASSUME(n < (1u << 30));
    memset(&PARENT, 0, sizeof(PARENT)); memset(&PREV, 0, sizeof(PREV)); memset(&PIPE, 0, sizeof(PIPE)); memset(&g_st, 0, sizeof(g_st));
    g_pt = (void*)MK[0]; g_new = (void*)MK[1]; g_ref = (void*)MK[2]; g_tmp = (void*)MK[3]; g_cvt = (void*)MK[4]; g_var = (void*)MK[5]; g_par = ppar ? (void*)MK[6] : NULL;
    g_lab = (void*)MK[7]; g_h = (void*)MK[8]; g_cb = cb ? (void*)MK[9] : NULL; g_pcb = pcb ? (void*)MK[10] : NULL;
    g_hide = hide; g_ev = ev; g_sets = sets; g_pipe = p; g_sorted = g_setset = 0; g_live = 0; g_found = g_copied = g_oom = 0;
    PREV.co_callbacks = pc ? (void*)MK[11] : NULL;
    PARENT.co_callbacks = g_pcb; PARENT.co_filter = g_par;
    g_kk.null = kn; g_kk.type = kt & 3; g_kk.prev = kp;
    cligen_ghost_k = k; cligen_ghost_n = n; cligen_ghost_state = &g_st; cligen_ghost_holds = 0;
}
void h_level(void)
{
    int ret; IN(_Bool, top);
    start();
    g_in_ref = 0;
    if (top){ g_co0 = NULL; g_par = NULL; g_pipe = 0; } else g_co0 = &PARENT;
    ret = pt_expand(g_h, g_co0, g_pt, g_cvt, g_var, g_hide, g_ev, g_cb, g_pipe ? &PIPE : NULL, g_new);
    COVER("returns");
    CHECK((ret == 0) == !g_st.bad, "fails exactly when an object cannot be expanded");
    CHECK(ret == 0 || ret == -1, "documented return values");
    if (ret == 0){
        CHECK(g_st.at == cligen_ghost_n && g_st.stage == 0, "every object is expanded");
        if (g_k < cligen_ghost_n){ COVER("followed"); CHECK(g_st.done == 1, "every object is expanded once"); }
        if (cligen_ghost_n > 0) CHECK(g_sorted && g_setset, "the new tree is sorted, and a set if the level is");
    }
}
void h_reference(void)
{
    int ret;
    start();
    g_in_ref = 1;
    ret = pt_expand_reference(g_h, &PIPE, g_cvt, g_var, g_par, g_hide, g_ev, g_cb, g_new);
    COVER("returns");
    CHECK((ret == 0) == (!g_st.bad && !g_oom), "fails exactly when an object cannot be expanded");
    CHECK(ret == 0 || ret == -1, "documented return values");
    CHECK(g_live == 0, "the copy and the labels are freed");
    if (ret == 0){
        CHECK(g_copied, "the tree referred to is copied");
        CHECK(g_st.at == cligen_ghost_n && g_st.stage == 0, "every object is expanded");
        if (g_k < cligen_ghost_n){ COVER("followed"); CHECK(g_st.done == 1, "every object is expanded once"); }
    }
}
#endif
