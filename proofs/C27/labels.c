/* C27: labels and filters. A vector of labels of any length, seen through cvec_each's contract: element k, an
 * arbitrary one, is followed; all others are arbitrary each time. */
#include "cvh.h"
#undef cligen_reason
#include "cligen_syntax.h"
#include "cligen_expand.h"
#define g_k ((long)cligen_ghost_k)
void *cligen_ghost_node[3];
#ifdef VH_PROOF
static struct { long at; int done; int bad; cg_var cur; cg_var added; int setadd; } g_st;
#define CUR_K (g_st.at - 1 == g_k)
static cvec *g_v, *g_set; static _Bool g_knamed, g_keq, g_kpre, g_kin; static char g_label[2], g_names[16];
static int g_what;
enum {FILTER, FIND, ADD, EXPAND};
cg_var *cvec_each(cvec *cvv, cg_var *prev)
{
    _Bool named;
    CHECK(cvv == g_v, "the labels");
    CHECK(prev == (g_st.at == 0 ? NULL : &g_st.cur), "one after the other");
    if (cvv == NULL || g_st.at == cligen_ghost_n) return NULL;
    g_st.at++;
    if (CUR_K) named = g_knamed;
    g_st.cur.var_name = named ? g_names : NULL;
    if (CUR_K && (!named || g_what == FILTER || g_what == EXPAND)) g_st.done = 1;
    return &g_st.cur;
}
int co_flags_get(cg_obj *co, uint32_t f){ return co->co_flags & f ? 1 : 0; }
char *cv_name_get(cg_var *cv){ return cv ? cv->var_name : NULL; }
/* FILTER: k is the label looked for or not */
static int x_strcmp(const char *a, const char *b)
{
    int r;
    CHECK((a == g_names && b == g_label) || (b == g_names && a == g_label), "the name is compared with the label");
    if (CUR_K) r = g_keq ? 0 : 1;
    if (r == 0) g_st.bad = 1;
    return r;
}
static int x_strncmp(const char *a, const char *b, size_t n)
{
    int r;
    CHECK(a != NULL && b != NULL && (a == g_names || b == g_names), "the name is compared with the prefix");
    const char *p = a == g_names ? b : a;
    CHECK(n == 8 && p[0] == '@' && p[1] == 'r' && p[2] == 'e' && p[3] == 'm' && p[4] == 'o' && p[5] == 'v' && p[6] == 'e' && p[7] == ':', "the prefix of labels to remove");
    if (CUR_K) r = g_kpre ? 0 : 1;
    g_st.setadd = r == 0;
    if (CUR_K && r != 0) g_st.done = 1;
    return r;
}
/* a set of labels */
cg_var *cvec_find(cvec *cvv, const char *name)
{
    _Bool in;
    CHECK(cvv == g_set, "the labels found so far");
    CHECK(g_st.setadd && name == g_names + 8, "the label behind the prefix");
    if (CUR_K){ in = g_kin; if (in) g_st.done = 1; }
    return in ? &g_st.added : NULL;
}
cg_var *cvec_add(cvec *cvv, enum cv_type t)
{
    _Bool nomem;
    CHECK(cvv == g_set, "added to the labels found so far");
    g_st.added.var_name = NULL;
    if (nomem){ g_st.bad = 1; return NULL; }
    return &g_st.added;
}
char *cv_name_set(cg_var *cv, const char *name)
{
    _Bool nomem;
    CHECK(cv == &g_st.added && g_st.setadd && name == g_names + 8, "the label behind the prefix is added");
    if (nomem){ g_st.bad = 1; return NULL; }
    if (CUR_K) g_st.done = 1;
    return (char*)name;
}
char cv_bool_set(cg_var *cv, char x){ return x; }
cg_var *cvec_append_var(cvec *cvv, cg_var *cv)
{
    _Bool nomem;
    CHECK(cvv == g_set && cv == &g_st.cur, "the label is added");
    if (nomem){ g_st.bad = 1; return NULL; }
    if (CUR_K) g_st.done = 1;
    return &g_st.added;
}
static cvec *g_dup;
cvec *cvec_dup(cvec *v){ CHECK(v == g_v, "copy of the labels"); return g_dup; }
cvec *co_filter_set(cg_obj *co, cvec *v){ CHECK(v == g_v, "copy of the labels"); co->co_filter = g_dup; return g_dup; }
int cvec_len(cvec *v){ return v == NULL ? 0 : v == g_v ? cligen_ghost_n : v == g_set ? g_what : 0; }
static cvec *g_own, *g_par; static _Bool g_kown, g_kpar; static int g_ownlen, g_parlen;
int m_isfilter(cvec *cvv, char *label)
{
    _Bool r;
    CHECK(cvv != NULL, "a filter");
    if (g_what == ADD){
        CHECK(cvv == g_set && label == g_names, "the label is looked for among the filtered ones");
        if (CUR_K){ r = g_kin; if (r) g_st.done = 1; }
        return r;
    }
    CHECK(label == g_names && label != NULL, "the label of the object");
    CHECK(cvv == g_own || cvv == g_par, "filtered by the object or its parent");
    if (CUR_K) r = cvv == g_own ? g_kown : g_kpar;
    if (r) g_st.bad = 1;
    return r;
}
#define strcmp x_strcmp
#define strncmp x_strncmp
#endif
#include "cligen_expand.c"
#undef strcmp
#undef strncmp
#ifdef VH_PROOF
static void start(int what)
{
    IN(unsigned long, k); IN(uint32_t, n); IN(_Bool, none);
    ASSUME(k < (1ul << 40)); ASSUME(n < (1u << 30));
    g_what = what;
    g_v = none && what != FILTER ? NULL : malloc(8); ASSUME(none || g_v != NULL);
    if (g_v == NULL) n = 0;
    cligen_ghost_k = k; cligen_ghost_n = n; cligen_ghost_state = &g_st; cligen_ghost_node[0] = &g_st.cur;
    g_st.at = 0; g_st.done = g_st.bad = 0; g_st.setadd = 0; cligen_ghost_holds = 0;
    IN(_Bool, kn); IN(_Bool, ke); IN(_Bool, kp); IN(_Bool, ki);
    g_knamed = kn; g_keq = ke; g_kpre = kp; g_kin = ki;
}
#define K_IN (g_k < cligen_ghost_n)
#else
/* a vector of at most 3 labels out of a few */
static const char *const TXT[] = {"a", "b", "@remove:a", "@remove:b", "@remove:", "@add:a", "@remove", NULL};
static cvec *labels(int max)
{
    cvec *v = cvec_new(0); ASSUME(v != NULL);
    IN(uint8_t, n); n %= max + 1;
    for (int i = 0; i < n; i++){
        IN(uint8_t, t);
        cg_var *cv = cvec_add(v, CGV_STRING); ASSUME(cv != NULL);
        if (TXT[t & 7]) cv_name_set(cv, TXT[t & 7]);
    }
    return v;
}
static _Bool has(cvec *v, const char *t)
{
    for (int i = 0; i < cvec_len(v); i++){ char *s = cv_name_get(cvec_i(v, i)); if (s && t && strcmp(s, t) == 0) return 1; }
    return 0;
}
#endif
void h_filter(void)
{
    int ret;
#ifdef VH_PROOF
    start(FILTER);
    cligen_ghost_holds = g_knamed && g_keq;
    ret = co_isfilter(g_v, g_label);
    COVER("returns");
    if (ret) COVER("filtered");
    CHECK(!(K_IN && g_knamed && g_keq) || ret == 1, "a label among the filter's names is filtered");
    CHECK(ret == 0 || g_st.bad, "a label is filtered only if it is among the filter's names");
#else
    cvec *v = labels(3); IN(uint8_t, t); const char *l = TXT[t % 7];
    ret = co_isfilter(v, (char*)l);
    CHECK((ret == 1) == has(v, l), "a label is filtered exactly when it is among the filter's names");
    cvec_free(v);
#endif
    CHECK(ret == 0 || ret == 1, "documented return values");
}
void h_find(void)
{
    int ret; cg_obj co;
    memset(&co, 0, sizeof(co));
#ifdef VH_PROOF
    start(FIND);
    co.co_cvec = g_v; g_set = malloc(8); ASSUME(g_set != NULL);
    ret = co_find_label_filters(NULL, &co, g_set);
    COVER("returns");
    if (ret == 0) COVER("found");
    CHECK((ret == 0) == !g_st.bad, "fails only out of memory");
    if (ret == 0 && K_IN) CHECK(g_st.done == 1, "every label to be removed is among those found");
#else
    co.co_cvec = labels(3); cvec *s = cvec_new(0); ASSUME(s != NULL);
    ret = co_find_label_filters(NULL, &co, s);
    CHECK(ret == 0, "fails only out of memory");
    for (int t = 0; t < 7; t++){
        char w[16]; snprintf(w, sizeof(w), "@remove:%s", TXT[t]);
        CHECK(has(s, TXT[t]) == has(co.co_cvec, w), "exactly the labels to be removed are found");
    }
    cvec_free(s); cvec_free(co.co_cvec);
#endif
    CHECK(ret == 0 || ret == -1, "documented return values");
}
void h_add(void)
{
    int ret; cg_obj co; IN(_Bool, some);
    memset(&co, 0, sizeof(co));
#ifdef VH_PROOF
    start(ADD);
    g_set = malloc(8); ASSUME(g_set != NULL);
    g_dup = malloc(8);
    co.co_filter = some ? g_set : NULL;
    ret = co_filter_add(&co, g_v);
    COVER("returns");
    if (!some){
        CHECK((ret == 0) == (g_dup != NULL) && co.co_filter == g_dup, "the first filter is a copy");
        return;
    }
    if (ret == 0) COVER("added");
    CHECK((ret == 0) == !g_st.bad, "fails only out of memory");
    CHECK(co.co_filter == g_set, "the labels filtered before still are");
    if (ret == 0 && K_IN) CHECK(g_st.done == 1, "every label is among those filtered");
#else
    cvec *v = labels(3); cvec *old = labels(2); cvec *o2 = cvec_dup(old);
    co.co_filter = some ? o2 : NULL;
    ret = co_filter_add(&co, v);
    CHECK(ret == 0, "fails only out of memory");
    for (int t = 0; t < 7; t++)
        CHECK(has(co.co_filter, TXT[t]) == (has(v, TXT[t]) || (some && has(old, TXT[t]))), "the labels filtered are those of both");
    cvec_free(v); cvec_free(old); cvec_free(o2); if (!some && co.co_filter) cvec_free(co.co_filter);
#endif
    CHECK(ret == 0 || ret == -1, "documented return values");
}
/* expansion of one object */
static cg_obj O, R, N, N2; static parse_tree *g_pt; static int g_subs, g_ins, g_chs, g_fns, g_adds, g_frees; static _Bool g_fail, g_merge; static int g_ev;
static cligen_handle g_h; static cvec *g_var; static cg_callback *g_cb; static int g_tr;
#ifdef VH_PROOF
int m_sub(cg_obj *co0, cg_obj *up, cg_obj **conp)
{
    IN(_Bool, f1);
    CHECK(co0 == &O, "a copy of the object");
    CHECK(*conp == NULL, "no other copy is lost");
    g_subs++;
    if (f1){ g_fail = 1; return -1; }
    N.co_ref = &O;
    *conp = &N;
    return 0;
}
cg_obj *m_insert(parse_tree *pt, cg_obj *co1, int rec)
{
    IN(_Bool, f2);
    CHECK(pt == g_pt && co1 == &N && rec == 0, "the copy is inserted in the new tree");
    g_ins++;
    if (f2){ g_fail = 1; return NULL; }
    return g_merge ? &N2 : &N;
}
int m_free(cg_obj *co, int rec){ CHECK(co == &N && rec == 0, "only the copy is freed"); g_frees++; return 0; }
int m_choice(cg_obj *co, cvec *cvv_filter, parse_tree *pt)
{
    IN(_Bool, f3);
    CHECK(co == &O && cvv_filter == g_par && pt == g_pt, "the choices of the object");
    g_chs++;
    if (f3){ g_fail = 1; return -1; }
    return 0;
}
int m_fn(cligen_handle h, cg_obj *co, cg_obj *up, cvec *var, cvec *flt, cg_callback *cb, int tr, parse_tree *pt)
{
    IN(_Bool, f4);
    CHECK(co == &O && flt == g_par && pt == g_pt && h == g_h && var == g_var && cb == g_cb && tr == g_tr, "the values of the variable");
    g_fns++;
    if (f4){ g_fail = 1; return -1; }
    return 0;
}
int m_filter(cg_obj *co, cvec *flt)
{
    IN(_Bool, f5);
    CHECK(co == (g_merge ? &N2 : &N) && flt == g_par, "the labels filtered by the parent are filtered below the copy");
    CHECK(g_ins == 1, "after it was inserted");
    g_adds++;
    if (f5){ g_fail = 1; return -1; }
    return 0;
}
#endif
void h_expand1(void)
{
    int ret; char m1, m2[8], ch[2];
    IN(int, hide); IN(int, ev); IN(_Bool, hidden); IN(uint8_t, type); IN(_Bool, choice); IN(_Bool, fn); IN(_Bool, own); IN(_Bool, par); IN(int, tr);
    type &= 3;
    memset(&O, 0, sizeof(O)); memset(&N, 0, sizeof(N)); memset(&N2, 0, sizeof(N2));
#ifdef VH_PROOF
    IN(_Bool, merge); IN(_Bool, ko); IN(_Bool, kp2); IN(_Bool, oref); IN(_Bool, mref); IN(int, plen);
    start(EXPAND);
    g_merge = merge ? 1 : 0;
    ASSUME(plen >= 0);
    cvec *v2 = malloc(8), *v3 = malloc(8); ASSUME(v2 && v3);
    g_own = own ? v2 : NULL; g_par = par ? v3 : NULL; g_kown = own && ko; g_kpar = par && kp2;
    cligen_ghost_holds = g_knamed && (g_kown || g_kpar);
    g_pt = (parse_tree*)m2; g_h = &m1; g_var = (cvec*)&m1; g_cb = (cg_callback*)m2; g_tr = tr;
    g_subs = g_ins = g_chs = g_fns = g_adds = g_frees = 0; g_fail = 0;
    O.co_type = type; O.co_cvec = g_v; O.co_filter = g_own; O.co_flags = hidden ? CO_FLAGS_HIDE : 0; O.co_ref = oref ? &R : NULL;
    N2.co_ref = mref ? &R : NULL;
    if (type == CO_VARIABLE){ O.co_choice = choice ? ch : NULL; O.co_expandv_fn = fn ? (void*)&m1 : NULL; }
    ret = pt_expand1_co(g_h, &O, hide, ev, g_var, g_par, g_cb, tr, g_pt);
    COVER("returns");
    _Bool skip = hide && hidden, var = type == CO_VARIABLE;
    CHECK(ret == (g_fail ? -1 : 0), "fails exactly when the copy does");
    CHECK(g_subs + g_chs + g_fns <= 1, "expanded once");
    if (skip) CHECK(g_subs + g_chs + g_fns == 0, "hidden commands are left out");
    if (K_IN && cligen_ghost_holds) CHECK(g_subs + g_chs + g_fns == 0, "filtered commands are left out");
    if (!skip && !g_st.bad){
        COVER("kept");
        CHECK(g_chs == (var && choice), "a choice is replaced by its alternatives");
        CHECK(g_fns == (var && !choice && fn && ev), "a variable with values is replaced by them when asked for");
        CHECK(g_subs == !(var && (choice || fn)), "all others are kept as a copy");
    }
    if (g_subs + g_chs + g_fns > 0) CHECK(!g_st.bad && !skip, "nothing else is left out");
    if (g_subs && !g_fail){
        cg_obj *c = g_merge ? &N2 : &N;
        CHECK(g_ins == 1, "the copy is in the new tree");
        CHECK(g_adds == (g_par != NULL && cvec_len(g_par) > 0), "what the parent filters is filtered below");
        if (!g_merge) CHECK(N.co_ref == (tr ? O.co_ref : &O), "the copy refers to its original");
    }
    CHECK(g_frees == (g_subs && g_ins && g_fail && g_adds == 0), "a copy not inserted is freed");
#else
    cg_obj *co = co_new_only(type); parse_tree *pt = pt_new(); ASSUME(co != NULL && pt != NULL);
    _Bool flt = 0;
    co->co_command = strdup("cmd"); co->co_cvec = labels(3); co->co_filter = own ? labels(2) : NULL;
    if (type == CO_VARIABLE) co->co_vtype = CGV_STRING;
    if (hidden) co->co_flags |= CO_FLAGS_HIDE;
    cvec *pf = par ? labels(2) : NULL;
    for (int t = 0; t < 7; t++) if (has(co->co_cvec, TXT[t]) && ((own && has(co->co_filter, TXT[t])) || (par && has(pf, TXT[t])))) flt = 1;
    ret = pt_expand1_co(NULL, co, hide, ev, NULL, pf, NULL, tr, pt);
    CHECK(ret == 0, "fails only out of memory");
    CHECK(pt_len_get(pt) == !((hide && hidden) || flt), "left out exactly if hidden or filtered");
    if (pt_len_get(pt)){
        cg_obj *c = pt_vec_i_get(pt, 0);
        CHECK(c != co && strcmp(c->co_command, "cmd") == 0 && c->co_type == type, "a copy is kept");
        for (int t = 0; t < 7; t++)
            CHECK(has(c->co_filter, TXT[t]) == ((own && has(co->co_filter, TXT[t])) || (par && has(pf, TXT[t]))), "what the parent filters is filtered below");
    }
    pt_free(pt, 0); co_free(co, 0); if (pf) cvec_free(pf);
#endif
}
