/* C07: copies of variables and vectors. */
#define VH_PAD
#define VH_TEXT_ID
#include "cvh.h"
#include "vhalloc.h"
#include "cligen_cv.c"
#include "cligen_cvec.c"

/* a text of the harness: owned memory, accounted for */
static char *txt(char id)
{
    IN(_Bool, present);
    if (!present) return NULL;
    vh_reliable = 1;
    char *p = vh_malloc(2);
    vh_reliable = 0;
    p[0] = id; p[1] = '\0';
    return p;
}
static void any(cg_var *v)
{
    IN(uint8_t, t); IN(char, c); IN(char, f); IN(uint64_t, x0); IN(uint64_t, x1); IN(uint8_t, x2);
    memset(v, 0, sizeof(*v));
    t %= CGV_EMPTY + 1;
    v->var_type = t; v->var_const = c; v->var_flag = f;
    v->var_name = txt('n'); v->var_show = txt('s');
    if (cv_isstring(t)) v->var_string = txt('t');
    else if (t == CGV_URL){
        v->var_urlproto = txt('1'); v->var_urladdr = txt('2'); v->var_urlpath = txt('3');
        v->var_urluser = txt('4'); v->var_urlpasswd = txt('5');
    }
    else {
        memcpy((char*)&v->u, &x0, 8); memcpy((char*)&v->u + 8, &x1, 8); ((char*)&v->u)[16] = x2;
    }
}
/* the same text, in different memory */
static _Bool cpy(char *a, char *b)
{
    if (a == NULL || b == NULL) return a == b;
    return a != b && a[0] == b[0] && a[1] == b[1];
}
static _Bool alive(char *a, char id){ return a == NULL || (a[0] == id && a[1] == '\0'); }
static _Bool bytes(cg_var *a, cg_var *b)
{
    IN(uint8_t, at);
    at %= 40;
    return ((char*)&a->u)[at] == ((char*)&b->u)[at];
}
static _Bool copied(cg_var *a, cg_var *b)
{
    if (a->var_type != b->var_type || a->var_const != b->var_const || a->var_flag != b->var_flag) return 0;
    if (!cpy(a->var_name, b->var_name) || !cpy(a->var_show, b->var_show)) return 0;
    if (cv_isstring(a->var_type)) return cpy(a->var_string, b->var_string);
    if (a->var_type == CGV_URL)
        return cpy(a->var_urlproto, b->var_urlproto) && cpy(a->var_urladdr, b->var_urladdr) && cpy(a->var_urlpath, b->var_urlpath) &&
            cpy(a->var_urluser, b->var_urluser) && cpy(a->var_urlpasswd, b->var_urlpasswd);
    return bytes(a, b);
}
/* a is still what was saved in e, its texts intact */
static _Bool intact(cg_var *a, cg_var *e)
{
    if (a->var_type != e->var_type || a->var_const != e->var_const || a->var_flag != e->var_flag ||
        a->var_name != e->var_name || a->var_show != e->var_show || !bytes(a, e)) return 0;
    if (!alive(a->var_name, 'n') || !alive(a->var_show, 's')) return 0;
    if (cv_isstring(a->var_type)) return alive(a->var_string, 't');
    if (a->var_type == CGV_URL)
        return alive(a->var_urlproto, '1') && alive(a->var_urladdr, '2') && alive(a->var_urlpath, '3') &&
            alive(a->var_urluser, '4') && alive(a->var_urlpasswd, '5');
    return 1;
}
static _Bool zeroed(cg_var *a, int type)
{
    cg_var z;
    memset(&z, 0, sizeof(z));
    return a->var_type == type && !a->var_name && !a->var_show && !a->var_const && !a->var_flag && bytes(a, &z);
}
void h_cp(void)
{
    cg_var a, b, e; int r; long own;
    vh_live = 0; vh_reliable = 0;
    any(&a); memcpy(&e, &a, sizeof(a)); own = vh_live;
    memset(&b, 0x55, sizeof(b));
    r = cv_cp(&b, &a);
    COVER("returns");
    CHECK(r == 0 || r == -1, "documented return values");
    CHECK(intact(&a, &e), "original untouched");
    if (r == 0){
        COVER("copied");
        CHECK(copied(&b, &a), "copy equal and independent");
        CHECK(a.var_type != CGV_VOID || b.var_void == a.var_void, "pointer value copied");
    }
    else {
        COVER("no memory");
        CHECK(vh_live == own, "nothing kept when no memory");
    }
    cv_reset(&b);
    CHECK(vh_live == own, "reset releases everything the copy owns");
    CHECK(zeroed(&b, e.var_type), "reset leaves an empty variable of the type");
    CHECK(intact(&a, &e), "original untouched by release of the copy");
    cv_reset(&a);
    CHECK(vh_live == 0, "reset releases everything");
    cv_reset(&a);
    CHECK(vh_live == 0, "reset twice is harmless");
}
void h_dup(void)
{
    cg_var a, *b, e; long own;
    vh_live = 0; vh_reliable = 0;
    any(&a); memcpy(&e, &a, sizeof(a)); own = vh_live;
    b = cv_dup(&a);
    COVER("returns");
    CHECK(intact(&a, &e), "original untouched");
    if (b != NULL){
        COVER("copied");
        CHECK(copied(b, &a), "copy equal and independent");
        cv_reset(&a);                   /* the original goes first */
        CHECK(alive(b->var_name, 'n') && alive(b->var_show, 's'), "copy outlives the original");
        if (cv_isstring(b->var_type)) CHECK(alive(b->var_string, 't'), "copied text outlives the original");
        cv_free(b);
    }
    else {
        COVER("no memory");
        CHECK(vh_live == own, "nothing kept when no memory");
        cv_reset(&a);
    }
    CHECK(vh_live == 0, "everything released");
    cv_free(NULL);
    IN(uint8_t, t);
    t %= CGV_EMPTY + 1;
    b = cv_new(t);
    CHECK(b == NULL || zeroed(b, t), "new variable is empty");
    cv_free(b);
    CHECK(vh_live == 0, "everything released");
}
void h_append(void)
{
    cg_var a, *b, e; long own; cvec *v;
    vh_live = 0; vh_reliable = 1;
    v = cvec_new(0);
    vh_reliable = 0;
    any(&a); memcpy(&e, &a, sizeof(a)); own = vh_live;
    b = cvec_append_var(v, &a);
    COVER("returns");
    CHECK(intact(&a, &e), "original untouched");
    if (b){
        COVER("appended");
        CHECK(cvec_len(v) == 1 && b == cvec_i(v, 0) && copied(b, &a), "copy appended, equal and independent");
    }
    else {
        COVER("no memory");
        CHECK(cvec_len(v) == 0 && vh_live <= own, "nothing appended and nothing kept");
    }
    cv_reset(&a);
    cvec_free(v);
    CHECK(vh_live == 0, "everything released");
}
#ifdef VH_PROOF
/* cvec_add and cvec_del by contract (shown in C02), on the vector of h_append */
cg_var *add_contract(cvec *v, enum cv_type t)
{
    cg_var *c = vh_malloc(sizeof(*c));
    if (c == NULL) return NULL;
    memset(c, 0, sizeof(*c)); c->var_type = t;
    v->vr_vec = c; v->vr_len = 1;
    return c;
}
int del_contract(cvec *v, cg_var *c)
{
    if (v->vr_len == 1 && c == v->vr_vec){ v->vr_len = 0; vh_free(v->vr_vec); v->vr_vec = NULL; }
    return v->vr_len;
}
#endif
/*---- vectors of any length: cv_cp and cv_reset by contract ----*/
#ifdef VH_PROOF
static cvec *g_old; static cg_var *g_new; static int g_n, g_k;
struct st { long at; int cp, rs; } g_st_, *g_st;
cg_var *each_contract(cvec *v, cg_var *prev)
{
    if (v == NULL) return NULL;
    if (prev == NULL) g_st->at = 0;
    __CPROVER_assert(prev == NULL || (g_st->at > 0 && g_st->at <= v->vr_len && prev == &v->vr_vec[g_st->at - 1]), "CHECK:iterates from an element");
    if (g_st->at >= v->vr_len) return NULL;
    g_st->at++;
    return &v->vr_vec[g_st->at - 1];
}
int cp_contract(cg_var *n, cg_var *o)
{
    _Bool fail;
    __CPROVER_assert(o == &g_old->vr_vec[g_st->at - 1], "CHECK:copies the elements in order");
    if (g_st->at - 1 == g_k){
        g_st->cp++;
        __CPROVER_assert(__CPROVER_POINTER_OFFSET(n) == g_k * sizeof(cg_var) && !__CPROVER_same_object(n, o), "CHECK:copies to the same place in the new vector");
    }
    return fail ? -1 : 0;
}
int reset_contract(cg_var *c)
{
    if (__CPROVER_POINTER_OFFSET(c) == g_k * sizeof(cg_var)) g_st->rs++;
    return 0;
}
static void mkv(void)
{
    int n, k;
    ASSUME(n >= 0 && n < (1 << 28) && k >= 0 && (n == 0 ? k == 0 : k < n));
    vh_reliable = 1; vh_live = 0;
    g_old = vh_malloc(sizeof(*g_old));
    g_old->vr_vec = NULL; g_old->vr_len = n; g_old->vr_name = txt('n');
    if (n){ g_old->vr_vec = malloc(n * sizeof(cg_var)); ASSUME(g_old->vr_vec != NULL); }
    vh_reliable = 0;
    g_n = n; g_k = k; cligen_ghost_k = k;
    g_st = &g_st_; g_st->at = 0; g_st->cp = 0; g_st->rs = 0; cligen_ghost_state = g_st;
}
void h_vdup(void)
{
    cvec *v; long own;
    mkv(); own = vh_live;
    v = cvec_dup(g_old);
    COVER("returns");
    if (v){
        COVER("copied");
        CHECK(v != g_old && v->vr_len == g_n && g_old->vr_len == g_n, "as many elements");
        CHECK(cpy(v->vr_name, g_old->vr_name), "name copied");
        CHECK(g_n == 0 || v->vr_vec != g_old->vr_vec, "elements of its own");
        CHECK(g_st->cp == (g_n > 0) && g_st->rs == 0, "every element copied exactly once");
    }
    else {
        COVER("no memory");
        CHECK(vh_live == own, "nothing kept when no memory");
        CHECK(g_st->cp <= g_st->rs && g_st->rs <= 1, "every element copied is released, once");
    }
    CHECK(cvec_dup(NULL) == NULL, "no vector, no copy");
}
void h_vreset(void)
{
    mkv();
    cvec_free(g_old);
    COVER("returns");
    CHECK(vh_live == 0, "vector and name released");
    CHECK(g_st->rs == (g_n > 0), "every element released exactly once");
    cvec_free(NULL);
    cvec_reset(NULL);
}
#else
static cvec *some(void)
{
    IN(uint8_t, n); cvec *v;
    n %= 3;
    vh_reliable = 1;
    v = cvec_new(n);
    v->vr_name = txt('n');
    for (int i = 0; i < n; i++) any(&v->vr_vec[i]);
    vh_reliable = 0;
    return v;
}
void h_vdup(void)
{
    cvec *a, *b; long own; cg_var e[2]; int i;
    vh_live = 0; vh_reliable = 0;
    a = some(); own = vh_live;
    for (i = 0; i < a->vr_len; i++) memcpy(&e[i], &a->vr_vec[i], sizeof(e[i]));
    b = cvec_dup(a);
    if (b){
        CHECK(b->vr_len == a->vr_len, "as many elements");
        CHECK(cpy(b->vr_name, a->vr_name), "name copied");
        for (i = 0; i < a->vr_len; i++) CHECK(copied(&b->vr_vec[i], &a->vr_vec[i]), "element copied");
        cvec_free(b);
    }
    CHECK(vh_live == own, "nothing kept when no memory");
    for (i = 0; i < a->vr_len; i++) CHECK(intact(&a->vr_vec[i], &e[i]), "original untouched");
    cvec_free(a);
    CHECK(vh_live == 0, "vector and name released");
}
void h_vreset(void)
{
    cvec *a;
    vh_live = 0; vh_reliable = 0;
    a = some();
    cvec_reset(a);
    CHECK(a->vr_len == 0 && a->vr_vec == NULL && a->vr_name == NULL, "reset to an empty vector");
    vh_free(a);
    CHECK(vh_live == 0, "vector and name released");
}
#endif
