/* C02: the variable vector of cligen_cvec.c as a sequence. */
#define VH_PAD
#include "cvh.h"
#define ISVEC(v) ((v)->vr_len >= 0 && (v)->vr_len < (1 << 28))
static cvec *g_v; static cg_var *g_vec; static int g_n;  /* vector before */
static int g_k; static cg_var g_e;                       /* one element before, g_k < g_n */
static const char *g_name;
static size_t g_moves;

#ifdef VH_PROOF
/* Comparing with the name searched for: a function of the name compared */
int __CPROVER_uninterpreted_cmp(const char *);
int strcmp(const char *a, const char *b)
{
    __CPROVER_assert(b == g_name || a == g_name, "CHECK:compares with the name given");
    return __CPROVER_uninterpreted_cmp(b == g_name ? a : b);
}
#define NAMEMATCH(c) (__CPROVER_uninterpreted_cmp((c)->var_name) == 0)
/* memmove, realloc: any block contents, followed at element g_k and the one after it */
void *memmove(void *d, const void *s, size_t n)
{
    __CPROVER_assert(__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n), "CHECK:memmove within the vector");
    __CPROVER_assert(__CPROVER_same_object(s, g_vec) && __CPROVER_same_object(d, g_vec), "CHECK:memmove of the vector");
    size_t ks = g_k * sizeof(cg_var), os = __CPROVER_POINTER_OFFSET(s), od = __CPROVER_POINTER_OFFSET(d), to;
    _Bool hit = ks + sizeof(cg_var) > od && ks < od + n;
    if (n == 0) return d;
    if (ks >= os && ks + sizeof(cg_var) <= os + n) to = ks - os + od;
    else if (!hit) to = ks;
    else to = -1;
    cg_var keep = g_vec[g_k];
    __CPROVER_havoc_object(g_vec);
    if (to != -1){
        int t; __CPROVER_assume(0 <= t && t < g_n && t * sizeof(cg_var) == to);
        g_vec[t] = keep;
    }
    return d;
}
void *realloc(void *p, size_t n)
{
    _Bool fail; int m;
    __CPROVER_assert(p == g_vec || p == NULL, "CHECK:realloc of the vector");
    if (n == 0){ if (p) free(p); return NULL; }
    if (fail) return NULL;
    __CPROVER_assume(m > 0 && m <= g_n + 2 && m * sizeof(cg_var) == n);
    cg_var *q = malloc(m * sizeof(cg_var));
    __CPROVER_assume(q != NULL);
    if (p != NULL){
        if (g_k < g_n && g_k < m) q[g_k] = g_vec[g_k];
        if (g_k > 0 && g_k < g_n && g_k <= m) q[g_k-1] = g_vec[g_k-1];
        free(p);
    }
    return q;
}
void *memset(void *d, int c, size_t n)
{
    __CPROVER_assert(__CPROVER_w_ok(d, n), "CHECK:memset within an object");
    if (n == sizeof(cg_var) && c == 0){ cg_var z = {0}; *(cg_var*)d = z; }
    else __CPROVER_array_set((char*)d, (char)c);
    return d;
}
#else
#define NAMEMATCH(c) (strcmp((c)->var_name, g_name) == 0)
static char *g_pool[3] = {"", "ab", "a"};
#endif
#define MATCH_find(c) ((c)->var_name ? (g_name != NULL && NAMEMATCH(c)) : g_name == NULL)
#define MATCH_key(c)  ((c)->var_name && NAMEMATCH(c) && (c)->var_const)
#define MATCH_var(c)  ((c)->var_name && NAMEMATCH(c) && !(c)->var_const)

#include "cligen_cv.c"
#undef align4
#define strdup4 strdup4_cvec
#include "cligen_cvec.c"

#ifdef VH_PROOF
/* Executable contract of cvec_each (shown to hold of it in unit index): the element after prev,
 * or the first. Position of prev in the vector: *g_at - 1 */
static long g_at_, *g_at = &g_at_;
cg_var *each_contract(cvec *v, cg_var *prev)
{
    if (v == NULL) return NULL;
    __CPROVER_assert(v == g_v, "CHECK:iterates over the vector");
    if (prev == NULL) *g_at = 0;
    __CPROVER_assert(prev == NULL || (*g_at > 0 && *g_at <= g_n && prev == &g_vec[*g_at - 1]), "CHECK:iterates from an element");
    if (*g_at >= g_n) return NULL;
    (*g_at)++;
    return &g_vec[*g_at - 1];
}
#endif
static void mk(void)
{
    IN(int, n); IN(int, k);
#ifndef VH_PROOF
    n = (unsigned)n % 5; k = (unsigned)k % 5;
#endif
    ASSUME(n >= 0 && n < (1 << 28));
    g_v = malloc(sizeof(*g_v));
    ASSUME(g_v != NULL);
    g_vec = NULL;
    if (n > 0){
        g_vec = malloc(n * sizeof(cg_var)); ASSUME(g_vec != NULL);
#ifndef VH_PROOF
        for (int i = 0; i < n; i++){
            IN(uint8_t, nm); IN(uint8_t, ty); IN(_Bool, cst); IN(uint32_t, x);
            memset(&g_vec[i], 0, sizeof(cg_var));
            g_vec[i].var_name = nm % 4 == 3 ? NULL : g_pool[nm % 4];
            g_vec[i].var_type = ty % (CGV_EMPTY + 1);
            g_vec[i].var_const = cst & 1;
            g_vec[i].var_uint32 = x;
            if (cv_isstring(g_vec[i].var_type)) g_vec[i].var_string = g_pool[x % 3];
        }
#endif
    }
    g_v->vr_vec = g_vec; g_v->vr_len = n; g_v->vr_name = NULL;
    g_n = n; g_k = k;
#ifdef VH_PROOF
    g_at_ = 0; g_at = &g_at_; cligen_ghost_state = g_at;
#endif
    ASSUME(n == 0 ? k == 0 : (k >= 0 && k < n));
    cligen_ghost_k = k;
    if (n > 0) g_e = g_vec[k];
}
/* element a is element e, unchanged: head and every byte of the value */
static _Bool same(cg_var *a, cg_var *e)
{
    IN(uint8_t, at);
    at %= 40; /* the bytes of the value */
    cg_var l = *a;
    return l.var_type == e->var_type && l.var_name == e->var_name && l.var_show == e->var_show &&
        l.var_const == e->var_const && l.var_flag == e->var_flag && ((unsigned char*)&l.u)[at] == ((unsigned char*)&e->u)[at];
}
void h_add(void)
{
    IN(uint8_t, t); cg_var z, *r;
    mk();
    t %= CGV_EMPTY + 1;
    memset(&z, 0, sizeof(z)); z.var_type = t;
    r = cvec_add(g_v, t);
    COVER("returns");
    if (r == NULL){
        COVER("no memory");
        CHECK(cvec_len(g_v) == g_n && g_v->vr_vec == g_vec, "vector unchanged when no memory");
    }
    else {
        COVER("added");
        CHECK(cvec_len(g_v) == g_n + 1, "one longer");
        CHECK(r == cvec_i(g_v, g_n), "the new one is last");
        CHECK(same(r, &z), "a zeroed element of the type given");
    }
    if (g_n > 0) CHECK(same(cvec_i(g_v, g_k), &g_e), "the others in place");
    CHECK(cvec_add(NULL, t) == NULL, "no vector, no element");
}
static void deleted(int i)
{
    CHECK(cvec_len(g_v) == g_n - 1, "one shorter");
    if (g_k < i) CHECK(same(cvec_i(g_v, g_k), &g_e), "those before stay");
    if (g_k > i) CHECK(same(cvec_i(g_v, g_k - 1), &g_e), "those after close the gap");
}
static void kept(void)
{
    CHECK(cvec_len(g_v) == g_n, "length kept");
    if (g_n > 0) CHECK(same(cvec_i(g_v, g_k), &g_e), "elements kept");
}
void h_del_i(void)
{
    IN(int, i); int r;
    mk();
    r = cvec_del_i(g_v, i);
    COVER("returns");
    if (i < 0 || i >= g_n){
        COVER("outside");
        CHECK(r == -1, "outside the vector: refused");
        kept();
    }
    else {
        COVER("inside");
        CHECK(r == g_n - 1, "returns the new length");
        deleted(i);
    }
    CHECK(cvec_del_i(NULL, i) == -1, "no vector");
}
void h_del(void)
{
    IN(int, i); int r; cg_var *p, stray;
    mk();
    cligen_ghost_j = i;
    if (i >= 0 && i < g_n) p = &g_vec[i];
    else p = i & 1 ? NULL : &stray;
    cligen_ghost_holds = i >= 0 && i < g_n;
    r = cvec_del(g_v, p);
    COVER("returns");
    if (i >= 0 && i < g_n){
        COVER("inside");
        CHECK(r == g_n - 1, "returns the new length");
        deleted(i);
    }
    else {
        COVER("not an element");
        CHECK(r == g_n, "returns the length");
        kept();
    }
    CHECK(cvec_del(NULL, p) == 0, "no vector");
}
void h_index(void)
{
    IN(int, i); IN(int, j); cg_var *p, *q;
    mk();
    p = cvec_i(g_v, i);
    COVER("returns");
    CHECK((p != NULL) == (i >= 0 && i < g_n), "an element exactly for an index inside");
    CHECK(p == NULL || p == &g_vec[i], "the i:th element");
    CHECK(cvec_len(g_v) == g_n && cvec_len(NULL) == 0 && cvec_i(NULL, i) == NULL, "length");
    /* iteration: first, then the one after, until the last */
    CHECK(cvec_each(g_v, NULL) == (g_n > 0 ? g_vec : NULL), "starts with the first");
    CHECK(cvec_each1(g_v, NULL) == (g_n > 1 ? g_vec + 1 : NULL), "starts with the second");
    CHECK(cvec_next(g_v, NULL) == (g_n > 0 ? g_vec : NULL), "next: starts with the first");
    CHECK(cvec_each(NULL, NULL) == NULL && cvec_each1(NULL, NULL) == NULL && cvec_next(NULL, NULL) == NULL, "nothing in no vector");
    if (p){
        q = i + 1 < g_n ? &g_vec[i + 1] : NULL;
        CHECK(cvec_each(g_v, p) == q, "each: the one after, or none");
        CHECK(cvec_each1(g_v, p) == q, "each1: the one after, or none");
        CHECK(cvec_next(g_v, p) == q, "next: the one after, or none");
    }
    /* string of the i:th */
    if (p == NULL || cv_isstring(p->var_type))
        CHECK(cvec_i_str(g_v, i) == (p ? p->var_string : NULL), "string of the i:th element");
    kept();
    /* emptied by deletion: nothing to iterate */
    if (g_n == 1){
        cvec_del_i(g_v, 0);
        CHECK(cvec_each(g_v, NULL) == NULL && cvec_next(g_v, NULL) == NULL && cvec_i(g_v, 0) == NULL, "nothing in an emptied vector");
    }
}
#define FIND_(a, b) a##b
#define FIND(a, b) FIND_(a, b)
#ifndef WHICH
#define WHICH find
#define CALL cvec_find
#endif
#define MATCHES FIND(MATCH_, WHICH)
static void mkname(void)
{
    IN(uint8_t, which);
#ifdef VH_PROOF
    g_name = malloc(1);
    ASSUME(g_name != NULL);
#else
    g_name = g_pool[which % 3];
#endif
#ifdef NULLNAME
    if (which & 128) g_name = NULL;
#endif
    cligen_ghost_holds = g_n > 0 && MATCHES(&g_vec[g_k]);
}
void h_find(void)
{
    cg_var *r; int i;
    mk(); mkname();
#ifdef NULLNAME
    r = cvec_find(g_v, g_name);
#else
    r = CALL(g_v, g_name);
#endif
    COVER("returns");
    if (r == NULL){
        COVER("none");
        CHECK(g_n == 0 || !cligen_ghost_holds, "none only when no element matches");
    }
    else {
        COVER("found");
        i = r - g_vec;
        CHECK(i >= 0 && i < g_n && r == &g_vec[i], "an element of the vector");
        CHECK(MATCHES(r), "that matches");
        CHECK(g_k >= i || !cligen_ghost_holds, "and none before it does");
    }
    kept();
    CHECK(CALL(NULL, g_name) == NULL, "nothing in no vector");
}
void h_find_str(void)
{
    char *r; cg_var *c;
    mk(); mkname();
    c = cvec_find(g_v, g_name);
    r = cvec_find_str(g_v, g_name);
    COVER("returns");
    if (r) COVER("found");
    CHECK(r == (c && cv_isstring(c->var_type) ? c->var_string : NULL), "string of the first match");
    kept();
}
