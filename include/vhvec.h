/* A vector of pointers of any length, for proofs: all entries alike but two arbitrary ones, which
 * are followed through the assumed contracts of realloc and memmove. */
#ifndef VHVEC_H
#define VHVEC_H
#ifdef VH_PROOF
static struct vh_ent { long at; void *val; _Bool lost; } vhK, vhM;
static void *vhO;               /* all the others */
static void **vhV;              /* the vector */
static long vhN;                /* entries in it */
static int vh_vec_frees;
/* entries to a value other than those of the vector, pairwise different */
static void **vh_vec(long n, long k, long m, void *kv, void *mv, void *ov)
{
    vhN = n; vhK.at = k; vhM.at = m; vhK.val = kv; vhM.val = mv; vhO = ov;
    vhK.lost = !(0 <= k && k < n); vhM.lost = !(0 <= m && m < n);
    vhV = malloc(n * sizeof(void*));
    ASSUME(vhV != NULL);
    __CPROVER_array_set(vhV, ov);
    if (!vhK.lost) vhV[k] = kv;
    if (!vhM.lost) vhV[m] = mv;
    vh_vec_frees = 0;
    return vhV;
}
static _Bool vh_nomem(void){ _Bool nomem; return nomem; }
static void *vh_vec_realloc(void *q, size_t n)
{
    size_t m; void **p;
    CHECK(q == (void*)vhV || q == NULL, "model of realloc: the vector");
    ASSUME(m < VH_HUGE && n == m * sizeof(void*));
    if (vh_nomem()) return NULL;
    p = malloc(m * sizeof(void*));
    ASSUME(p != NULL);
    if (q != NULL){
        if (!vhK.lost){ if (vhK.at < m) p[vhK.at] = vhK.val; else vhK.lost = 1; }
        if (!vhM.lost){ if (vhM.at < m) p[vhM.at] = vhM.val; else vhM.lost = 1; }
        free(q);
    }
    vhV = p;
    return p;
}
static void vh_move(struct vh_ent *e, void **d, void **s, long m)
{
    void **p;
    if (e->lost) return;
    p = &vhV[e->at];
    if (p >= s && p < s + m) e->at += ((long)__CPROVER_POINTER_OFFSET(d) - (long)__CPROVER_POINTER_OFFSET(s)) / (long)sizeof(void*);
    else if (p >= d && p < d + m) e->lost = 1;
}
static void *vh_vec_memmove(void *d, const void *s, size_t n)
{
    long m;
    CHECK(__CPROVER_same_object(d, vhV) && __CPROVER_same_object(s, vhV), "model of memmove: within the vector");
    ASSUME(m >= 0 && m < VH_HUGE && n == m * sizeof(void*));
    __CPROVER_precondition(__CPROVER_r_ok(s, n), "memmove source region readable");
    __CPROVER_precondition(__CPROVER_w_ok(d, n), "memmove destination region writeable");
    vh_move(&vhK, d, (void**)s, m);
    vh_move(&vhM, d, (void**)s, m);
    __CPROVER_havoc_object(vhV);
    if (!vhK.lost) vhV[vhK.at] = vhK.val;
    if (!vhM.lost) vhV[vhM.at] = vhM.val;
    return d;
}
static void *vh_vec_memcpy(void *d, const void *s, size_t n)
{
    CHECK((char*)d + n <= (char*)s || (char*)s + n <= (char*)d, "regions of memcpy do not overlap");
    return vh_vec_memmove(d, s, n);
}
static void vh_vec_free(void *p)
{
    if (p == (void*)vhV && p != NULL) vh_vec_frees++;
    free(p);
}
#define realloc vh_vec_realloc
#define memmove vh_vec_memmove
#define memcpy vh_vec_memcpy
#define free vh_vec_free
#endif
#endif
