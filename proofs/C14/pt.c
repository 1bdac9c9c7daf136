/* C14: list of nodes of a command tree.
 * Proof: one operation on a list of any length (entries alike but two arbitrary ones).
 * Other readings: sequences of operations against an array. */
#include "cvh.h"
#include "vhvec.h"

#ifdef VH_PROOF
static struct { long at; int k_frees, m_frees, seen; } C;
#define seen C.seen
#else
#include "vhalloc.h"
#endif
#define MAXOBJ 64
static cg_obj OBJ[MAXOBJ];
static int frees[MAXOBJ];
#ifdef VH_PROOF
int co_free(cg_obj *co, int recursive)
{
    if (seen < 9) seen++;
    if (co == vhK.val) C.k_frees++;
    if (co == vhM.val && C.m_frees < 9) C.m_frees++;
    return 0;
}
#else
int co_free(cg_obj *co, int recursive)
{
    CHECK(co >= OBJ && co < OBJ + MAXOBJ, "only nodes of the list released");
    frees[co - OBJ]++;
    CHECK(frees[co - OBJ] == 1, "node released once");
    return 0;
}
#endif
int co_copy(cg_obj *a, cg_obj *b, uint32_t f, cg_obj **c){ return -1; }
int co_eq(cg_obj *a, cg_obj *b){ return 0; }
parse_tree *co_pt_get(cg_obj *co){ return NULL; }
int co_callback_copy(cg_callback *a, cg_callback **b){ return -1; }
#ifndef co_flags_get
int co_flags_get(cg_obj *co, uint32_t f){ return 0; }
void co_flags_set(cg_obj *co, uint32_t f){ }
void co_flags_reset(cg_obj *co, uint32_t f){ }
#endif
int co_stats(cg_obj *co, uint64_t *n, size_t *s){ return 0; }
#include "cligen_parsetree.c"
#ifdef VH_PROOF
static parse_tree *T; static int N, Kp, Mp;
static void tree(void)
{
    IN(int, n); IN(int, k); IN(int, m); IN(_Bool, kn); IN(_Bool, on);
    ASSUME(0 <= n && n <= (1 << 28) && 0 <= k && 0 <= m && k < (1 << 28) && m < (1 << 28) && k != m);
    N = n; Kp = k; Mp = m;
    T = pt_new();
    ASSUME(T != NULL);
    T->pt_vec = NULL; T->pt_len = n;
    IN_TO(char, T->pt_set);
    vhV = NULL; vhK.lost = vhM.lost = 1; vhK.val = &OBJ[1]; vhM.val = &OBJ[2]; vhK.at = k; vhM.at = m; vh_vec_frees = 0; vhN = n;
    if (n > 0) T->pt_vec = (cg_obj**)vh_vec(n, k, m, &OBJ[1], &OBJ[2], on ? NULL : &OBJ[3]);
    C.at = 0; C.k_frees = C.m_frees = 0; seen = 0;
    cligen_ghost_k = k;
    cligen_ghost_state = &C;
    cligen_ghost_holds = k < n;
}
/* entry x is at position p, still owned */
static _Bool at(struct vh_ent *e, long p){ return !e->lost && e->at == p && (void**)T->pt_vec == vhV && T->pt_vec[p] == e->val; }
static _Bool kept(int i, int step, int from)
{
    return (Kp >= N || Kp == i || at(&vhK, Kp < from ? Kp : Kp + step)) && (Mp >= N || Mp == i || at(&vhM, Mp < from ? Mp : Mp + step));
}
void h_get(void)
{
    IN(int, i); cg_obj *co; _Bool in;
    tree();
    co = pt_vec_i_get(T, i);
    COVER("returns");
    in = 0 <= i && i < N;
    CHECK(in || co == NULL, "nothing outside the list");
    if (in) CHECK(co == (i == Kp ? vhK.val : i == Mp ? vhM.val : vhO), "the node at the position");
    CHECK(kept(-1, 0, 0) && pt_len_get(T) == N && seen == 0, "list unchanged");
    CHECK(pt_vec_i_get(NULL, i) == NULL, "no list: nothing");
}
void h_clear(void)
{
    IN(int, i); int r; _Bool in;
    tree();
    r = pt_vec_i_clear(T, i);
    COVER("returns");
    in = 0 <= i && i < N;
    CHECK(r == (in ? 0 : -1), "refused outside the list");
    CHECK(kept(in ? i : -1, 0, 0) && pt_len_get(T) == N && seen == 0, "other nodes kept, nothing released");
    if (in) CHECK(T->pt_vec[i] == NULL, "cleared");
}
void h_insert(void)
{
    IN(int, i); int r; _Bool in;
    tree();
    r = pt_vec_i_insert(T, i, &OBJ[0]);
    COVER("returns");
    in = 0 <= i && i <= N;
    CHECK(seen == 0, "nothing released");
    if (r < 0){
        COVER("refused");
        CHECK(kept(-1, 0, 0) && pt_len_get(T) == N, "list unchanged when refused");
    }
    else {
        COVER("inserted");
        CHECK(r == 0 && in, "refused outside the list");
        CHECK(pt_len_get(T) == N + 1 && T->pt_vec[i] == &OBJ[0], "inserted at the position");
        CHECK(kept(-1, 1, i), "others in order");
    }
}
void h_append(void)
{
    int r;
    tree();
    r = pt_vec_append(T, &OBJ[0]);
    COVER("returns");
    CHECK(r == 0 || r == -1, "documented return values");
    if (r == 0) CHECK(pt_len_get(T) == N + 1 && T->pt_vec[N] == &OBJ[0], "appended");
    CHECK(kept(-1, 0, 0) && seen == 0 && (r == 0 || pt_len_get(T) == N), "others kept");
}
void h_delete(void)
{
    IN(int, i); int r; _Bool in;
    tree();
    r = pt_vec_i_delete(T, i, 1);
    COVER("returns");
    in = 0 <= i && i < N;
    CHECK(r == (in ? 0 : -1), "refused outside the list");
    if (in){
        COVER("deleted");
        CHECK(pt_len_get(T) == N - 1, "one less");
        CHECK(kept(i, -1, i), "others in order");
        CHECK(i == Mp || C.k_frees == (i == Kp), "exactly the node deleted is released (k)");
        CHECK(C.m_frees == (i == Mp), "exactly the node deleted is released (m)");
        CHECK(seen <= 1, "one node released at most");
    }
    else CHECK(kept(-1, 0, 0) && pt_len_get(T) == N && seen == 0, "list unchanged when refused");
}
void h_trunc(void)
{
    IN(int, len); int r; _Bool in;
    tree();
    cligen_ghost_holds = Kp < N && Kp >= len;
    r = pt_trunc(T, len);
    COVER("returns");
    in = 1 <= len && len <= N;
    CHECK(r == (in ? 0 : -1), "refused outside the list");
    if (in){
        COVER("truncated");
        CHECK(pt_len_get(T) == len, "length asked for");
        CHECK(Kp >= len || at(&vhK, Kp), "nodes before it kept");
        CHECK(C.k_frees == (Kp < N && Kp >= len), "exactly the removed nodes released, once");
    }
    else CHECK(kept(-1, 0, 0) && pt_len_get(T) == N && seen == 0, "list unchanged when refused");
}
void h_free(void)
{
    tree();
    CHECK(pt_free(T, 0) == 0, "freed");
    COVER("returns");
    CHECK(C.k_frees == (Kp < N), "every node released once");
    CHECK(vh_vec_frees == (N > 0), "vector released once");
}
#else
#ifdef VH_NATIVE
#define OPS 40
#else
#define OPS 3
#endif
static cg_obj *ref[MAXOBJ]; static int n;
static int next, freed_want[MAXOBJ];
void h_ops(void)
{
    parse_tree *pt; int op, i, r;
    vh_live = 0; vh_reliable = 1;
    memset(frees, 0, sizeof(frees)); memset(freed_want, 0, sizeof(freed_want));
    n = 0; next = 0;
    pt = pt_new();
    CHECK(pt != NULL && pt_len_get(pt) == 0 && pt_vec_i_get(pt, 0) == NULL, "new list is empty");
    for (op = 0; op < OPS; op++){
        IN(uint8_t, o); IN(int8_t, a);
        IN(_Bool, scarce);
        vh_reliable = !scarce;
        if (a > 8) a = a % (n + 2);
        switch (o % 6){
        case 0: case 1: case 2:
            if (o % 6 == 0) a = n;
            r = o % 6 == 0 ? pt_vec_append(pt, &OBJ[next]) : pt_vec_i_insert(pt, a, &OBJ[next]);
            CHECK(r == 0 || r == -1, "documented return values");
            if (r < 0){ CHECK(scarce || a < 0 || a > n, "refused for no reason"); break; }
            CHECK(a >= 0 && a <= n, "inserting outside the list refused");
            for (i = n; i > a; i--) ref[i] = ref[i-1];
            ref[a] = &OBJ[next++];
            n++;
            break;
        case 3:
            r = pt_vec_i_delete(pt, a, 1);
            CHECK(r == (a >= 0 && a < n ? 0 : -1), "deleting outside the list refused");
            if (r < 0) break;
            if (ref[a]) freed_want[ref[a] - OBJ] = 1;
            for (i = a; i + 1 < n; i++) ref[i] = ref[i+1];
            n--;
            break;
        case 4:
            r = pt_vec_i_clear(pt, a);
            CHECK(r == (a >= 0 && a < n ? 0 : -1), "clearing outside the list refused");
            if (r == 0) ref[a] = NULL;
            break;
        case 5:
            r = pt_trunc(pt, a);
            CHECK(r == (a >= 1 && a <= n ? 0 : -1), "truncating outside the list refused");
            if (r == 0){
                for (i = a; i < n; i++) if (ref[i]) freed_want[ref[i] - OBJ] = 1;
                n = a;
            }
            break;
        }
        CHECK(pt_len_get(pt) == n, "length");
        for (i = 0; i < n; i++) CHECK(pt_vec_i_get(pt, i) == ref[i], "nodes in order");
        CHECK(pt_vec_i_get(pt, n) == NULL && pt_vec_i_get(pt, -1) == NULL, "nothing outside the list");
        for (i = 0; i < next; i++) CHECK(frees[i] == freed_want[i], "exactly the removed nodes released");
        CHECK(vh_live == 1 + (pt->pt_vec != NULL), "vector owned once");
    }
    for (i = 0; i < n; i++) if (ref[i]) freed_want[ref[i] - OBJ] = 1;
    CHECK(pt_free(pt, 0) == 0, "freed");
    for (i = 0; i < next; i++) CHECK(frees[i] == freed_want[i], "every node released once");
    CHECK(vh_live == 0, "everything released");
}
void h_get(void){ h_ops(); }
void h_clear(void){ h_ops(); }
void h_insert(void){ h_ops(); }
void h_append(void){ h_ops(); }
void h_delete(void){ h_ops(); }
void h_trunc(void){ h_ops(); }
void h_free(void){ h_ops(); }
#endif
