/* C23: callbacks of a command. Evaluation and release: lists of any length, alike but two arbitrary
 * callbacks. Copies: bounded length. */
#define VH_TEXT_ID
#include "cvh.h"
#include "vhalloc.h"
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <signal.h>
#include "cligen_handle_internal.h"
void *cligen_ghost_node[3]; long cligen_ghost_m; void *cligen_ghost_fn;
/* at: callbacks passed; pipes, calls: of callback k; failed: a callback has failed; live: copies of vectors not released */
static struct st { long at; int pipes, calls, failed, live; char *name; void *dup; cg_callback other; } S;
static cg_callback EK, EM;
#define fnstr S.name
#define dup_of S.dup
#ifndef VH_PROOF
/* the process part is replaced */
static pid_t vh_fork(void){ return 77; }
static int vh_one(void){ return 1; }
#define fork vh_fork
#define socketpair(a, b, c, d) ((d)[0] = (d)[1] = -2, 0)
#define waitpid(p, s, o) (*(s) = 0, (p))
#define kill(p, s) 0
#define shutdown(s, h) 0
#define select(n, a, b, c, d) vh_one()
#define read(s, b, n) 0
#endif
#define close(s) 0
#include "cligen_callback.c"
#include "cligen_read.c"
#undef close
static struct cligen_handle H; static cg_obj CO; static char MK[8], ML[8], MO[8], CVV[8], CV1[8];
static int oom;
/* inside annotated loops: no loop at all, not even do while (0) */
#ifdef VH_PROOF
#define ANY(T, x) T x
#else
#define ANY(T, x) IN(T, x)
#endif
cvec *cvec_dup(cvec *v)
{
    ANY(_Bool, nomem);
    if (nomem && !vh_reliable) return NULL;
    S.live++;
    if (v == (cvec*)CVV) return (cvec*)CV1;
    dup_of = v;
#ifdef COPY
    char *p = vh_raw(8); ASSUME(p); p[0] = *(char*)v; return (cvec*)p;
#else
    return (cvec*)MO;
#endif
}
int cvec_free(cvec *v){ if (v == NULL) return 0; S.live--;
#ifdef COPY
    vh_rawfree(v);
#endif
    return 0; }
int cvec_expand_first(cvec *v){ CHECK(v == (cvec*)CV1, "the command's variables are not changed"); return 0; }
int cvec_exclude_keys(cvec *v){ CHECK(v == (cvec*)CV1, "the command's variables are not changed"); return 0; }
int cligen_co_match_set(cligen_handle h, cg_obj *co){ return 0; }
int cligen_fn_str_set(cligen_handle h, char *s){ fnstr = s; return 0; }
void *cligen_userhandle(cligen_handle h){ return NULL; }
int cligen_expand_first_get(cligen_handle h){ return H.ch_expand_first; }
int cligen_exclude_keys_get(cligen_handle h){ return H.ch_exclude_keys; }
int cligen_eval_wrap_fn_get(cligen_handle h, cligen_eval_wrap_fn **fn, void **arg){ *fn = NULL; *arg = NULL; return 0; }
int cli_pipe_output_socket_set(int s){ return 0; }
int cli_pipe_output_socket_get(int *s){ *s = -1; return 0; }
int cligen_output_basic(FILE *f, char *b, size_t n){ return 0; }

#if !defined(COPY)
#ifdef VH_NATIVE
#define MAXN 10
#else
#define MAXN 3
#endif
static long N, K, M; static _Bool BAD[MAXN];
static int called(int i, cvec *cvv, cvec *argv)
{
    ANY(_Bool, bad);
    CHECK(!S.failed, "no callback is called after a failing one");
    CHECK(cvv == (cvec*)CV1, "callback gets the command's variables");
    if (bad) S.failed = 1;
    return bad ? -1 : 0;
}
#ifdef VH_PROOF
static char MX[8]; static int f_o(cligen_handle h, cvec *cvv, cvec *argv);
#define NODE(i) ((i) == K ? &EK : (i) == M ? &EM : &S.other)
static void any_callback(cg_callback *c, char *cv, cgv_fnstype_t *f)
{
    _Bool hascv, hasfn; int fl;
    c->cc_fn_vec = hasfn ? f : NULL; c->cc_fn_str = cv + 1; c->cc_cvec = hascv ? (cvec*)cv : NULL; c->cc_flags = fl; c->cc_next = NULL;
}
cg_callback *next_contract(cg_callback *cc)
{
    long i = S.at < N ? S.at : S.at - N;
    CHECK(i < N && cc == NODE(i), "model of list: in order");
    S.at++; i++;
    if (i < N && i != K && i != M) any_callback(&S.other, MX, f_o);
    return i < N ? NODE(i) : NULL;
}
/* entering the callback functions */
static int f_o(cligen_handle h, cvec *cvv, cvec *argv)
{
    CHECK(S.at >= N && S.at - N != K && S.at - N != M, "callback's own function");
    return called(2, cvv, argv);
}
static int f_k(cligen_handle h, cvec *cvv, cvec *argv)
{
    CHECK(S.at - N == K, "callback's own function");
    CHECK(fnstr == EK.cc_fn_str, "name of the running callback");
    CHECK(EK.cc_cvec == NULL ? argv == NULL : argv == (cvec*)MO && dup_of == EK.cc_cvec, "callback gets a copy of its own arguments");
    S.calls++;
    return called(0, cvv, argv);
}
static int f_m(cligen_handle h, cvec *cvv, cvec *argv)
{
    CHECK(S.at - N == M, "callback's own function");
    CHECK(S.calls == (M > K && cligen_ghost_holds ? 1 : 0), "callbacks are called in order");
    return called(1, cvv, argv);
}
int pre_contract(cligen_handle h, cg_callback *cc, cvec *cvv, int *spipe, pid_t *pid)
{
    int s; pid_t p; _Bool bad;
    CHECK(S.at < N && cc == NODE(S.at), "model of pipe start: the callback at hand");
    CHECK(cc->cc_flags & CC_FLAGS_PIPE_FUNCTION, "only pipe callbacks are started as pipes");
    if (cc == NODE(K)) S.pipes++;
    ASSUME(p > 0); *spipe = s; *pid = p;
    if (bad) S.failed = 1;
    return bad ? -1 : 0;
}
static int post_bad;
int post_contract(cligen_handle h, int s, pid_t p){ _Bool bad; post_bad = bad ? 1 : 0; return bad ? -1 : 0; }
static void list(void)
{
    long n, ik, im;
    vh_live = 0; S.at = 0; S.pipes = S.calls = S.failed = S.live = 0;
    ASSUME(0 <= n && n < ((long)1 << 40) && 0 <= ik && 0 <= im && im != ik);
    any_callback(&S.other, MX, f_o); any_callback(&EK, MK, f_k); any_callback(&EM, ML, f_m);
    N = n; K = ik; M = im;
    cligen_ghost_node[0] = &S.other; cligen_ghost_node[1] = &EK; cligen_ghost_node[2] = &EM;
    cligen_ghost_fn = (void*)f_o; cligen_ghost_n = n; cligen_ghost_k = ik; cligen_ghost_m = im; cligen_ghost_state = &S;
    cligen_ghost_holds = ik < n && EK.cc_fn_vec != NULL && !(EK.cc_flags & CC_FLAGS_PIPE_FUNCTION);
    cligen_ghost_j = ik < n && (EK.cc_flags & CC_FLAGS_PIPE_FUNCTION) ? 1 : 0;
}
void h_eval(void)
{
    int r; int ef, ek;
    list();
    CO.co_callbacks = N ? NODE(0) : NULL; post_bad = 0; H.ch_expand_first = ef; H.ch_exclude_keys = ek;
    r = cligen_eval(&H, &CO, (cvec*)CVV);
    COVER("returns");
    CHECK(r == 0 || r == -1, "documented return values");
    if (S.failed) CHECK(r == -1, "failure of a callback is reported");
    if (r == 0){
        CHECK(!post_bad, "failure of a pipe is reported");
        CHECK(S.calls == cligen_ghost_holds, "each regular callback is called once");
        CHECK(S.pipes == (int)cligen_ghost_j, "each pipe callback is started once");
        COVER("success");
    }
    if (vh_reliable && !S.failed && !post_bad) CHECK(r == 0, "succeeds when every callback does");
    CHECK(S.calls <= 1 && S.live == 0, "copies of arguments and variables are released");
}
void h_eval_ok(void){ _Bool rel; vh_reliable = rel; h_eval(); }
int one_free_contract(cg_callback *cc)
{
    CHECK(S.at >= 1 && cc == NODE(S.at - 1), "model of release: each in order");
    if (cc == NODE(K)) S.calls++;
    return 0;
}
void h_free(void)
{
    cg_callback *head; vh_reliable = 1;
    list();
    head = N ? NODE(0) : NULL;
    co_callbacks_free(&head);
    COVER("released");
    CHECK(head == NULL, "list is empty");
    if (K < N) CHECK(S.calls == 1, "each callback is released once");
}
#else
static int seq;
static cg_callback LL[MAXN];
#define FN(i) static int f_##i(cligen_handle h, cvec *cvv, cvec *argv){ CHECK(seq < MAXN, "more calls than callbacks"); \
    CHECK(fnstr == LL[seq].cc_fn_str, "name of the running callback"); CHECK(LL[seq].cc_fn_vec == f_##i, "callbacks are called in order"); \
    CHECK(LL[seq].cc_cvec == NULL ? argv == NULL : argv == (cvec*)MO && dup_of == LL[seq].cc_cvec, "callback gets a copy of its own arguments"); \
    seq++; while (seq < MAXN && (LL[seq].cc_fn_vec == NULL || (LL[seq].cc_flags & 1))) seq++; return called(i, cvv, argv); }
FN(0) FN(1) FN(2)
static void eval(int rel)
{
    int i, n, r; static char cv[MAXN]; vh_live = 0; S.at = S.pipes = S.calls = S.failed = S.live = 0;
    IN(uint8_t, nn); n = nn % (MAXN + 1); N = n;
    for (i = 0; i < MAXN; i++){
        IN(uint8_t, b);
        LL[i].cc_fn_vec = i >= n ? NULL : b % 4 == 0 ? f_0 : b % 4 == 1 ? f_1 : b % 4 == 2 ? f_2 : NULL;
        LL[i].cc_cvec = b & 4 ? (cvec*)&cv[i] : NULL; LL[i].cc_fn_str = &cv[i];
        LL[i].cc_flags = b >= 200 ? CC_FLAGS_PIPE_FUNCTION : 0;
        LL[i].cc_next = i + 1 < n ? &LL[i+1] : NULL;
    }
    IN(_Bool, ef); IN(_Bool, ek);
    vh_reliable = rel;
    CO.co_callbacks = n ? LL : NULL; H.ch_expand_first = ef; H.ch_exclude_keys = ek;
    seq = 0; while (seq < MAXN && (LL[seq].cc_fn_vec == NULL || (LL[seq].cc_flags & 1))) seq++;
    r = cligen_eval(&H, &CO, (cvec*)CVV);
    CHECK(r == 0 || r == -1, "documented return values");
    if (S.failed) CHECK(r == -1, "failure of a callback is reported");
    if (r == 0) CHECK(seq == MAXN, "each regular callback is called once");
    if (rel && !S.failed) CHECK(r == 0, "succeeds when every callback does");
    CHECK(S.live == 0, "copies of arguments and variables are released");
}
void h_eval_ok(void){ IN(_Bool, rel); eval(rel); }
#endif
#endif
#ifdef COPY
#ifdef VH_NATIVE
#define MAXN 10
#else
#define MAXN 3
#endif
void h_copy(void)
{
    int i, n, r; cg_callback c[MAXN], *out = NULL, *p; char s[MAXN][2], v[MAXN]; static int fns[4];
    IN(uint8_t, nn); n = nn % (MAXN + 1);
    vh_live = 0; vh_reliable = 0; S.live = 0;
    for (i = 0; i < n; i++){
        IN(uint8_t, b);
        s[i][0] = 'a' + i; s[i][1] = '\0'; v[i] = 'A' + i;
        c[i].cc_next = i + 1 < n ? &c[i+1] : NULL;
        c[i].cc_fn_vec = (cgv_fnstype_t*)&fns[b % 3];
        c[i].cc_fn_str = b & 8 ? s[i] : NULL; c[i].cc_cvec = b & 16 ? (cvec*)&v[i] : NULL; c[i].cc_flags = b & 32 ? 1 : b & 64 ? -1 : 0;
    }
    r = co_callback_copy(n ? c : NULL, &out);
    CHECK(r == 0 || r == -1, "documented return values");
    for (i = 0, p = out; i < n && p != NULL; i++, p = p->cc_next){
        CHECK(p->cc_fn_vec == c[i].cc_fn_vec && p->cc_flags == c[i].cc_flags, "same functions and flags in the same order");
        CHECK(c[i].cc_fn_str ? p->cc_fn_str && p->cc_fn_str != c[i].cc_fn_str && p->cc_fn_str[0] == s[i][0] : !p->cc_fn_str, "own copy of the name");
        CHECK(c[i].cc_cvec ? p->cc_cvec && p->cc_cvec != c[i].cc_cvec && *(char*)p->cc_cvec == v[i] : !p->cc_cvec, "own copy of the arguments");
        CHECK(s[i][0] == 'a' + i && v[i] == 'A' + i, "original unchanged");
    }
    CHECK(p == NULL, "no more callbacks than in the original");
    if (r == 0) CHECK(i == n, "every callback is copied");
    co_callbacks_free(&out);
    CHECK(out == NULL, "list is empty");
    CHECK(vh_live == 0 && S.live == 0, "everything released");
}
/* one callback, released with everything it owns */
void h_one_free(void)
{
    cg_callback *c;
    vh_live = 0; vh_reliable = 1; S.live = 0;
    IN(_Bool, a); IN(_Bool, b);
    c = malloc(sizeof(*c)); ASSUME(c);
    c->cc_fn_str = a ? strdup("x") : NULL; c->cc_cvec = b ? cvec_dup((cvec*)MK) : NULL; c->cc_next = NULL;
    co_callback_one_free(c);
    COVER("released");
    CHECK(vh_live == 0 && S.live == 0, "everything released");
}
#endif
