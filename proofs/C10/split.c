/* C10: splitting a command line into tokens and rests. Any number of tokens; next_token (unit token) and the vectors
 * (C02, C04) by contract. */
#include "cvh.h"
#include "vhalloc.h"
#ifdef VH_PROOF
#define ANY(T, x) T x
#else
#define ANY(T, x) IN(T, x)
#endif
long cligen_ghost_n; char cligen_ghost_ch[2]; unsigned long cligen_ghost_k; long *cligen_ghost_count;
long cligen_ghost_v[8]; void *cligen_ghost_node[3]; char *cligen_ghost_text;
#define FOUND cligen_ghost_v[0]
#define TOKENS cligen_ghost_v[1]
#define RESTS cligen_ghost_v[2]
#define POS cligen_ghost_v[3]
#define FAIL cligen_ghost_v[4]
#define ENDED cligen_ghost_v[5]
#define LIVE cligen_ghost_v[6]
#ifdef VH_PROOF
static char TOK[2], *LINE; static cg_var CT, CR; static cvec T, R; static int VECS, COPIES;
static void *s_strdup(const char *s)
{
    ANY(_Bool, nodup);
    CHECK(s == LINE, "the line is copied");
    if (nodup && !vh_reliable){ FAIL = 1; return NULL; }
    COPIES++;
    return cligen_ghost_text;
}
static void s_free(void *p)
{
    if (p == TOK){ CHECK(LIVE == 1, "token released once"); LIVE--; }
    else { CHECK(p == cligen_ghost_text && COPIES == 1, "copy of the line released once"); COPIES--; }
}
#undef strdup
#undef free
#define strdup s_strdup
#define free s_free
#endif
#include "cligen_cvec.c"
#undef strdup
#undef free
#define strdup vh_strdup
#define free vh_free
#ifdef VH_PROOF
int token_contract(char **s0, char **token0, char **rest0, int *leading0)
{
    ANY(_Bool, notok); ANY(_Bool, end); long next; int leading;
    CHECK(*s0 == cligen_ghost_text + POS, "the line is read on");
    if (notok && !vh_reliable){ FAIL = 1; return -1; }
    ASSUME(0 <= leading && leading <= cligen_ghost_n - POS);
    *leading0 = leading; *rest0 = cligen_ghost_text + POS + leading;
    cligen_ghost_node[1] = *rest0;
    if (end){
        *token0 = NULL; *s0 = NULL; POS = -1; cligen_ghost_node[0] = NULL;
        if (leading || FOUND == 0){ FOUND++; ENDED = 1; } else { ENDED = 2; }
        return 0;
    }
    ASSUME(next > POS + leading && next <= cligen_ghost_n);
    POS = next; *s0 = cligen_ghost_text + next; *token0 = TOK; cligen_ghost_node[0] = TOK; LIVE++; FOUND++;
    return 0;
}
cvec *start_contract(char *cmd)
{
    ANY(_Bool, nostart);
    CHECK(cmd == LINE || cmd == cligen_ghost_text, "the first entry is the line");
    if (nostart && !vh_reliable){ FAIL = 1; return NULL; }
    if (VECS == 0){ VECS = 1; return &T; }
    VECS |= 2; return &R;
}
cg_var *add_contract(cvec *v, enum cv_type t)
{
    ANY(_Bool, noadd);
    CHECK(v == &T || v == &R, "an entry is added to a vector");
    CHECK(t == CGV_STRING, "entries are texts");
    if (noadd && !vh_reliable){ FAIL = 1; return NULL; }
    return v == &T ? &CT : &CR;
}
char *set_contract(cg_var *cv, const char *s)
{
    ANY(_Bool, noset);
    if (noset && !vh_reliable){ FAIL = 1; return NULL; }
    if (cv == &CT){
        TOKENS++;
        CHECK(TOKENS == FOUND, "tokens in order");
        CHECK(cligen_ghost_node[0] == NULL ? s[0] == '\0' : s == cligen_ghost_node[0], "each token is recorded");
    }
    else {
        RESTS++;
        CHECK(cv == &CR && RESTS == FOUND, "rests in order");
        CHECK(s == cligen_ghost_node[1], "each rest is recorded");
    }
    return (char*)s;
}
int vfree_contract(cvec *v)
{
    CHECK(v == &T || v == &R, "a vector is released");
    CHECK(VECS & (v == &T ? 1 : 2), "a vector is released once");
    VECS &= v == &T ? 2 : 1;
    return 0;
}
char *cv_string_set(cg_var *cv, const char *s){ return set_contract(cv, s); }
#else
char *cv_string_set(cg_var *cv, const char *s){ return cv->var_string = vh_strdup(s); }
char *cv_name_set(cg_var *cv, const char *s){ return cv->var_name = vh_strdup(s); }
int cv_reset(cg_var *cv){ if (cv->var_name) vh_free(cv->var_name); if (cv->var_type == CGV_STRING || cv->var_type == CGV_REST) if (cv->var_string) vh_free(cv->var_string); return 0; }
#endif
void h_split(void)
{
    cvec *t = NULL, *r = NULL; int rc; IN(_Bool, rel); IN(_Bool, wt); IN(_Bool, wr);
    vh_live = 0; vh_reliable = rel;
#ifdef VH_PROOF
    long n;
    ASSUME(0 <= n && n < (1 << 30));
    LINE = vh_raw(n + 1); cligen_ghost_text = vh_raw(n + 1); ASSUME(LINE && cligen_ghost_text);
    cligen_ghost_n = n; FOUND = TOKENS = RESTS = POS = FAIL = ENDED = LIVE = 0; VECS = COPIES = 0;
    rc = cligen_str2cvv(LINE, wt ? &t : NULL, wr ? &r : NULL);
    COVER("returns");
    CHECK(rc == 0 || rc == -1, "documented return values");
    CHECK((rc == -1) == (FAIL != 0), "fails exactly when something failed");
    CHECK(LIVE == 0 && COPIES == 0, "everything is released");
    if (rc < 0){ CHECK(t == NULL && r == NULL, "nothing is given out on failure"); CHECK(VECS == 0, "vectors released on failure"); return; }
    COVER("success");
    CHECK(ENDED != 0, "the whole line is split");
    CHECK(TOKENS == FOUND && RESTS == FOUND, "every token and rest is recorded");
    CHECK(wt ? t == &T : 1, "the tokens are given out");
    CHECK(wr ? r == &R : 1, "the rests are given out");
    CHECK(VECS == (wt ? 1 : 0) + (wr ? 2 : 0), "vectors not given out are released");
#else
    char line[12]; int i, n, k = 0; IN(uint8_t, nn);
#ifdef VH_NATIVE
    n = nn % 11;
#else
    n = nn % 3;
#endif
    for (i = 0; i < n; i++){ IN(uint8_t, b); line[i] = b % 6 < 2 ? ' ' : b % 6 == 2 ? '"' : b % 6 == 3 ? '\\' : 'a' + b % 5; }
    line[n] = '\0';
    rc = cligen_str2cvv(line, wt ? &t : NULL, wr ? &r : NULL);
    CHECK(rc == 0 || rc == -1, "documented return values");
    if (rel) CHECK(rc == 0, "fails exactly when something failed");
    if (rc == 0){
        char *s = line, *tok, *rest; int lead;
        vh_reliable = 1;
        while (s != NULL){
            next_token(&s, &tok, &rest, &lead);
            if (tok == NULL && !lead && k > 0) break;
            k++;
            if (t) CHECK(k < cvec_len(t) && strcmp(t->vr_vec[k].var_string, tok ? tok : "") == 0, "each token is recorded");
            if (r) CHECK(k < cvec_len(r) && strcmp(r->vr_vec[k].var_string, rest) == 0, "each rest is recorded");
            if (tok) vh_free(tok);
        }
        if (t) CHECK(cvec_len(t) == k + 1 && strcmp(t->vr_vec[0].var_string, line) == 0, "every token and rest is recorded");
        if (r) CHECK(cvec_len(r) == k + 1 && strcmp(r->vr_vec[0].var_string, line) == 0, "every token and rest is recorded");
        if (t) cvec_free(t);
        if (r) cvec_free(r);
    }
    else CHECK(t == NULL && r == NULL, "nothing is given out on failure");
    CHECK(vh_live == 0, "everything is released");
#endif
}
