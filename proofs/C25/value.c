/* C25: a value of a variable is matched by all of its patterns. Contract on cv_validate. The vector of
 * patterns has any length: element k, an arbitrary one, is followed. */
#include "cvh.h"
#define g_k cligen_ghost_k
static struct { long at; int asked; int bad; cg_var cur; } g_st;
#define g_cur g_st.cur
#define g_bad g_st.bad
void *cligen_ghost_node[3];
static char g_pats[2]; static _Bool g_kinv;
static cvec *g_v; static char *g_s;
#ifdef VH_PROOF
cg_var *cvec_each(cvec *cvv, cg_var *prev)
{
    _Bool f;
    CHECK(cvv == g_v, "the patterns of the variable");
    CHECK(prev == (g_st.at == 0 ? NULL : &g_cur), "one after the other");
    if (g_st.at == cligen_ghost_n) return NULL;
    g_cur.var_type = CGV_STRING;
    g_cur.var_string = g_st.at == (long)g_k ? g_pats + 1 : g_pats;
    if (g_st.at == (long)g_k) f = g_kinv;
    g_cur.var_flag = f ? V_INVERT : 0;
    g_st.at++;
    return &g_cur;
}
cg_var *cvec_i(cvec *cvv, int j){ CHECK(0, "no length restriction"); return NULL; }
int m_oor(cg_var *cv0, cg_varspec *cs, char **reason){ CHECK(0, "no length restriction"); return 0; }
int m_ool(uint64_t u64, cg_varspec *cs, char **reason){ CHECK(0, "no length restriction"); return 0; }
#endif
int match_regexp(cligen_handle h, char *s, char *p, int inv)
{
    CHECK(s == g_s, "this value");
#ifdef VH_PROOF
    int r;
    CHECK(p == g_cur.var_string && !!inv == (g_cur.var_flag == V_INVERT), "this pattern, inverted if it is");
    if (g_st.at - 1 == (long)g_k) g_st.asked++;
    r = r < 0 ? -1 : r & 1;
#else
    IN(int8_t, r);
    g_st.at++;
    CHECK(p[0] == 'a' + g_st.at, "each pattern in turn");
    CHECK(!!inv == ((p[1] & 1) != 0), "inverted if it is");
    r = r < 0 ? -1 : (r & 3) != 0;
#endif
    if (r != 1) g_bad = r < 0 ? 2 : 1;
    return r;
}
#include "cligen_cv.c"
#if !defined(VH_PROOF)
#include "cligen_cvec.c"
#include "cligen_buf.c"
#endif
#ifdef VH_BMC
char *strerror(int e){ static char m[2] = "e"; return m; }
#endif
void h_value(void)
{
    IN(uint32_t, n); IN(_Bool, want); IN(_Bool, rest); IN(_Bool, none); char *r = NULL, s[3]; int ret;
    cg_var cv; cg_varspec cs;
    memset(&cv, 0, sizeof(cv)); memset(&cs, 0, sizeof(cs));
    s[0] = 'x'; s[1] = 0; g_s = s;
#ifndef VH_PROOF
    n %= 4;
#endif
    g_st.at = 0; g_st.asked = 0; g_bad = 0; g_reasons = 0;
    cligen_ghost_state = &g_st; cligen_ghost_n = n; cligen_ghost_node[0] = &g_cur;
    cs.cgs_vtype = cv.var_type = rest ? CGV_REST : CGV_STRING;
    cv.var_string = s;
#ifdef VH_PROOF
    IN(unsigned long, k); IN(_Bool, kinv);
    ASSUME(k < (1ul << 40));
    g_k = k; g_kinv = kinv ? 1 : 0;
    g_v = malloc(8); ASSUME(g_v != NULL);
#else
    struct cvec v; cg_var el[3]; static char pats[3][3] = {"b0", "c0", "d0"};
    memset(&v, 0, sizeof(v)); memset(el, 0, sizeof(el));
    v.vr_vec = el; v.vr_len = n; g_v = &v;
    for (int i = 0; i < 3; i++){
        IN(_Bool, f); f &= 1;
        el[i].var_type = CGV_STRING; el[i].var_string = pats[i]; el[i].var_flag = f ? V_INVERT : 0; pats[i][1] = f ? '1' : '0';
    }
#endif
    cs.cgs_regex = none ? NULL : g_v;
    ret = cv_validate(NULL, &cv, &cs, "cmd", want ? &r : NULL);
    COVER("returns");
    if (ret == 1) COVER("valid");
    if (ret == 0) COVER("invalid");
    if (ret < 0) COVER("error");
    CHECK(ret == 1 || ret == 0 || ret == -1, "documented return values");
    CHECK((ret == 1) == (g_bad == 0), "valid exactly when every pattern asked matches");
    CHECK((ret == 0) == (g_bad == 1), "invalid exactly when a pattern does not match");
    CHECK(!(ret == 0 && want) || r != NULL || g_reasons == 0, "rejected with a reason");
    CHECK(ret == 0 || r == NULL, "no reason when not rejected");
    if (ret == 1 && !none){
        CHECK(g_st.at == n, "every pattern is looked at");
#ifdef VH_PROOF
        if (k < n) CHECK(g_st.asked == 1, "every pattern is matched");
#endif
    }
}
