/* C05: range and length restrictions. Contract on cv_validate of cligen_cv.c.
 * Ghost: the value, an arbitrary interval number k with its bounds, whether an interval with the
 * value in it was handed out, and whether interval k was handed out and does not hold the value. */
#include "cvh.h"
#ifndef T_
#define T_      int8_t
#define CGV_    CGV_INT8
#define MEMBER_ var_int8
#endif
#define g_k cligen_ghost_k
static T_ g_val;
static int g_n;                 /* intervals */
static T_ g_klow, g_kupp; static _Bool g_kempty;
static struct { cg_var cvlow, cvupp; int lowj; _Bool hit; } g_st;
#define g_hit g_st.hit
#define g_cvlow g_st.cvlow
#define g_cvupp g_st.cvupp
#define g_lowj g_st.lowj
static cvec *g_low, *g_upp;
#ifdef MSG
static _Bool g_cbuf;
#define MSG_STATE ; g_cbuf; __CPROVER_object_whole(&g_st)
#else
#define MSG_STATE
#endif
#define IN_K    ((g_kempty || g_val >= g_klow) && g_val <= g_kupp)

#ifdef VH_PROOF

/* element j of a bound vector: any value, but always the same one for j = k */
cg_var *cvec_i(cvec *cvv, int j)
{
    __CPROVER_assert(j >= 0 && j < g_n, "CHECK:interval within the list");
    if (cvv == g_low){
        T_ v; _Bool e;
        if ((unsigned long)j == g_k){ v = g_klow; e = g_kempty; }
        struct cg_var z = {0};
        g_cvlow = z;
        g_cvlow.var_type = e ? CGV_EMPTY : CGV_;
        if (!e) g_cvlow.MEMBER_ = v;
        g_lowj = j;
        return &g_cvlow;
    }
    __CPROVER_assert(cvv == g_upp, "CHECK:bound vector");
    T_ w;
    if ((unsigned long)j == g_k) w = g_kupp;
    g_cvupp.var_type = CGV_;
    g_cvupp.MEMBER_ = w;
    __CPROVER_assert(g_lowj == j, "CHECK:both bounds of the same interval");
    g_hit = (g_cvlow.var_type == CGV_EMPTY || g_val >= g_cvlow.MEMBER_) && g_val <= w;
    return &g_cvupp;
}
#define STR_LEN g_val
size_t strlen(const char *s){ return (size_t)g_val; }
cg_var *cvec_each(cvec *cvv, cg_var *prev){ __CPROVER_assert(0, "CHECK:no regex given"); return NULL; }
int match_regexp(cligen_handle h, char *s, char *p, int inv){ return 0; }
#endif

static int outofrange(cg_var *cv0, cg_varspec *cs, char **reason)
REQUIRES(reason == NULL || __CPROVER_w_ok(reason, sizeof(char*)))
ENSURES(RESULT == 0 || RESULT == -1)
ENSURES(RESULT != 0 || reason == NULL || *reason != NULL)
ENSURES(RESULT != -1 || reason == NULL || *reason == OLD(*reason))
ASSIGNS(reason != NULL: *reason MSG_STATE);
static int outoflength(uint64_t u64, cg_varspec *cs, char **reason)
REQUIRES(reason == NULL || __CPROVER_w_ok(reason, sizeof(char*)))
ENSURES(RESULT == 0 || RESULT == -1)
ENSURES(RESULT != 0 || reason == NULL || *reason != NULL)
ENSURES(RESULT != -1 || reason == NULL || *reason == OLD(*reason))
ASSIGNS(reason != NULL: *reason MSG_STATE);

#ifdef MSG
/* text building by name only */
static int vh_cprintf(cbuf *cb){ IN(int, r); ASSUME(r >= -1); return r; }
#define cprintf(cb, ...) vh_cprintf(cb)
int cv2cbuf(cg_var *cv, cbuf *cb)
REQUIRES(__CPROVER_r_ok(cv, sizeof(cg_var)))
ASSIGNS();
#ifdef VH_PROOF
char *strdup(const char *s){ char *r = malloc(2); if (r) { r[0] = 'r'; r[1] = 0; } return r; }
static char g_text[4];
cbuf *cbuf_new(void){ _Bool f; if (f) return NULL; g_cbuf = 1; return (cbuf*)g_text; }
char *cbuf_get(cbuf *cb){ __CPROVER_assert(g_cbuf, "CHECK:buffer alive"); return g_text; }
void cbuf_free(cbuf *cb){ __CPROVER_assert(g_cbuf, "CHECK:buffer alive"); g_cbuf = 0; }
#endif
#endif

#include "cligen_cv.c"

#ifndef MSG
#if !defined(VH_PROOF)
/* real vectors */
#include "cligen_cvec.c"
#endif
#if !defined(VH_PROOF)
#include "cligen_buf.c"
#endif
#ifdef VH_BMC
char *strerror(int e){ static char m[2] = "e"; return m; }
int match_regexp(cligen_handle h, char *s, char *p, int inv){ return 0; }
#endif

void h_validate(void)
{
    IN(_Bool, want); IN(int32_t, n); IN(T_, val); IN(uint8_t, dn); IN(uint8_t, cvn);
    char *r = NULL;
    int ret;
    cg_var cv;
    cg_varspec cs;
    want &= 1;
    memset(&cv, 0, sizeof(cv)); memset(&cs, 0, sizeof(cs));
#if !defined(VH_PROOF)
    n = (uint32_t)n % 4; dn %= 3; cvn %= 3;
#endif
    ASSUME(n >= 0);
    g_n = n; g_val = val; g_hit = 0; g_reasons = 0;
    cligen_ghost_state = &g_st;
    cs.cgs_vtype = CGV_; cs.cgs_rangelen = n;
    cv.var_type = CGV_;
#ifdef STRLEN
    cs.cgs_vtype = CGV_STRING; cv.var_type = CGV_STRING;
#ifdef VH_PROOF
    ASSUME(val < VH_HUGE);
    char str_[1]; cv.var_string = str_;
#else
    val %= 12; g_val = val;
    cv.var_string = malloc(val + 1); ASSUME(cv.var_string != NULL);
    memset(cv.var_string, 'a', val); cv.var_string[val] = 0;
#endif
#else
    cv.MEMBER_ = val;
#endif
#ifdef DEC
    cs.cgs_dec64_n = dn; cv.var_dec64_n = cvn;
#else
    cvn = dn;
#endif
#ifdef VH_PROOF
    T_ a_, b_; _Bool e_; unsigned long k_;
    cvec *v1 = malloc(8), *v2 = malloc(8); ASSUME(v1 && v2);
    g_klow = a_; g_kupp = b_; g_kempty = e_; g_k = k_; cligen_ghost_holds = g_k < n && IN_K;
    g_low = v1; g_upp = v2; g_lowj = -1;
#else
    struct cvec vl, vu; cg_var lo[3], up[3];
    memset(&vl, 0, sizeof(vl)); memset(&vu, 0, sizeof(vu)); memset(lo, 0, sizeof(lo)); memset(up, 0, sizeof(up));
    vl.vr_vec = lo; vl.vr_len = n; vu.vr_vec = up; vu.vr_len = n;
    for (int j = 0; j < 3; j++){
        IN(T_, a); IN(T_, b); IN(_Bool, e);
        e &= 1;
#ifdef STRLEN
        a %= 14; b %= 14;
#endif
        lo[j].var_type = e ? CGV_EMPTY : CGV_; if (!e) lo[j].MEMBER_ = a;
        up[j].var_type = CGV_; up[j].MEMBER_ = b;
#ifdef DEC
        if (!e) lo[j].var_dec64_n = dn; up[j].var_dec64_n = dn;
#endif
        if (j < n && (e || val >= a) && val <= b) g_hit = 1;
    }
    g_low = &vl; g_upp = &vu;
#endif
    cs.cgs_rangecvv_low = g_low; cs.cgs_rangecvv_upp = g_upp;
#ifndef VH_PROOF
#ifdef DEC
    ASSUME(cv.var_dec64_n > 0 && dn > 0);
#endif
#endif
    ret = cv_validate(NULL, &cv, &cs, "cmd", want ? &r : NULL);
    COVER("returns");
    if (ret == 1) COVER("valid");
    if (ret == 0) COVER("invalid");
    CHECK(ret == 1 || ret == 0 || ret == -1, "documented return values");
    CHECK(!(ret == 1 && n > 0) || g_hit, "valid only when some interval holds the value");
    CHECK(!(ret == 1) || cvn == dn, "valid only with the fraction digits specified");
#ifdef VH_PROOF
    CHECK(!(ret != 1 && g_k < n && cvn == dn) || !IN_K, "invalid only when no interval holds the value");
#else
    CHECK(!(ret != 1 && cvn == dn) || !g_hit, "invalid only when no interval holds the value");
#endif
    CHECK(!(ret != 1 && n == 0 && cvn == dn), "no restriction, no rejection");
    CHECK(!(ret == 0 && want && cvn == dn) || r != NULL, "rejected with a reason");
    CHECK(!(ret == 1) || r == NULL, "no reason when valid");
}
#else
void h_oor(void)
{
    IN(_Bool, want); IN(int32_t, n);
    char *r = NULL; int ret;
    cg_var cv; cg_varspec cs;
    ASSUME(n >= 0);
    cs.cgs_rangelen = n; g_n = n; g_cbuf = 0; g_lowj = -1;
    cligen_ghost_state = &g_st;
#ifdef VH_PROOF
    cvec *v1 = malloc(8), *v2 = malloc(8); ASSUME(v1 && v2);
    g_low = v1; g_upp = v2;
    cs.cgs_rangecvv_low = v1; cs.cgs_rangecvv_upp = v2;
#endif
#ifdef LENGTH
    ret = outoflength(5, &cs, want ? &r : NULL);
#else
    ret = outofrange(&cv, &cs, want ? &r : NULL);
#endif
    COVER("returns");
    if (ret == 0) COVER("reason made");
    CHECK(ret == 0 || ret == -1, "documented return values");
    CHECK(!(ret == 0 && want) || r != NULL, "a reason is made");
#ifdef VH_PROOF
    CHECK(!g_cbuf, "buffer freed");
#endif
}
#endif
