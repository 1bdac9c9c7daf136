/* C08: address prefixes of any text, over the contracts of the address and number parsers */
#include "cvh.h"
static size_t g_n, g_slash; static char *g_copy; static const char *g_s;
static int g_aret, g_mret; static int32_t g_mval; static uint64_t g_a0, g_a1;
static _Bool g_have;            /* there is a slash; g_slash is the place of the first one */
#ifdef VH_PROOF
char *strdup(const char *s)
{
    __CPROVER_assert(s == g_s, "CHECK:copy of the text given");
    char *r = malloc(g_n + 1);
    if (r == NULL) return NULL;
    if (g_have) r[g_slash] = '/';
    r[g_n] = '\0';
    g_copy = r;
    return r;
}
char *strchr(const char *s, int c)
{
    __CPROVER_assert(s == g_copy && c == '/', "CHECK:first slash of the text");
    return g_have ? (char*)s + g_slash : NULL;
}
#endif
int parse_int32(char *str, int32_t *val, char **reason)
REQUIRES(g_have && str == g_copy + g_slash + 1)
REQUIRES(reason == NULL || (__CPROVER_w_ok(reason, sizeof(char*)) && *reason == NULL))
ENSURES(RESULT == g_mret)
ENSURES(g_mret != 1 || *val == g_mval)
ENSURES(g_mret == 0 && reason != NULL ? *reason != NULL : reason == NULL || *reason == NULL)
ASSIGNS(*val; reason != NULL: *reason);
int parse_ipv4addr(char *str, struct in_addr *val, char **reason)
REQUIRES(str == g_copy && (!g_have || str[g_slash] == '\0'))
REQUIRES(reason == NULL || (__CPROVER_w_ok(reason, sizeof(char*)) && *reason == NULL))
ENSURES(RESULT == g_aret)
ENSURES(g_aret != 1 || val->s_addr == (uint32_t)g_a0)
ENSURES(g_aret == 0 && reason != NULL ? *reason != NULL : reason == NULL || *reason == NULL)
ASSIGNS(*val; reason != NULL: *reason);
int parse_ipv6addr(char *str, struct in6_addr *val, char **reason)
REQUIRES(str == g_copy && (!g_have || str[g_slash] == '\0'))
REQUIRES(reason == NULL || (__CPROVER_w_ok(reason, sizeof(char*)) && *reason == NULL))
ENSURES(RESULT == g_aret)
ENSURES(g_aret != 1 || (((uint64_t*)val)[0] == g_a0 && ((uint64_t*)val)[1] == g_a1))
ENSURES(g_aret == 0 && reason != NULL ? *reason != NULL : reason == NULL || *reason == NULL)
ASSIGNS(*val; reason != NULL: *reason);

#ifdef UNIT_ADDR
/* inet_pton: assumed contract */
static int g_pton; static int g_ptonaf;
#ifdef VH_PROOF
int inet_pton(int af, const char *s, void *d)
{
    __CPROVER_assert(s == g_copy && af == g_ptonaf, "CHECK:inet_pton of the text");
    if (g_pton == 1){ if (af == AF_INET) ((uint32_t*)d)[0] = (uint32_t)g_a0; else { ((uint64_t*)d)[0] = g_a0; ((uint64_t*)d)[1] = g_a1; } }
    return g_pton;
}
#endif
#endif
#include "cligen_cv.c"
#ifdef VH_BMC
#define CM_NO_STRSEP
#include "cmodels.h"
int inet_pton(int af, const char *s, void *d)
{
    if (s[0] != 'A' || s[1] != 0) return 0;
    if (af == AF_INET) ((uint32_t*)d)[0] = (uint32_t)g_a0; else { ((uint64_t*)d)[0] = g_a0; ((uint64_t*)d)[1] = g_a1; }
    return 1;
}
#endif
#ifndef V6
#define WIDTH 32
#define TYPE_ CGV_IPV4PFX
#else
#define WIDTH 128
#define TYPE_ CGV_IPV6PFX
#endif
void h_pfx(void)
{
    IN(size_t, n); IN(size_t, slash); IN(_Bool, have); IN(int, aret); IN(int, mret); IN(int32_t, mval); IN(uint64_t, a0); IN(uint64_t, a1);
    IN(_Bool, want); IN(_Bool, null);
    char *r = NULL;
    cg_var v;
    want &= 1; null &= 1; have &= 1;
    memset(&v, 0, sizeof(v));
    v.var_type = TYPE_; g_reasons = 0;
#ifdef VH_PROOF
    ASSUME(n < VH_HUGE && slash < n && (!null || (n == 0 && !have)) );
    ASSUME(aret >= -1 && aret <= 1 && mret >= -1 && mret <= 1);
    g_n = n; g_slash = slash; g_have = have; g_aret = aret; g_mret = mret; g_mval = mval; g_a0 = a0; g_a1 = a1;
    char *s = vh_block(n + 1);
    s[n] = 0;
    g_s = s;
#else
    /* spell it: address text, slash, mask text */
    char *s = calloc(1, 80);
    ASSUME(s != NULL);
    aret = aret & 1; mret = mret & 1;
    null = 0;
#ifdef VH_NATIVE
    mval %= 300;
    char ab[64], mb[32];
#ifdef V6
    struct in6_addr x; memcpy(&x, &a0, 8); memcpy((char*)&x + 8, &a1, 8);
    inet_ntop(AF_INET6, &x, ab, sizeof(ab));
#else
    struct in_addr x; x.s_addr = (uint32_t)a0; inet_ntop(AF_INET, &x, ab, sizeof(ab));
#endif
    snprintf(mb, sizeof(mb), "%d", mval);
    snprintf(s, 80, "%s%s%s%s%s", aret ? "" : "x", ab, have ? "/" : "", have ? mb : "", have && !mret ? "y" : "");
#else
    g_a0 = a0; g_a1 = a1;
    ASSUME(mval >= -9 && mval <= 199);
    int k = 0, m = mval;
    s[k++] = aret ? 'A' : 'x';
    if (have){
        s[k++] = '/';
        if (m < 0){ s[k++] = '-'; m = -m; }
        if (m >= 100) s[k++] = '0' + m / 100;
        if (m >= 10) s[k++] = '0' + m / 10 % 10;
        s[k++] = '0' + m % 10;
        if (!mret) s[k++] = 'y';
    }
#endif
#endif
    int ret = cv_parse1(s, &v, want ? &r : NULL);
    _Bool ok = have && mret == 1 && mval >= 0 && mval <= WIDTH && aret == 1;
    COVER("returns");
    if (ret == 1) COVER("accepted");
    if (ret == 0) COVER("rejected");
    CHECK(ret == 1 || ret == 0 || ret == -1, "documented return values");
    CHECK(!(ret == 1) || ok, "accepted only: an address, a slash and a mask within the width");
    CHECK(!(ret == 0) || !ok, "rejected only: anything else");
    CHECK(!(ret == 0 && want) || r != NULL, "rejected with a reason");
    if (ret == 1){
#ifdef V6
        uint64_t w[2]; memcpy(w, &v.var_ipv6addr, 16);
        CHECK(w[0] == a0 && w[1] == a1, "the address of the text");
        CHECK(v.var_ipv6masklen == mval, "the mask of the text");
#else
        CHECK(v.var_ipv4addr.s_addr == (uint32_t)a0, "the address of the text");
        CHECK(v.var_ipv4masklen == mval, "the mask of the text");
#endif
    }
}
#ifdef UNIT_ADDR
void h_addr(void)
{
    IN(_Bool, want); IN(int, pton); IN(uint64_t, a0); IN(uint64_t, a1);
    char *r = NULL; int ret;
    char t[2] = "A";
    ASSUME(pton >= -1 && pton <= 1);
    g_pton = pton; g_a0 = a0; g_a1 = a1; g_copy = t; g_have = 0; g_aret = pton;
#ifdef V6
    struct in6_addr x; g_ptonaf = AF_INET6;
    ret = parse_ipv6addr(t, &x, want ? &r : NULL);
    if (ret == 1) CHECK(((uint64_t*)&x)[0] == a0 && ((uint64_t*)&x)[1] == a1, "the address of the text");
#else
    struct in_addr x; g_ptonaf = AF_INET;
    ret = parse_ipv4addr(t, &x, want ? &r : NULL);
    if (ret == 1) CHECK(x.s_addr == (uint32_t)a0, "the address of the text");
#endif
    COVER("returns");
    CHECK(!(ret == 1) || pton == 1, "accepted only an address");
    CHECK(!(ret == 0) || pton == 0, "rejected only what is no address");
    CHECK(!(ret == 0 && want) || r != NULL, "rejected with a reason");
    CHECK(!(ret != 0) || r == NULL, "a reason only when rejected");
}
#endif
