/* C03: integer text. Contracts on parse_int*, parse_uint* of cligen_cv.c */
#include "cvh.h"

/* Ghost description of the text handed over:
 *   g_kind 0: a complete number in the notation asked for (g_mag, g_neg): ISO C strtoll accepts all of it
 *   g_kind 1: not empty, but not a complete number;  g_kind 2: empty */
static char *g_str;
static size_t g_len;          /* its length */
static int g_kind;
static _Bool g_neg;
static unsigned __int128 g_mag;
static int g_base;
static int g_val0_set;

#define VALUE     (g_neg ? -(__int128)g_mag : (__int128)g_mag)
#define OKINT(lo, hi)  (g_kind == 0 && VALUE >= (__int128)(lo) && VALUE <= (__int128)(hi))
#define OKUINT(hi)     (g_kind == 0 && !g_neg && g_mag <= (unsigned __int128)(hi))

#ifndef VH_NATIVE
/* ISO C 7.24.1.7, for the text described by the ghost variables. errno is touched only for
 * ERANGE, or (allowed by POSIX) set to EINVAL when nothing is converted */
long long strtoll(const char *s, char **ep, int base)
{
    __CPROVER_assert(s == g_str, "CHECK:the text given is the text converted");
    __CPROVER_assert(base == g_base, "CHECK:base");
    if (g_kind != 0){
        size_t k;
        __CPROVER_assume(g_kind == 2 ? k == 0 : k < g_len);
        __CPROVER_assume(g_kind == 2 || s[k] != '\0');
        *ep = (char*)s + k;
        _Bool e;
        if (e && k == 0) errno = EINVAL;
        if (e && k != 0) errno = ERANGE;
        long long r;
        return r;
    }
    *ep = (char*)s + strlen(s);
    if (VALUE > (__int128)INT64_MAX){ errno = ERANGE; return INT64_MAX; }
    if (VALUE < (__int128)INT64_MIN){ errno = ERANGE; return INT64_MIN; }
    return (long long)VALUE;
}
unsigned long long strtoull(const char *s, char **ep, int base)
{
    __CPROVER_assert(s == g_str, "CHECK:the text given is the text converted");
    __CPROVER_assert(base == g_base, "CHECK:base");
    if (g_kind != 0){
        size_t k;
        __CPROVER_assume(g_kind == 2 ? k == 0 : k < g_len);
        __CPROVER_assume(g_kind == 2 || s[k] != '\0');
        *ep = (char*)s + k;
        _Bool e;
        if (e && k == 0) errno = EINVAL;
        if (e && k != 0) errno = ERANGE;
        unsigned long long r;
        return r;
    }
    *ep = (char*)s + strlen(s);
    if (g_mag > (unsigned __int128)UINT64_MAX){ errno = ERANGE; return UINT64_MAX; }
    return g_neg ? -(unsigned long long)g_mag : (unsigned long long)g_mag;
}
long strtol(const char *s, char **ep, int base){ return strtoll(s, ep, base); }
unsigned long strtoul(const char *s, char **ep, int base){ return strtoull(s, ep, base); }
/* the text is represented by its first and last position only */
size_t strlen(const char *s)
{
    __CPROVER_assert(s == g_str, "CHECK:strlen of the text");
    return g_len;
}
/* a complete number contains a minus sign exactly when it is a negated one */
char *strchr(const char *s, int c)
{
    __CPROVER_assert(s == g_str && c == '-', "CHECK:strchr looks for the sign in the text");
    if (g_kind == 0 ? g_neg : ({_Bool b; b;}))
        return (char*)s;
    return NULL;
}
char *strerror(int e){ static char m[2] = "e"; return m; }
#endif

#define CONTRACT(NAME, T, OKC, V) \
int NAME(char *str, T *val, char **reason) \
REQUIRES(str == g_str && __CPROVER_w_ok(val, sizeof(T)) && g_reasons == 0) \
REQUIRES(reason == NULL || __CPROVER_w_ok(reason, sizeof(char*))) \
ENSURES(RESULT == 1 || RESULT == 0 || RESULT == -1) \
ENSURES((RESULT == 1) == (OKC)) \
ENSURES(RESULT != 1 || *val == (T)(V)) \
ENSURES(RESULT == 1 || *val == OLD(*val)) \
ENSURES(RESULT != 0 || reason == NULL || (g_reasons == 1 && *reason != NULL)) \
ENSURES(RESULT != 1 || (g_reasons == 0)) \
ENSURES(RESULT != -1 || (reason != NULL && g_reasons == 0)) \
ASSIGNS(*val; reason != NULL: *reason; errno; g_reasons);

CONTRACT(parse_int8,   int8_t,   OKINT(-128, 127), VALUE)
CONTRACT(parse_int16,  int16_t,  OKINT(-32768, 32767), VALUE)
CONTRACT(parse_int32,  int32_t,  OKINT(INT32_MIN, INT32_MAX), VALUE)
CONTRACT(parse_int64,  int64_t,  OKINT(INT64_MIN, INT64_MAX), VALUE)
CONTRACT(parse_uint8,  uint8_t,  OKUINT(255), g_mag)
CONTRACT(parse_uint16, uint16_t, OKUINT(65535), g_mag)
CONTRACT(parse_uint32, uint32_t, OKUINT(UINT32_MAX), g_mag)
CONTRACT(parse_uint64, uint64_t, OKUINT(UINT64_MAX), g_mag)

static int64_t g_lo, g_hi;
static int parse_int64_base(char *str, int base, int64_t imin, int64_t imax, int64_t *val, char **reason)
REQUIRES(str == g_str && base == g_base && imin == g_lo && imax == g_hi && __CPROVER_w_ok(val, 8) && g_reasons == 0)
REQUIRES(reason == NULL || __CPROVER_w_ok(reason, sizeof(char*)))
ENSURES(RESULT == 1 || RESULT == 0 || RESULT == -1)
ENSURES((RESULT == 1) == (OKINT(g_lo, g_hi)))
ENSURES(RESULT != 1 || *val == VALUE)
ENSURES(RESULT == 1 || *val == OLD(*val))
ENSURES(RESULT != 0 || reason == NULL || (g_reasons == 1 && *reason != NULL))
ENSURES(RESULT != -1 || (reason != NULL && g_reasons == 0))
ASSIGNS(*val; reason != NULL: *reason; errno; g_reasons);

#include "cligen_cv.c"

static void
mktext(int base, char **reasonv, _Bool want)
{
    IN(uint8_t, kind);
    IN(_Bool, neg);
    IN(uint64_t, mag_lo);
    IN(uint8_t, mag_hi);
    IN(uint8_t, notation);
    IN(char, c0);
    g_kind = kind % 3; g_neg = neg & 1; g_base = base; g_reasons = 0;
    g_mag = ((unsigned __int128)(mag_hi & 63) << 64) | mag_lo;
#ifdef VH_NATIVE
    {
        char d[200], *q = d + 180, *t = malloc(220);
        unsigned __int128 m = g_mag;
        int b = base ? base : (notation % 3 == 0 ? 10 : notation % 3 == 1 ? 16 : 8);
        *q = 0;
        do { *--q = "0123456789abcdef"[m % b]; m /= b; } while (m);
        if (base == 0 && b == 16) { *--q = 'x'; *--q = '0'; }
        if (base == 0 && b == 8) *--q = '0';
        if (g_kind == 2) strcpy(t, "");
        else if (g_kind == 1 && (notation & 64)) { t[0] = (c0 >= 'g' && c0 <= 'z' && c0 != 'x') ? c0 : 'q'; strcpy(t+1, q); }
        else sprintf(t, "%s%s%s%s", notation & 8 ? " " : "", g_neg ? "-" : notation & 4 ? "+" : "", q, g_kind == 1 ? (notation & 16 ? "z" : notation & 32 ? " " : ".0") : "");
        g_str = t;
    }
#else
    {
        size_t n; __CPROVER_assume(n < VH_HUGE);
        if (g_kind == 2) n = 0; else __CPROVER_assume(n > 0);
        g_len = n;
        g_str = malloc(n + 1);
        __CPROVER_assume(g_str != NULL);
        g_str[n] = '\0';
        if (n > 0) __CPROVER_assume(g_str[0] != '\0');
    }
#endif
}

#define HARNESS(NAME, T, OKC, V) \
void h_##NAME(void) \
{ \
    IN(_Bool, want); IN(T, before); \
    char *r = NULL; T v = before; int ret; \
    want &= 1; \
    mktext(0, &r, want); \
    errno = 0; \
    ret = NAME(g_str, &v, want ? &r : NULL); \
    COVER("returns"); \
    CHECK(ret == 1 || ret == 0 || ret == -1, "documented return values"); \
    CHECK((ret == 1) == (OKC), "accepted exactly when a complete number in range"); \
    CHECK(ret != 1 || v == (T)(V), "exact value"); \
    CHECK(ret == 1 || v == before, "not set when rejected"); \
    CHECK(ret != 0 || !want || (g_reasons == 1 && r != NULL), "rejected with a reason"); \
    CHECK(ret != -1 || (want && g_reasons == 0), "fatal only without memory for the reason"); \
    if (ret == 1) COVER("accepted"); \
    if (ret == 0) COVER("rejected"); \
    if (ret == -1) COVER("no memory"); \
}
HARNESS(parse_int8,   int8_t,   OKINT(-128, 127), VALUE)
HARNESS(parse_int16,  int16_t,  OKINT(-32768, 32767), VALUE)
HARNESS(parse_int32,  int32_t,  OKINT(INT32_MIN, INT32_MAX), VALUE)
HARNESS(parse_int64,  int64_t,  OKINT(INT64_MIN, INT64_MAX), VALUE)
HARNESS(parse_uint8,  uint8_t,  OKUINT(255), g_mag)
HARNESS(parse_uint16, uint16_t, OKUINT(65535), g_mag)
HARNESS(parse_uint32, uint32_t, OKUINT(UINT32_MAX), g_mag)
HARNESS(parse_uint64, uint64_t, OKUINT(UINT64_MAX), g_mag)

/* the common worker, with any bounds */
void h_int64_base(void)
{
    IN(_Bool, want); IN(int64_t, before); IN(int64_t, lo); IN(int64_t, hi);
    char *r = NULL; int64_t v = before; int ret;
    want &= 1;
    g_lo = lo; g_hi = hi;
    mktext(10, &r, want);
    errno = 0;
    ret = parse_int64_base(g_str, 10, lo, hi, &v, want ? &r : NULL);
    COVER("returns");
    CHECK((ret == 1) == (OKINT(lo, hi)), "accepted exactly when a complete number in range");
    CHECK(ret != 1 || v == VALUE, "exact value");
}
