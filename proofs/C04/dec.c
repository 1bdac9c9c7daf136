/* C04: decimal numbers. parse_dec64 and cv_dec64_print of cligen_cv.c */
#include "cvh.h"

/* The text: length g_len, first point at g_p when g_dot. Ghost positions g_k (integer part), g_j (fraction). */
static char *g_str, *g_s0;
static size_t g_len, g_p;
#define g_k cligen_ghost_k
#define g_j cligen_ghost_j
static _Bool g_dot, g_hasdigit, g_allfrac, g_complete, g_sep;
static __int128 g_value;        /* value of the digits with the point removed and n fraction digits */
static uint8_t g_n;
#define LEN1  (g_dot ? g_p : g_len)
#define LEN2  (g_dot ? g_len - g_p - 1 : 0)
#define OKDEC (g_n >= 1 && g_n <= 18 && g_hasdigit && (!g_dot || (g_allfrac && LEN2 <= g_n)) && g_complete && \
               g_value >= (__int128)INT64_MIN && g_value <= (__int128)INT64_MAX)

#if defined(VH_PROOF) && !defined(PRINT)
char *strdup(const char *s)
{
    __CPROVER_assert(s == g_str, "CHECK:strdup of the text");
    char *r = malloc(g_len + 1);
    if (r){                     /* fresh memory: every byte arbitrary but those of interest */
        r[g_len] = '\0';
        if (g_k < g_len) r[g_k] = s[g_k];
        if (g_dot && g_j < LEN2) r[g_p + 1 + g_j] = s[g_p + 1 + g_j];
        g_s0 = r; g_sep = 0;
    }
    return r;
}
/* copies n bytes: those of interest by value, the others arbitrary */
static void *vh_memcpy(void *d, const void *s, size_t n)
{
    __CPROVER_assert(n == 0 || (__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n)), "CHECK:memcpy within its objects");
    if (n > 0) {
        char ck = ((const char*)s)[g_k < n ? g_k : 0], cj = ((const char*)s)[g_j < n ? g_j : 0];
        __CPROVER_havoc_slice(d, n);
        if (g_k < n) ((char*)d)[g_k] = ck;
        if (g_j < n) ((char*)d)[g_j] = cj;
    }
    return d;
}
#define memcpy vh_memcpy
size_t strlen(const char *s)
{
    if (s == g_str) return g_len;
    if (s == g_s0) return g_sep ? LEN1 : g_len;
    __CPROVER_assert(g_dot && s == g_s0 + g_p + 1, "CHECK:strlen of a part of the text");
    return LEN2;
}
char *strsep(char **sp, const char *d)
{
    char *s = *sp;
    __CPROVER_assert(s == g_s0 && !g_sep && d[0] == '.' && d[1] == '\0', "CHECK:split at the point");
    g_sep = 1;
    if (g_dot){ s[g_p] = '\0'; *sp = s + g_p + 1; }
    else *sp = NULL;
    return s;
}
char *strpbrk(const char *s, const char *set)
{
    __CPROVER_assert(s == g_str, "CHECK:digits looked for in the text");
    return g_hasdigit ? (char*)s : NULL;
}
size_t strspn(const char *s, const char *set)
{
    __CPROVER_assert(g_dot && s == g_s0 + g_p + 1, "CHECK:fraction scanned");
    size_t r;
    __CPROVER_assume(g_allfrac ? r == LEN2 : r < LEN2);
    return r;
}
char *strerror(int e){ static char m[2] = "e"; return m; }
long long strtoll(const char *s, char **ep, int base)
{
    size_t l1 = LEN1;
    __CPROVER_assert(base == 10, "CHECK:decimal base");
    __CPROVER_assert(!(g_k < l1) || s[g_k] == g_str[g_k], "CHECK:digits before the point are those of the text");
    __CPROVER_assert(!(g_j < g_n && g_dot && g_j < LEN2) || s[l1 + g_j] == g_str[g_p + 1 + g_j], "CHECK:fraction digits follow");
    __CPROVER_assert(!(g_j < g_n && !(g_dot && g_j < LEN2)) || s[l1 + g_j] == '0', "CHECK:zero filled to n fraction digits");
    __CPROVER_assert(s[l1 + g_n] == '\0', "CHECK:exactly n fraction digits");
    __CPROVER_assume(s[0] != '\0');    /* no null inside the text or its copy */
    if (!g_complete){
        size_t k;
        __CPROVER_assume(k < l1 + g_n && s[k] != '\0');
        *ep = (char*)s + k;
        long long r; return r;
    }
    *ep = (char*)s + l1 + g_n;
    if (g_value > (__int128)INT64_MAX){ errno = ERANGE; return INT64_MAX; }
    if (g_value < (__int128)INT64_MIN){ errno = ERANGE; return INT64_MIN; }
    return (long long)g_value;
}
#elif defined(VH_BMC)
#include "cmodels.h"
char *strerror(int e){ static char m[2] = "e"; return m; }
#endif

#if defined(PRINT) && !defined(VH_NATIVE)
/* snprintf("%0*" PRIu64, width, v): the digits of v, zero filled to the width.
 * g_dig[0] is the least significant digit */
static uint8_t g_dig[20];
static int g_nd;                /* digits written */
static unsigned long long g_pv; /* value printed */
static int vh_snprintf(char *s, size_t size, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    __CPROVER_assert(fmt[0] == '%' && fmt[1] == '0' && fmt[2] == '*' && fmt[3] == 'l' && (fmt[4] == 'u' || fmt[4] == 'd') && fmt[5] == 0,
                     "CHECK:zero filled decimal format");
    int w = va_arg(ap, int);
    unsigned long v = va_arg(ap, unsigned long);
    va_end(ap);
    if (fmt[4] == 'd') __CPROVER_assert((long)v >= 0, "CHECK:value printed is not negative");
    unsigned __int128 sum = 0, p = 1;
    int nd = 1;
    for (int i = 0; i < 20; i++){
        uint8_t d; __CPROVER_assume(d <= 9);
        g_dig[i] = d;
        sum += p * d; p *= 10;
        if (d) nd = i + 1;
    }
    __CPROVER_assume(sum == v);
    g_pv = v;
    if (nd < w) nd = w;
    g_nd = nd;
    __CPROVER_assert(nd <= 20 && (size_t)nd + 1 <= size, "CHECK:digits fit the text");
    for (int i = 0; i < 20; i++)
        if (i < nd) s[i] = '0' + g_dig[nd - 1 - i];
    s[nd] = '\0';
    return nd;
}
#define snprintf vh_snprintf
#if defined(VH_PROOF)
static _Bool g_rneg;
char *strerror(int e){ static char m[2] = "e"; return m; }
#endif
#endif

#ifndef PRINT
int parse_dec64(char *str, uint8_t n, int64_t *dec64_i, char **reason)
REQUIRES(str == g_str && n == g_n && __CPROVER_w_ok(dec64_i, 8) && g_reasons == 0 && g_len < INT_MAX - 64)
REQUIRES(reason == NULL || __CPROVER_w_ok(reason, sizeof(char*)))
ENSURES(RESULT == 1 || RESULT == 0 || RESULT == -1)
ENSURES(RESULT != 1 || ((OKDEC) && *dec64_i == (int64_t)g_value))
ENSURES(RESULT != 0 || !(OKDEC))
ENSURES(RESULT == 1 || *dec64_i == OLD(*dec64_i))
ENSURES(RESULT != 0 || reason == NULL || (g_reasons == 1 && *reason != NULL))
ASSIGNS(*dec64_i; reason != NULL: *reason; errno; g_reasons; g_s0; g_sep);
#endif

#include "cligen_cv.c"

#ifdef VH_NATIVE
#define REFERENCE
#endif
#if !defined(VH_PROOF)
/* the definition: [blanks][sign]digits[.digits], a digit somewhere, at most n fraction digits */
static int
ref(const char *s, int n)
{
    int any = 0, neg = 0, f = 0;
    __int128 v = 0;
    const __int128 lim = (__int128)1 << 100;
    g_complete = 0;
    if (n < 1 || n > 18) return 0;
    while (*s == ' ' || (*s >= '\t' && *s <= '\r')) s++;
    if (*s == '-') { neg = 1; s++; } else if (*s == '+') s++;
    while (*s >= '0' && *s <= '9') { if (v < lim) v = v*10 + (*s - '0'); s++; any = 1; }
    if (*s == '.'){
        s++;
        while (*s >= '0' && *s <= '9') { if (v < lim) v = v*10 + (*s - '0'); s++; any = 1; f++; }
    }
    if (*s || !any || f > n) return 0;
    for (; f < n; f++) if (v < lim) v *= 10;
    g_value = neg ? -v : v;
    return g_value >= (__int128)INT64_MIN && g_value <= (__int128)INT64_MAX;
}
#endif

void h_parse(void)
{
    IN(uint8_t, n); IN(_Bool, want); IN(int64_t, before); IN(uint8_t, mode); IN(uint64_t, len);
    char *r = NULL;
    int64_t v = before;
    int ret;
    want &= 1;
    g_n = n; g_reasons = 0;
#ifdef VH_PROOF
    size_t len_, p_, k_, j_; _Bool dot_, hd_, af_, co_; __int128 val_;
    g_len = len_; g_p = p_; g_k = k_; g_j = j_; g_dot = dot_; g_hasdigit = hd_; g_allfrac = af_; g_complete = co_; g_value = val_;
    ASSUME(g_len < INT_MAX - 64);
    ASSUME(!g_dot || g_p < g_len);
    g_str = malloc(g_len + 1);
    ASSUME(g_str != NULL);
    g_str[g_len] = '\0';
    ASSUME(!g_dot || g_str[g_p] == '.');
    ASSUME(g_len == 0 || g_str[0] != '\0');
    /* position and value facts that any text has */
    ASSUME(!(g_dot && LEN2 == 0) || g_allfrac);
    ASSUME(!(LEN1 == 0 && LEN2 == 0) || !g_hasdigit);
    ASSUME(!(g_dot && g_allfrac && LEN2 > 0) || g_hasdigit);
#else
#ifdef VH_BMC
    ASSUME(mode == 0 && len <= 5);
    ASSUME(n <= 4);
    g_str = vh_string(len);
#else
    if (mode & 1){          /* near the limits */
        char d[400], *q = d + 300; int i, fd = (mode >> 2) % 20; 
        unsigned __int128 m = ((unsigned __int128)1 << 63) + (int64_t)(before % 20) - 10;
        g_str = malloc(400);
        for (i = fd; i < n && n <= 18; i++) ;
        *q = 0; i = 0;
        do { if (i++ == fd) *--q = '.'; *--q = '0' + (int)(m % 10); m /= 10; } while (m);
        sprintf(g_str, "%s%s", mode & 2 ? "-" : "", q);
        if (mode & 128) { n = fd; g_n = n; }
    }
    else
        g_str = vh_string(len % 8);
#endif
    int ok = ref(g_str, n);
#endif
    errno = 0;
    ret = parse_dec64(g_str, n, &v, want ? &r : NULL);
    COVER("returns");
#ifdef VH_PROOF
    int ok = OKDEC;
    if (ret == 1) COVER("accepted");
    if (ret == 1 && g_dot && LEN2 > 0) COVER("accepted with fraction");
    if (ret == 0) COVER("rejected");
#endif
    CHECK(ret == 1 || ret == 0 || ret == -1, "documented return values");
    CHECK(ret != 1 || ok, "only well formed decimals in range accepted");
    CHECK(ret != 1 || v == (int64_t)g_value, "exact value");
    CHECK(ret != 0 || !ok, "well formed decimals in range accepted");
    CHECK(ret == 1 || v == before, "not set when rejected");
    CHECK(ret != 0 || !want || r != NULL, "rejected with a reason");
}

/* print writes sign, at least one integer digit, point, exactly n digits */
void h_print(void)
{
    IN(int64_t, v); IN(uint8_t, n);
    char s[64];
    int len = sizeof(s), ret, i, o;
    cg_var cv;
    int64_t w = 0;
    char *r = NULL;

    ASSUME(n >= 1 && n <= 18);
    memset(&cv, 0, sizeof(cv));
    cv.var_type = CGV_DEC64; cv.var_dec64_n = n; cv.var_dec64_i = v;
#ifndef VH_PROOF
    memset(s, 'x', sizeof(s));
#endif
    ret = cv_dec64_print(&cv, s, &len);
    CHECK(ret == 0, "print succeeds");
    COVER("printed");
#if defined(PRINT) && defined(VH_PROOF)
    g_rneg = v < 0;
    o = v < 0;
    CHECK(g_pv == (v < 0 ? -(uint64_t)v : (uint64_t)v), "magnitude printed");
    CHECK(!o || s[0] == '-', "sign printed");
    CHECK(g_nd > n, "an integer digit is printed");
    for (i = 0; i < 20; i++){
        if (i < g_nd - n) CHECK(s[o + i] == '0' + g_dig[g_nd - 1 - i], "integer digits printed");
        if (i >= g_nd - n && i < g_nd) CHECK(s[o + i + 1] == '0' + g_dig[g_nd - 1 - i], "fraction digits printed");
    }
    CHECK(s[o + g_nd - n] == '.', "point printed before the fraction digits");
    CHECK(s[o + g_nd + 1] == '\0', "text ends after n fraction digits");
#elif !defined(VH_PROOF)
    CHECK(ref(s, n) && g_value == v, "text printed denotes the value");
    CHECK(strchr(s, '.') && strlen(strchr(s, '.') + 1) == n, "all fraction digits printed");
#endif
#ifndef VH_PROOF
    errno = 0;
    ret = parse_dec64(s, n, &w, NULL);
    CHECK(ret == 1 || ret == -1, "printed text is accepted");
    CHECK(ret != 1 || w == v, "printed text parses back to the value");
#endif
}
