/* C06: cv_cmp is a consistent total order that agrees with the natural order of each type. */
#include "cvh.h"
/* Text: the only thing known of a text is its place in the order of texts. g_s[i] is a text of
 * rank g_rank[i]; strcmp orders by rank. */
#ifndef VH_NATIVE
static char g_s[15];
#else
static char g_s[15][8];
#endif
static uint32_t g_rank[15];
#ifdef VH_NATIVE
static char *text(int i){
    uint32_t r = g_rank[i];
    char *s = g_s[i];
    for (int k = 4; k >= 0; k--){ s[k] = (char)(1 + r % 255); r /= 255; }
    s[5] = 0;
    return s;
}
#else
static char *text(int i){ return &g_s[i]; }
int strcmp(const char *a, const char *b)
REQUIRES(__CPROVER_r_ok(a, 1) && __CPROVER_r_ok(b, 1))
{
    __CPROVER_assert(a != NULL && b != NULL, "CHECK:strcmp on texts");
    __CPROVER_assert(a >= g_s && a < g_s + 15 && b >= g_s && b < g_s + 15, "CHECK:strcmp on the variables' texts");
    uint32_t x = g_rank[a - g_s], y = g_rank[b - g_s];
    int r;
    __CPROVER_assume(x < y ? r < 0 : x > y ? r > 0 : r == 0);
    return r;
}
int memcmp(const void *a, const void *b, size_t n)
{
    const unsigned char *p = a, *q = b;
    __CPROVER_assert(n <= 16, "CHECK:memcmp of a value");
    for (size_t i = 0; i < 16; i++){
        if (i < n && p[i] != q[i]){
            int r;
            __CPROVER_assume(p[i] < q[i] ? r < 0 : r > 0);
            return r;
        }
    }
    return 0;
}
#endif
#include "cligen_cv.c"

static void bytes(cg_var *v)
{
    IN(uint64_t, x0); IN(uint64_t, x1); IN(uint64_t, x2);
#ifdef VH_NATIVE
    { IN(uint8_t, few); if (few & 1){ x0 &= 0xff000000000000ff; x1 &= 0xff000000000000ff; x2 &= 3; } }
#endif
    memcpy((char*)&v->u, &x0, 8); memcpy((char*)&v->u + 8, &x1, 8); memcpy((char*)&v->u + 16, &x2, 8);
}
static void value(cg_var *v, int who)
{
    memset(v, 0, sizeof(*v));
    IN(uint8_t, t);
#ifdef VH_NATIVE
    t %= CGV_EMPTY + 1;
    { static uint8_t last; IN(uint8_t, same); if (who && (same & 3)) t = last; last = t; }
#endif
    ASSUME(t <= CGV_EMPTY);
#ifdef TYPE_
    ASSUME(t == TYPE_);
#endif
    v->var_type = t;
    bytes(v);
    if (t == CGV_BOOL) v->var_bool &= 1;
    if (t == CGV_DEC64) v->var_dec64_n = 2;
    for (int i = 0; i < 5; i++){
        IN(uint32_t, rank);
#ifdef VH_NATIVE
        rank &= 0x8f;
#endif
        g_rank[who*5+i] = rank;
    }
    if (cv_isstring(t)) v->var_string = text(who*5);
    if (t == CGV_URL){
        v->var_urlproto = text(who*5); v->var_urladdr = text(who*5+1); v->var_urlpath = text(who*5+2);
        v->var_urluser = text(who*5+3); v->var_urlpasswd = text(who*5+4);
    }
}
#define ORD(a, b)       ((a) > (b) ? 1 : (a) < (b) ? -1 : 0)
static int octets(const unsigned char *a, const unsigned char *b, int n)
{
    for (int i = 0; i < 16; i++)
        if (i < n && a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return 0;
}
/* the natural order of two values of one type */
static int natural(cg_var *a, int ia, cg_var *b, int ib)
{
    int r, i;
    switch (a->var_type){
    case CGV_INT8: return ORD((int64_t)a->var_int8, (int64_t)b->var_int8);
    case CGV_INT16: return ORD((int64_t)a->var_int16, (int64_t)b->var_int16);
    case CGV_INT32: return ORD((int64_t)a->var_int32, (int64_t)b->var_int32);
    case CGV_INT64: return ORD(a->var_int64, b->var_int64);
    case CGV_UINT8: return ORD((uint64_t)a->var_uint8, (uint64_t)b->var_uint8);
    case CGV_UINT16: return ORD((uint64_t)a->var_uint16, (uint64_t)b->var_uint16);
    case CGV_UINT32: return ORD((uint64_t)a->var_uint32, (uint64_t)b->var_uint32);
    case CGV_UINT64: return ORD(a->var_uint64, b->var_uint64);
    case CGV_DEC64: return ORD(a->var_dec64_i, b->var_dec64_i);
    case CGV_BOOL: return ORD(a->var_bool, b->var_bool);
    case CGV_REST: case CGV_STRING: case CGV_INTERFACE: return ORD(g_rank[ia*5], g_rank[ib*5]);
    case CGV_IPV4ADDR: return octets((void*)&a->var_ipv4addr, (void*)&b->var_ipv4addr, 4);
    case CGV_IPV4PFX: return (r = octets((void*)&a->var_ipv4addr, (void*)&b->var_ipv4addr, 4)) ? r : ORD(a->var_ipv4masklen, b->var_ipv4masklen);
    case CGV_IPV6ADDR: return octets((void*)&a->var_ipv6addr, (void*)&b->var_ipv6addr, 16);
    case CGV_IPV6PFX: return (r = octets((void*)&a->var_ipv6addr, (void*)&b->var_ipv6addr, 16)) ? r : ORD(a->var_ipv6masklen, b->var_ipv6masklen);
    case CGV_MACADDR: return octets((void*)a->var_macaddr, (void*)b->var_macaddr, 6);
    case CGV_UUID: return octets(a->var_uuid, b->var_uuid, 16);
    case CGV_TIME: return a->var_time.tv_sec != b->var_time.tv_sec ? ORD(a->var_time.tv_sec, b->var_time.tv_sec) : ORD(a->var_time.tv_usec, b->var_time.tv_usec);
    case CGV_URL:
        for (i = 0; i < 5; i++) if (g_rank[ia*5+i] != g_rank[ib*5+i]) return ORD(g_rank[ia*5+i], g_rank[ib*5+i]);
        return 0;
    case CGV_VOID: return ORD((uintptr_t)a->var_void, (uintptr_t)b->var_void);
    default: return 0;
    }
}
#define SGN(x) ((x) > 0 ? 1 : (x) < 0 ? -1 : 0)

void h_natural(void)
{
    cg_var a, b;
    value(&a, 0); value(&b, 1);
    int ab = cv_cmp(&a, &b);
    COVER("compared");
    if (a.var_type == b.var_type){
        if (ab == 0) COVER("equal");
        CHECK(SGN(ab) == natural(&a, 0, &b, 1), "the natural order of the type");
    }
    else if (cv_isstring(a.var_type) && cv_isstring(b.var_type))
        CHECK(SGN(ab) == natural(&a, 0, &b, 1), "text kinds compare as text");
    else
        CHECK(ab != 0, "values of different types are never equal");
}
void h_order(void)
{
    cg_var a, b, c;
    value(&a, 0); value(&b, 1);
    int ab = cv_cmp(&a, &b), ba = cv_cmp(&b, &a);
    COVER("compared");
    CHECK(SGN(ab) == -SGN(ba), "antisymmetric");
    CHECK(cv_cmp(&a, &a) == 0, "a value equals itself");
#ifdef TRANS
    value(&c, 2);
    int bc = cv_cmp(&b, &c), ac = cv_cmp(&a, &c);
    CHECK(!(ab < 0 && bc < 0) || ac < 0, "transitive");
    CHECK(!(ab == 0) || SGN(ac) == SGN(bc), "equal values compare alike");
#endif
}
