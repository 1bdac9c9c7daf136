/* C24: type names, classes and limits */
#include "cvh.h"
#ifndef VH_NATIVE
/* snprintf with at most one integer argument: executable model of ISO C's text */
static int vh_sn(char *s, size_t n, const char *f, unsigned long long v)
{
    size_t o = 0;
#define OUT(c) do { if (o + 1 < n) s[o] = (c); o++; } while (0)
    while (*f){
        if (*f != '%'){ OUT(*f); f++; continue; }
        f++;
        int h = 0, l = 0, neg = 0, k = 0;
        while (*f == 'h') { h++; f++; }
        while (*f == 'l') { l++; f++; }
        __CPROVER_assert(*f == 'd' || *f == 'u', "CHECK:integer conversion");
        if (*f == 'd'){
            long long w = h == 2 ? (signed char)v : h == 1 ? (short)v : l ? (long long)v : (int)v;
            neg = w < 0; v = neg ? -(unsigned long long)w : (unsigned long long)w;
        } else v = h == 2 ? (unsigned char)v : h == 1 ? (unsigned short)v : l ? v : (unsigned)v;
        f++;
        char d[24];
        do { d[k++] = '0' + v % 10; v /= 10; } while (v);
        if (neg) OUT('-');
        while (k) { k--; OUT(d[k]); }
    }
    if (n) s[o < n ? o : n - 1] = 0;
    return (int)o;
}
#define VH_FIRST(a, ...) (a)
#define snprintf(s, n, f, ...) vh_sn(s, n, f, VH_FIRST(__VA_ARGS__ __VA_OPT__(,) 0))
#define fprintf(...) ((void)0)
#endif
#include "cligen_cv.c"
#ifndef VH_NATIVE
#undef snprintf
#undef fprintf
#endif
static const char *const name[] = {
    [CGV_INT8]="int8", [CGV_INT16]="int16", [CGV_INT32]="int32", [CGV_INT64]="int64",
    [CGV_UINT8]="uint8", [CGV_UINT16]="uint16", [CGV_UINT32]="uint32", [CGV_UINT64]="uint64",
    [CGV_DEC64]="decimal64", [CGV_BOOL]="bool", [CGV_REST]="rest", [CGV_STRING]="string",
    [CGV_INTERFACE]="interface", [CGV_IPV4ADDR]="ipv4addr", [CGV_IPV4PFX]="ipv4prefix",
    [CGV_IPV6ADDR]="ipv6addr", [CGV_IPV6PFX]="ipv6prefix", [CGV_MACADDR]="macaddr",
    [CGV_URL]="url", [CGV_UUID]="uuid", [CGV_TIME]="time", [CGV_VOID]="void", [CGV_EMPTY]="empty"};

static _Bool eq(const char *a, const char *b)
{
    for (int i = 0; i < 12; i++){
        if (a[i] != b[i]) return 0;
        if (a[i] == 0) return 1;
    }
    return 0;
}
/* any text: the longest known name has 10 characters, so no comparison reads further than the 11th */
void h_names(void)
{
    IN(size_t, n);
    char *s;
#ifdef VH_NATIVE
    { IN(uint8_t, k); IN(uint8_t, cut); IN(uint8_t, ext); IN(char, c); k %= CGV_EMPTY + 1;
      s = calloc(1, 16); strcpy(s, k ? name[k] : "ipaddr");
      if (cut & 1) s[strlen(s)-1] = 0;
      if (ext & 1){ s[strlen(s)+1] = 0; s[strlen(s)] = c; } }
#else
    BOUND(n, 12);
    ASSUME(n < VH_HUGE);
    s = vh_string(n);
#endif
    enum cv_type t = cv_str2type(s);
    COVER("returns");
    if (t == CGV_ERR) COVER("unknown name");
    CHECK(t >= CGV_ERR && t <= CGV_EMPTY, "a type");
    if (t != CGV_ERR)
        CHECK(eq(s, name[t]) || (t == CGV_IPV4ADDR && eq(s, "ipaddr")), "a known type only for its name");
    else {
        IN(uint8_t, o);
        o %= CGV_EMPTY + 1;
        CHECK(o == CGV_ERR || !eq(s, name[o]), "every name is known");
    }
}
void h_types(void)
{
    IN(int, t);
    if (t >= CGV_INT8 && t <= CGV_EMPTY){
        const char *s = cv_type2str(t);
        COVER("a type");
        CHECK(s != NULL && eq(s, name[t]), "the name of the type");
        CHECK(s != NULL && cv_str2type(s) == t, "the name maps back to the type");
    }
    else if (t != CGV_ERR)
        CHECK(cv_type2str(t) == NULL, "no name for what is not a type");
    _Bool i = t >= CGV_INT8 && t <= CGV_UINT64;
    CHECK(!!cv_isint(t) == i, "integer types");
    CHECK(!!cv_isstring(t) == (t == CGV_STRING || t == CGV_REST || t == CGV_INTERFACE), "text types");
    CHECK(!!cv_inline(t) == (t >= CGV_ERR && t <= CGV_EMPTY && t != CGV_STRING && t != CGV_REST && t != CGV_INTERFACE && t != CGV_URL && t != CGV_VOID),
          "types without owned memory");
}
void h_limits(void)
{
    cg_var v, e;
    IN(uint8_t, t); IN(_Bool, max); IN(uint64_t, x); IN(uint8_t, n); IN(uint8_t, at);
    t %= CGV_EMPTY + 1; max &= 1;
    memset(&v, 0, sizeof(v));
    memcpy(&v.u, &x, 8); v.var_type = t;
    if (t == CGV_DEC64) v.var_dec64_n = n;
    memcpy(&e, &v, sizeof(v));
    CHECK((max ? cv_max_set(&v) : cv_min_set(&v)) == 0, "done");
    COVER("returns");
    switch (t){
    case CGV_INT8: e.var_int8 = max ? 127 : -128; break;
    case CGV_INT16: e.var_int16 = max ? 32767 : -32768; break;
    case CGV_INT32: e.var_int32 = max ? 2147483647 : -2147483647 - 1; break;
    case CGV_INT64: case CGV_DEC64: e.var_int64 = max ? 9223372036854775807LL : -9223372036854775807LL - 1; break;
    case CGV_UINT8: e.var_uint8 = max ? 255 : 0; break;
    case CGV_UINT16: e.var_uint16 = max ? 65535 : 0; break;
    case CGV_UINT32: e.var_uint32 = max ? 4294967295U : 0; break;
    case CGV_UINT64: e.var_uint64 = max ? 18446744073709551615ULL : 0; break;
    case CGV_BOOL: e.var_bool = max; break;
    default: break;
    }
    at %= sizeof(e.u);
    CHECK(((unsigned char*)&v.u)[at] == ((unsigned char*)&e.u)[at], "exactly the limit of the width and sign");
    CHECK(v.var_type == t && v.var_name == NULL && v.var_flag == 0 && v.var_const == 0, "nothing else changes");
}
static const char *const maxtext[] = {
    [CGV_INT8]="127", [CGV_INT16]="32767", [CGV_INT32]="2147483647", [CGV_INT64]="9223372036854775807",
    [CGV_UINT8]="255", [CGV_UINT16]="65535", [CGV_UINT32]="4294967295", [CGV_UINT64]="18446744073709551615"};
static _Bool eq2(const char *a, const char *b)
{
    for (int i = 0; i < 22; i++){
        if (a[i] != b[i]) return 0;
        if (a[i] == 0) return 1;
    }
    return 0;
}
void h_max(void)
{
    IN(uint8_t, t);
    t = CGV_INT8 + t % 8;
    char *s = cvtype_max2str_dup(t);
    COVER("returns");
    if (s) CHECK(eq2(s, maxtext[t]), "the text of the limit");
}
