/* Executable model of formatted output (ISO C meaning of %d %u %x %s %c with 0, width, h, l) for the
 * verifier's readings. Outputs to a file and to a cbuf are captured in g_cap. */
#ifndef CMFMT_H
#define CMFMT_H
#ifndef VH_NATIVE
#include <stdarg.h>
#ifndef CAPSZ
#define CAPSZ 96
#endif
/* length of a text where the harness knows it: checked, then used (keeps positions concrete) */
#ifdef HLEN
static size_t vh_len(const char *t)
{
    for (size_t i = 0; i < HLEN; i++) __CPROVER_assert(t[i] != 0, "CHECK:text has the expected length");
    __CPROVER_assert(t[HLEN] == 0, "CHECK:text has the expected length");
    return HLEN;
}
#else
static size_t vh_len(const char *t){ size_t n = 0; while (t[n]) n++; return n; }
#endif
static char g_cap[CAPSZ];
static size_t g_capn;
struct vh_arg { unsigned long long u; const char *s; };
static struct vh_arg vh_as(const char *s){ struct vh_arg a = {0, s}; return a; }
static struct vh_arg vh_ap(const void *s){ struct vh_arg a = {0, s}; return a; }
static struct vh_arg vh_au(unsigned long long u){ struct vh_arg a = {u, 0}; return a; }
static struct vh_arg vh_ad(long long u){ struct vh_arg a = {(unsigned long long)u, 0}; return a; }
#define VH_A(x) _Generic((x)+0, char*: vh_as, const char*: vh_as, void*: vh_ap, const void*: vh_ap, \
    unsigned: vh_au, unsigned long: vh_au, unsigned long long: vh_au, default: vh_ad)(x)
#define VH_PARENS ()
#define VH_EXP(...)  VH_EXP3(VH_EXP3(VH_EXP3(__VA_ARGS__)))
#define VH_EXP3(...) VH_EXP2(VH_EXP2(VH_EXP2(__VA_ARGS__)))
#define VH_EXP2(...) VH_EXP1(VH_EXP1(VH_EXP1(__VA_ARGS__)))
#define VH_EXP1(...) __VA_ARGS__
#define VH_EACH(...) __VA_OPT__(VH_EXP(VH_EACH_(__VA_ARGS__)))
#define VH_EACH_(a, ...) VH_A(a), __VA_OPT__(VH_AGAIN VH_PARENS (__VA_ARGS__))
#define VH_AGAIN() VH_EACH_
#define VH_ARGS(...) (const struct vh_arg[]){VH_EACH(__VA_ARGS__) vh_au(0)}
static int vh_vformat(char *s, size_t n, const char *f, const struct vh_arg *ap)
{
    size_t o = 0;
#define VH_OUT(c) do { if (o + 1 < n) s[o] = (c); o++; } while (0)
    while (*f){
        if (*f != '%'){ VH_OUT(*f); f++; continue; }
        f++;
        int h = 0, l = 0, neg = 0, k = 0, zero = 0, w = 0;
        if (*f == '0') { zero = 1; f++; }
        while (*f >= '0' && *f <= '9') { w = w * 10 + (*f - '0'); f++; }
        while (*f == 'h') { h++; f++; }
        while (*f == 'l') { l++; f++; }
        if (*f == 's'){
            const char *t = (ap++)->s;
            size_t tl = vh_len(t);
            for (size_t i = 0; i < tl; i++) VH_OUT(t[i]);
            f++;
            continue;
        }
        if (*f == 'c'){ int c = (int)(ap++)->u; VH_OUT((char)c); f++; continue; }
        if (*f == '%'){ VH_OUT('%'); f++; continue; }
        __CPROVER_assert(*f == 'd' || *f == 'u' || *f == 'x', "CHECK:conversion");
        char d[24];
        if (*f == 'x'){
            unsigned long long v = l ? ap->u : (unsigned)ap->u; ap++;
            if (h == 2) v &= 0xff; if (h == 1) v &= 0xffff;
            if (zero && w > 0 && w < 16){
                __CPROVER_assert((v >> (4 * w)) == 0, "CHECK:number fits its field");
                __CPROVER_assume((v >> (4 * w)) == 0);
                while (k < w) { int x = v & 15; d[k++] = x < 10 ? '0' + x : 'a' + x - 10; v >>= 4; }
            }
            else do { int x = v & 15; d[k++] = x < 10 ? '0' + x : 'a' + x - 10; v >>= 4; } while (v);
        }
        else {
            unsigned long long v;
            if (*f == 'd'){
                long long q = l ? (long)ap->u : (int)ap->u; ap++;
                if (h == 2) q = (signed char)q; if (h == 1) q = (short)q;
                neg = q < 0; v = neg ? -(unsigned long long)q : (unsigned long long)q;
            } else {
                v = l ? ap->u : (unsigned)ap->u; ap++;
                if (h == 2) v &= 0xff; if (h == 1) v &= 0xffff;
            }
            if (!l && v > 4294967295ULL) v &= 0xffffffff;
            if (zero && w > 0 && !neg && w < 10){
                unsigned long long p10 = 1;
                for (int j = 0; j < w; j++) p10 *= 10;
                __CPROVER_assert(v < p10, "CHECK:number fits its field");
                __CPROVER_assume(v < p10);
                unsigned x = v;
                while (k < w) { d[k++] = '0' + x % 10; x /= 10; }
            }
            else if (l){ do { d[k++] = '0' + v % 10; v /= 10; } while (v); }
            else { unsigned x = v; do { d[k++] = '0' + x % 10; x /= 10; } while (x); }
        }
        if (!zero) { int j = k + neg; while (j < w) { VH_OUT(' '); j++; } }
        if (neg) VH_OUT('-');
        if (zero) { int j = k + neg; while (j < w) { VH_OUT('0'); j++; } }
        while (k) { k--; VH_OUT(d[k]); }
        f++;
    }
    if (n) s[o < n ? o : n - 1] = 0;
    return (int)o;
}
static int vh_capture(const char *f, const struct vh_arg *ap)
{
    int r = vh_vformat(g_cap + g_capn, sizeof(g_cap) - g_capn, f, ap);
    g_capn += r;
    return r;
}
#define snprintf(s, n, f, ...) vh_vformat(s, n, f, VH_ARGS(__VA_ARGS__))
#define vh_cap_(f, ...) vh_capture(f, VH_ARGS(__VA_ARGS__))
#define fprintf(f, ...) vh_cap_(__VA_ARGS__)
#define cprintf(cb, ...) vh_cap_(__VA_ARGS__)
#endif
#endif
