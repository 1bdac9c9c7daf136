/* C08: booleans, MAC addresses, UUIDs and address prefixes */
#include "cvh.h"
#ifndef HLEN
#define HLEN_UNKNOWN
#endif
#include "cmfmt.h"
#ifdef HLEN_UNKNOWN
#define HLEN 0
#endif
static size_t g_n;              /* length of the text given */
#ifndef VH_NATIVE
#ifdef LEN_STUB
size_t strlen(const char *s){ return g_n; }
#endif
#ifdef PRINT
#ifndef HLEN_UNKNOWN
size_t strlen(const char *s){ return vh_len(s); }
#endif
char *strchr(const char *s, int c)
{
    __CPROVER_assert(c == '/' && HLEN == 3, "CHECK:search for the slash");
    for (int i = 0; i < HLEN; i++) __CPROVER_assert(s[i] != '/' && s[i] != 0, "CHECK:no slash in the address");
    return s[HLEN] == '/' ? (char*)s + HLEN : NULL;
}
char *strdup(const char *s)
{
    char *r = malloc(96);
    if (r == NULL) return NULL;
    for (int i = 0; i < 96; i++) r[i] = s[i];
    return r;
}
#endif
/* sscanf of hexadecimal numbers, each %x with an optional width: executable model */
static int vh_scan(const char *s, const char *f, unsigned **v)
{
    int n = 0;
    while (*f){
        if (*f != '%'){ if (*s != *f) return n; s++; f++; continue; }
        f++;
        int w = 0;
        while (*f >= '0' && *f <= '9') { w = w * 10 + (*f - '0'); f++; }
        __CPROVER_assert(*f == 'x', "CHECK:hexadecimal conversion");
        f++;
        if (w == 0) w = 8;
        unsigned r = 0; int any = 0;
        while (w > 0){
            char c = *s;
            int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
            if (d < 0) break;
            r = r * 16 + d; any = 1; s++; w--;
        }
        if (!any) return n;
        *v[n++] = r;
    }
    return n;
}
#define sscanf(s, f, ...) vh_scan(s, f, (unsigned*[]){__VA_ARGS__})
#endif
#include "cligen_cv.c"
#undef sscanf
#undef snprintf
#undef fprintf
#undef cprintf

static int hexv(char c)
{
    return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}
static _Bool eqs(const char *a, const char *b)
{
    for (int i = 0; i < 10; i++){
        if (a[i] != b[i]) return 0;
        if (a[i] == 0) return 1;
    }
    return 0;
}
/* a text for the native reading: a valid form with some damage */
#ifdef VH_NATIVE
static char *near_text(const char *form)
{
    IN(uint8_t, dmg); IN(uint8_t, at); IN(char, c); IN(uint64_t, r);
    size_t n = strlen(form);
    char *s = calloc(1, n + 4);
    for (size_t i = 0; i < n; i++){
        r = r * 6364136223846793005ULL + 1442695040888963407ULL;
        s[i] = form[i] == 'x' ? "0123456789abcdefABCDEF"[(r >> 33) % 22] : form[i];
    }
    at %= n;
    switch (dmg % 6){
    case 0: s[at] = c; break;
    case 1: s[n-1] = 0; break;
    case 2: s[n] = 'a'; break;
    case 3: { char t = s[at]; s[at] = s[(at+1)%n]; s[(at+1)%n] = t; break; }
    }
    return s;
}
#endif
void h_bool(void)
{
    IN(size_t, n); IN(_Bool, want); IN(uint8_t, v0);
    char *r = NULL, *s;
    uint8_t v = v0;
    want &= 1;
#ifdef VH_NATIVE
    { IN(uint8_t, k); static const char *f[] = {"true", "false", "on", "off", "enable", "disable"}; s = near_text(f[k % 6]); }
#else
    BOUND(n, 8);
    ASSUME(n < VH_HUGE);
    s = vh_string(n);
#endif
    int ret = parse_bool(s, &v, want ? &r : NULL);
    _Bool yes = eqs(s, "true") || eqs(s, "on") || eqs(s, "enable"), no = eqs(s, "false") || eqs(s, "off") || eqs(s, "disable");
    COVER("returns");
    if (ret == 1) COVER("accepted");
    if (ret == 0) COVER("rejected");
    CHECK(ret == 1 || ret == 0 || ret == -1, "documented return values");
    CHECK((ret == 1) == (yes || no), "accepted exactly for the six names");
    CHECK(!(ret == 1) || v == yes, "the truth value of the name");
    CHECK(!(ret == 0 && want) || r != NULL, "rejected with a reason");
}
static _Bool macform(const char *s, size_t n)
{
    if (n != 17) return 0;
    for (int i = 0; i < 17; i++)
        if (i % 3 == 2 ? s[i] != ':' : hexv(s[i]) < 0) return 0;
    return 1;
}
void h_mac(void)
{
    IN(size_t, n); IN(_Bool, want); IN(uint8_t, at);
    char *r = NULL, *s;
    char a[6];
    want &= 1;
#ifdef VH_NATIVE
    s = near_text("xx:xx:xx:xx:xx:xx"); n = strlen(s);
#else
    BOUND(n, 19);
    ASSUME(n < VH_HUGE);
    s = vh_string(n);
    g_n = n;
#ifdef VH_PROOF
    if (n == 17) for (int i = 0; i < 17; i++) ASSUME(s[i] != 0);
#endif
#endif
    int ret = parse_macaddr(s, a, want ? &r : NULL);
    COVER("returns");
    if (ret == 1) COVER("accepted");
    if (ret == 0) COVER("rejected");
    CHECK(ret == 1 || ret == 0 || ret == -1, "documented return values");
    _Bool f = macform(s, n);
    CHECK((ret == 1) == f, "accepted exactly for six groups of two hexadecimal digits");
    at %= 6;
    if (ret == 1 && f) CHECK((unsigned char)a[at] == hexv(s[3*at]) * 16 + hexv(s[3*at+1]), "the octets the text denotes");
    CHECK(!(ret == 0 && want) || r != NULL, "rejected with a reason");
    CHECK(want ? parse_macaddr(NULL, a, NULL) == 0 : 1, "missing text is rejected");
}
static _Bool uuidform(const char *s, size_t n)
{
    if (n != 36) return 0;
    for (int i = 0; i < 36; i++)
        if (i == 8 || i == 13 || i == 18 || i == 23 ? s[i] != '-' : hexv(s[i]) < 0) return 0;
    return 1;
}
static int uuidpos(int b){ return 2*b + (b >= 4) + (b >= 6) + (b >= 8) + (b >= 10); }
void h_uuid(void)
{
    IN(size_t, n); IN(uint8_t, at);
    char *s;
    unsigned char u[16];
#ifdef VH_NATIVE
    s = near_text("xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx"); n = strlen(s);
#else
    BOUND(n, 38);
    ASSUME(n < VH_HUGE);
    s = vh_string(n);
    g_n = n;
#ifdef VH_PROOF
    if (n == 36) for (int i = 0; i < 36; i++) ASSUME(s[i] != 0);
#endif
#endif
    int ret = str2uuid(s, u);
    COVER("returns");
    if (ret == 0) COVER("accepted");
    CHECK(ret == 0 || ret == -1, "documented return values");
    _Bool f = uuidform(s, n);
    CHECK((ret == 0) == f, "accepted exactly for 8-4-4-4-12 hexadecimal digits");
    at %= 16;
    if (ret == 0 && f) CHECK(u[at] == hexv(s[uuidpos(at)]) * 16 + hexv(s[uuidpos(at)+1]), "the octets the text denotes");
}

/* ---- printing and reading back ---- */
#ifdef PRINT
#ifdef VH_NATIVE
#include "cligen_buf.c"
#endif
/* text of v as each of the three printers writes it; NULL if it cannot (memory) */
static char *print(int how, cg_var *v)
{
    char *s = calloc(1, 96);
    ASSUME(s != NULL);
#ifdef HOW
    ASSUME(how == HOW); how = HOW;
#endif
    if (how == 0){ if (cv2str(v, s, 96) < 0) return NULL; return s; }
#ifdef VH_NATIVE
    if (how == 1){ cbuf *cb = cbuf_new(); int r = cv2cbuf(v, cb); strcpy(s, cbuf_get(cb)); cbuf_free(cb); return r < 0 ? NULL : s; }
    { FILE *f = fmemopen(s, 95, "w"); int r = cv_print(f, v); fclose(f); return r < 0 ? NULL : s; }
#else
    g_capn = 0;
    if ((how == 1 ? cv2cbuf(v, (cbuf*)&g_capn) : cv_print((FILE*)&g_capn, v)) < 0) return NULL;
    CHECK(g_capn < CAPSZ, "fits");
    for (size_t i = 0; i < CAPSZ; i++) s[i] = g_cap[i];
    return s;
#endif
}
/* The text of an address, by the assumed contract of inet_ntop, inet_ntoa and inet_pton: some text
 * without a slash, which reads back as that address. Here the text is one of several lengths. */
#ifndef VH_NATIVE
char *strerror(int e){ return "err"; }
static char g_atext[16]; static size_t g_alen; static unsigned char g_addr[16]; static int g_af;
static int same_addr(const void *p, int n){ const unsigned char *q = p; for (int i = 0; i < 16; i++) if (i < n && q[i] != g_addr[i]) return 0; return 1; }
const char *inet_ntop(int af, const void *p, char *d, socklen_t n)
{
    IN(_Bool, ntop_fails);
    if (ntop_fails) return NULL;
    __CPROVER_assert(af == AF_INET6 && n >= 46 && same_addr(p, 16), "CHECK:inet_ntop of the address");
    for (size_t i = 0; i <= HLEN; i++) d[i] = g_atext[i];
    return d;
}
char *inet_ntoa(struct in_addr a)
{
    __CPROVER_assert(same_addr(&a, 4), "CHECK:inet_ntoa of the address");
    return g_atext;
}
int inet_pton(int af, const char *s, void *d)
{
    IN(int, pton);
    _Bool eq = 1;
    for (size_t i = 0; i <= g_alen && eq; i++) if (s[i] != g_atext[i]) eq = 0;
    if (af != g_af || !eq) return pton % 2 ? 0 : -1;
    for (int i = 0; i < 16; i++) if (i < (af == AF_INET ? 4 : 16)) ((unsigned char*)d)[i] = g_addr[i];
    return 1;
}
#include "cmodels.h"
#endif
void h_print(void)
{
    IN(uint8_t, how); IN(uint64_t, x0); IN(uint64_t, x1); IN(uint8_t, m); IN(uint8_t, at); IN(uint8_t, al);
    cg_var v, w;
    char *s, *r = NULL;
    how %= 3;
    memset(&v, 0, sizeof(v));
    v.var_type = TYPE_;
    unsigned char b[16];
    memcpy(b, &x0, 8); memcpy(b + 8, &x1, 8);
    int k = 0;
    switch (TYPE_){
    case CGV_BOOL: v.var_bool = m & 1; break;
    case CGV_MACADDR: memcpy(v.var_macaddr, b, 6); k = 6; break;
    case CGV_UUID: memcpy(v.var_uuid, b, 16); k = 16; break;
    case CGV_IPV4ADDR: case CGV_IPV4PFX: memcpy(&v.var_ipv4addr, b, 4); k = 4; if (TYPE_ == CGV_IPV4ADDR) m = 32; m %= 33; v.var_ipv4masklen = m; break;
    case CGV_IPV6ADDR: case CGV_IPV6PFX: memcpy(&v.var_ipv6addr, b, 16); k = 16; if (TYPE_ == CGV_IPV6ADDR) m = 128; m %= 129; v.var_ipv6masklen = m; break;
    }
#ifndef VH_NATIVE
    g_af = k == 4 ? AF_INET : AF_INET6;
    for (int i = 0; i < 16; i++) g_addr[i] = b[i];
    al = HLEN;
    g_alen = al;
    for (int i = 0; i < 16; i++){ IN(char, c); ASSUME(c != '/'); ASSUME(c != 0); g_atext[i] = i < al ? c : 0; }
#endif
    s = print(how, &v);
    COVER("printed");
    if (s == NULL) return;
    size_t n = 0;
    while (n < 95 && s[n]) n++;
    if (TYPE_ == CGV_BOOL) CHECK(eqs(s, m & 1 ? "true" : "false"), "the name of the truth value");
    if (TYPE_ == CGV_MACADDR){
        CHECK(macform(s, n), "six groups of two hexadecimal digits");
        at %= 6; CHECK(hexv(s[3*at]) * 16 + hexv(s[3*at+1]) == b[at], "the octets of the address");
    }
    if (TYPE_ == CGV_UUID){
        CHECK(uuidform(s, n), "8-4-4-4-12 hexadecimal digits");
        at %= 16; CHECK(hexv(s[uuidpos(at)]) * 16 + hexv(s[uuidpos(at)+1]) == b[at], "the octets of the UUID");
    }
    memset(&w, 0, sizeof(w));
    w.var_type = TYPE_;
    int ret = cv_parse1(s, &w, &r);
    COVER("parsed");
    if (ret == 1) COVER("read back");
    CHECK(ret != 0, "printed text is accepted");
    if (ret == 1){
        if (TYPE_ == CGV_BOOL) CHECK(w.var_bool == v.var_bool, "the value reads back");
        else {
            at %= k;
            unsigned char *p = TYPE_ == CGV_MACADDR ? (unsigned char*)w.var_macaddr : TYPE_ == CGV_UUID ? w.var_uuid : (unsigned char*)&w.u;
            CHECK(p[at] == b[at], "the value reads back");
            if (TYPE_ == CGV_IPV4PFX || TYPE_ == CGV_IPV4ADDR) CHECK(w.var_ipv4masklen == m, "the mask reads back");
            if (TYPE_ == CGV_IPV6PFX || TYPE_ == CGV_IPV6ADDR) CHECK(w.var_ipv6masklen == m, "the mask reads back");
        }
    }
}
#endif
