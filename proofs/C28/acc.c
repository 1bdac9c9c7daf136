/* C28: accessors of cligen_cv.c read and write only the member of their type. */
#include "cvh.h"
/* Texts: strdup and strncpy by assumed contract, at one arbitrary position g_k of the text */
static size_t g_len, g_off, g_pos; static char *g_src; static int g_dups;
#ifndef VH_NATIVE
char *strdup(const char *s)
{
    __CPROVER_assert(s == g_src + g_off, "CHECK:strdup of the text given");
    size_t n = g_len - g_off;
    char *r = malloc(n + 1);
    if (r == NULL) return NULL;
    g_dups++;
    if (g_pos < n) r[g_pos] = s[g_pos];
    r[n] = '\0';
    return r;
}
char *strncpy(char *d, const char *s, size_t n)
{
    size_t l = g_len - g_off;
    __CPROVER_assert(s == g_src + g_off, "CHECK:strncpy of the text given");
    __CPROVER_assert(__CPROVER_w_ok(d, n), "CHECK:strncpy within the block");
    if (g_pos < n) d[g_pos] = g_pos < l ? s[g_pos] : '\0';
    return d;
}
#endif
#include "vhfree.h"
#include "cligen_cv.c"

static void any(cg_var *v)
{
    IN(uint64_t, x0); IN(uint64_t, x1); IN(uint64_t, x2); IN(uint64_t, x3); IN(uint64_t, x4);
    IN(uint8_t, t); IN(char, c); IN(char, f);
    memset(v, 0, sizeof(*v));
    t %= CGV_EMPTY + 1;
    v->var_type = t; v->var_const = c; v->var_flag = f;
    v->var_name = (char*)&g_len; v->var_show = (char*)&g_off;
    memcpy((char*)&v->u, &x0, 8); memcpy((char*)&v->u + 8, &x1, 8); memcpy((char*)&v->u + 16, &x2, 8);
    memcpy((char*)&v->u + 24, &x3, 8); memcpy((char*)&v->u + 32, &x4, 8);
}
static _Bool same_head(cg_var *a, cg_var *b)
{
    return a->var_type == b->var_type && a->var_name == b->var_name && a->var_show == b->var_show &&
        a->var_const == b->var_const && a->var_flag == b->var_flag;
}
/* the same at every byte of the value, whatever the type */
static _Bool same(cg_var *a, cg_var *b)
{
    IN(uint8_t, at);
    at %= sizeof(a->u);
    if (!same_head(a, b)) return 0;
    return ((unsigned char*)&a->u)[at] == ((unsigned char*)&b->u)[at];
}
static _Bool same_val(cg_var *a, cg_var *b)
{
    IN(uint8_t, at);
    at %= sizeof(a->u);
    return ((unsigned char*)&a->u)[at] == ((unsigned char*)&b->u)[at];
}
#define SCALAR(n, T, member)                                            \
    { IN(T, x); any(&a); memcpy(&e, &a, sizeof(a)); e.member = x;       \
      CHECK(cv_##n##_get(&a) == (T)a.member, #n " reads its member");   \
                                           \
      T r = cv_##n##_set(&a, x);                                        \
      CHECK(r == x, #n " set returns the value");                       \
      CHECK(cv_##n##_get(&a) == x, #n " reads back as set");            \
      CHECK(same(&a, &e), #n " set changes nothing else");              \
      CHECK(cv_##n##_get(NULL) == 0, #n " of a missing variable");      \
      CHECK(cv_##n##_set(NULL, x) == 0, #n " set of a missing variable"); }
void h_scalar(void)
{
    cg_var a, e;
    SCALAR(int8, int8_t, var_int8)
    SCALAR(int16, int16_t, var_int16)
    SCALAR(int32, int32_t, var_int32)
    SCALAR(int64, int64_t, var_int64)
    SCALAR(uint8, uint8_t, var_uint8)
    SCALAR(uint16, uint16_t, var_uint16)
    SCALAR(uint32, uint32_t, var_uint32)
    SCALAR(uint64, uint64_t, var_uint64)
    SCALAR(dec64_n, uint8_t, var_dec64_n)
    SCALAR(dec64_i, int64_t, var_dec64_i)
    SCALAR(bool, char, var_bool)
    SCALAR(ipv4masklen, uint8_t, var_ipv4masklen)
    COVER("end");
}
void h_head(void)
{
    cg_var a, e;
    IN(char, m); IN(uint8_t, t); IN(char, c);
    t %= CGV_EMPTY + 1;
    any(&a); memcpy(&e, &a, sizeof(a));
    CHECK(cv_flag(&a, m) == (char)(e.var_flag & m), "flag reads the masked flags");
    CHECK(same(&a, &e), "flag reads only");
    cv_flag_set(&a, m); e.var_flag |= m;
    CHECK(same(&a, &e), "flag_set sets the masked flags and nothing else");
    CHECK(cv_flag(&a, m) == m, "flags set are set");
    any(&a); memcpy(&e, &a, sizeof(a));
    cv_flag_clr(&a, m); e.var_flag &= ~m;
    CHECK(same(&a, &e), "flag_clr clears the masked flags and nothing else");
    CHECK(cv_flag(&a, m) == 0, "flags cleared are clear");
    CHECK(cv_flag(NULL, m) == 0 && cv_flag_set(NULL, m) == 0 && cv_flag_clr(NULL, m) == 0, "flags of a missing variable");
    any(&a); memcpy(&e, &a, sizeof(a));
    CHECK(cv_type_get(&a) == e.var_type, "type reads");
    CHECK(cv_type_set(&a, t) == t, "type set"); e.var_type = t;
    CHECK(same(&a, &e) && cv_type_get(&a) == t, "type reads back and nothing else changes");
    CHECK(cv_type_get(NULL) == CGV_ERR && cv_type_set(NULL, t) == 0, "type of a missing variable");
    CHECK(cv_const_get(&a) == e.var_const, "const reads");
    CHECK(cv_const_set(&a, c) == c, "const set"); e.var_const = c;
    CHECK(same(&a, &e) && cv_const_get(&a) == c, "const reads back and nothing else changes");
    CHECK(cv_const_get(NULL) == 0 && cv_const_set(NULL, c) == 0, "const of a missing variable");
    COVER("end");
}
void h_struct(void)
{
    cg_var a, e;
    IN(uint32_t, ad); IN(int64_t, s); IN(int64_t, us);
    struct in_addr ia; ia.s_addr = ad;
    struct timeval tv; tv.tv_sec = s; tv.tv_usec = us;
    any(&a); memcpy(&e, &a, sizeof(a));
    CHECK(cv_ipv4addr_get(&a) == &a.var_ipv4addr, "address points at the member");
    CHECK(cv_ipv4addr_set(&a, &ia) == &ia, "address set"); e.var_ipv4addr = ia;
    CHECK(same(&a, &e), "address set changes the address only");
    CHECK(cv_ipv4addr_set(&a, NULL) == NULL, "no address");
    CHECK(same(&a, &e), "no address, no change");
    CHECK(cv_ipv4addr_get(NULL) == NULL, "address of a missing variable");
    cv_ipv4addr_set(NULL, &ia);
    any(&a); memcpy(&e, &a, sizeof(a));
    CHECK(cv_ipv6addr_get(&a) == &a.var_ipv6addr && cv_ipv6addr_get(NULL) == NULL, "IPv6 address points at the member");
    CHECK(cv_ipv6masklen_get(&a) == a.var_ipv6masklen && cv_ipv6masklen_get(NULL) == 0, "IPv6 mask reads");
    CHECK(cv_mac_get(&a) == a.var_macaddr && cv_mac_get(NULL) == NULL, "MAC points at the member");
    CHECK(cv_uuid_get(&a) == a.var_uuid && cv_uuid_get(NULL) == NULL, "UUID points at the member");
    CHECK(cv_void_get(&a) == a.var_void && cv_void_get(NULL) == NULL, "pointer reads");
    CHECK(same(&a, &e), "reads only");
    cv_void_set(&a, &ia); e.var_void = &ia;
    CHECK(same(&a, &e) && cv_void_get(&a) == &ia, "pointer reads back and nothing else changes");
    cv_void_set(NULL, &ia);
    struct timeval r = cv_time_set(&a, tv); e.var_time = tv;
    CHECK(same(&a, &e), "time set changes the time only");
    CHECK(r.tv_sec == s && r.tv_usec == us, "time set returns the value");
    r = cv_time_get(&a);
    CHECK(r.tv_sec == s && r.tv_usec == us, "time reads back");
    r = cv_time_get(NULL);
    CHECK(r.tv_sec == 0 && r.tv_usec == 0, "time of a missing variable");
    r = cv_time_set(NULL, tv);
    CHECK(r.tv_sec == 0 && r.tv_usec == 0, "time set of a missing variable");
    COVER("end");
}
void h_uuid(void)
{
    cg_var a, e;
    unsigned char u[16];
    IN(uint64_t, x0); IN(uint64_t, x1);
    memcpy(u, &x0, 8); memcpy(u + 8, &x1, 8);
    any(&a); memcpy(&e, &a, sizeof(a));
    CHECK(cv_uuid_set(&a, u) == a.var_uuid, "UUID set"); memcpy(e.var_uuid, u, 16);
    CHECK(same(&a, &e), "UUID set changes the UUID only");
    CHECK(cv_uuid_set(NULL, u) == NULL, "UUID set of a missing variable");
    COVER("end");
}
/* Text members. old text NULL or a block; new text NULL, a separate block or part of the old text. */
#ifndef SET_
#define SET_ cv_string_set
#define GET_ cv_string_get
#define MEMBER_ var_string
#define NEEDS_TEXT
#endif
void h_text(void)
{
    cg_var a, e;
    IN(_Bool, had); IN(uint8_t, from); IN(size_t, len); IN(size_t, off); IN(size_t, pos);
    char *old = NULL, *given = NULL, ch = 0, *r;
    had &= 1; from %= 3;
#ifdef VH_NATIVE
    len %= 9; off %= 9; pos %= 9;
#endif
    BOUND(len, 5);
    ASSUME(len < VH_HUGE && off <= len && pos <= len);
    ASSUME(!(from == 2 && !had));
    any(&a);
    g_len = len; g_off = 0; g_pos = pos; g_dups = 0;
    if (had) old = vh_string(len);
    if (from == 1) g_src = given = vh_string(len);
    if (from == 2) { g_src = old; g_off = off; given = old + off; }
    if (given) ASSUME(pos <= len - g_off);
    if (given) ch = given[pos];
    a.MEMBER_ = old; vh_watch_set(0, old);
    memcpy(&e, &a, sizeof(a));
#ifdef NEEDS_N
    IN(size_t, n);
#ifdef VH_NATIVE
    n %= 9;
#endif
    ASSUME(n <= len - g_off);
    r = cv_strncpy(&a, given, n);
#else
    r = SET_(&a, given);
#endif
    COVER("returns");
    if (r != NULL) COVER("set");
    CHECK(GET_(&a) == a.MEMBER_, "text reads the member");
    if (r == NULL){
#ifndef NEEDS_TEXT
        if (given == NULL){
            CHECK(a.MEMBER_ == NULL, "no text clears the text"); CHECK(!had || vh_freed[0] == 1, "cleared text released");
            e.MEMBER_ = NULL;
            CHECK(same(&a, &e), "clearing changes nothing else");
        } else
#endif
        {
            CHECK(same(&a, &e), "a failed set changes nothing");
            CHECK(!had || vh_freed[0] == 0, "old text still alive");
        }
    }
    else {
        CHECK(given != NULL, "no text is not set");
        CHECK(a.MEMBER_ == r, "text set returns the text");
        e.MEMBER_ = r;
        CHECK(same(&a, &e), "text set changes nothing else");
#ifdef NEEDS_N
        if (pos < n) CHECK(r[pos] == ch, "the text given, at every position");
        if (pos == n) CHECK(r[pos] == 0, "cut at n");
#else
        CHECK(r[pos] == ch, "the text given, at every position");
#endif
        if (from == 1) { CHECK(given[pos] == ch, "text given untouched"); CHECK(r != given, "own copy"); }
        CHECK(!had || vh_freed[0] == 1, "previous text released");
        free(r);
    }
    CHECK(GET_(NULL) == NULL, "text of a missing variable");
#ifndef NEEDS_N
    CHECK(SET_(NULL, given) == NULL, "text set of a missing variable");
#else
    CHECK(cv_strncpy(NULL, given, n) == NULL, "text set of a missing variable");
#endif
}
void h_direct(void)
{
    cg_var a, e;
    IN(_Bool, had); IN(size_t, len); IN(_Bool, none);
    had &= 1; none &= 1;
#ifdef VH_NATIVE
    len %= 9;
#endif
    BOUND(len, 5);
    ASSUME(len < VH_HUGE);
    any(&a);
    char *old = had ? vh_string(len) : NULL, *s = none ? NULL : vh_string(len);
    a.var_string = old; vh_watch_set(0, old);
    memcpy(&e, &a, sizeof(a));
    int r = cv_string_set_direct(&a, s);
    COVER("returns");
    CHECK(r == (none ? -1 : 0), "missing text is refused");
    if (r == 0) e.var_string = s;
    CHECK(same(&a, &e), "changes the text only");
    CHECK(!had || vh_freed[0] == (r == 0), "previous text released");
    CHECK(cv_string_set_direct(NULL, s) == -1, "text set of a missing variable");
}
