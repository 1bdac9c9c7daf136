/* C16: preference of an alternative, for every object. The documented rank of the kinds and types. */
#include "cvh.h"
#include "cligen_handle_internal.h"
#undef cligen_reason
#include "cligen_object.c"
static int rank_of(int kind, int type, _Bool range, _Bool expand, _Bool regex, _Bool exact)
{
    if (kind == CO_COMMAND) return exact ? 100 : 3;
    if (kind != CO_VARIABLE) return 0;
    switch (type){
    case CGV_TIME: return 74;
    case CGV_UUID: return 73;
    case CGV_MACADDR: return 72;
    case CGV_IPV6ADDR: case CGV_IPV6PFX: return 71;
    case CGV_IPV4ADDR: case CGV_IPV4PFX: return 70;
    case CGV_DEC64: return 62;
    case CGV_INT8: return range ? 60 : 52;
    case CGV_UINT8: return range ? 59 : 51;
    case CGV_INT16: return range ? 58 : 50;
    case CGV_UINT16: return range ? 57 : 49;
    case CGV_INT32: return range ? 56 : 48;
    case CGV_UINT32: return range ? 55 : 47;
    case CGV_INT64: return range ? 54 : 46;
    case CGV_UINT64: return range ? 53 : 45;
    case CGV_URL: return 20;
    case CGV_BOOL: return 12;
    case CGV_INTERFACE: return 10;
    case CGV_STRING: return expand ? 8 : regex ? 7 : 5;
    case CGV_REST: return 1;
    default: return 0;
    }
}
static const int TYPES[] = {CGV_ERR, CGV_INT8, CGV_INT16, CGV_INT32, CGV_INT64, CGV_UINT8, CGV_UINT16, CGV_UINT32, CGV_UINT64, CGV_DEC64, CGV_BOOL, CGV_REST, CGV_STRING, CGV_INTERFACE, CGV_IPV4ADDR, CGV_IPV4PFX, CGV_IPV6ADDR, CGV_IPV6PFX, CGV_MACADDR, CGV_URL, CGV_UUID, CGV_TIME, CGV_VOID, CGV_EMPTY};
static const int KINDS[] = {CO_COMMAND, CO_VARIABLE, CO_REFERENCE, CO_EMPTY};
/* integer types, and what they can hold */
static int bits(int t){ return t == CGV_INT8 || t == CGV_UINT8 ? 8 : t == CGV_INT16 || t == CGV_UINT16 ? 16 : t == CGV_INT32 || t == CGV_UINT32 ? 32 : 64; }
static struct { int kind, type, rangelen; _Bool expand, regex, exact; } D[2];
static int pref_of(int i)
{
    static cg_obj c0, c1; cg_obj *co = i ? &c1 : &c0; int p;
    IN(uint8_t, kind); IN(uint8_t, type); IN(int, rangelen); IN(_Bool, expand); IN(_Bool, regex); IN(_Bool, exact); IN(uint16_t, given); IN(int, ex);
    D[i].kind = KINDS[kind & 3]; D[i].type = TYPES[type % (sizeof(TYPES)/sizeof(TYPES[0]))];
    D[i].rangelen = rangelen; D[i].expand = expand; D[i].regex = regex; D[i].exact = exact;
    co->co_type = D[i].kind; co->co_preference = given;
    if (D[i].kind == CO_VARIABLE){
        co->co_vtype = D[i].type; co->co_rangelen = rangelen;
        co->co_expand_fn_str = expand ? "f" : NULL; co->co_regex = regex ? (cvec*)D : NULL;
    }
    if (exact && ex == 0) ex = 1;
    p = co_pref(co, exact ? ex : 0);
    COVER("returns");
    if (given > 0) CHECK(p == given, "an explicit preference replaces the default");
    else CHECK(p == rank_of(D[i].kind, D[i].type, rangelen != 0, expand, regex, exact), "default preference as documented");
    return given > 0 ? -1 : p;
}
#define INTTYPE(t) ((t) == CGV_INT8 || (t) == CGV_INT16 || (t) == CGV_INT32 || (t) == CGV_INT64 || (t) == CGV_UINT8 || (t) == CGV_UINT16 || (t) == CGV_UINT32 || (t) == CGV_UINT64)
/* two alternatives with default preferences */
void h_order(void)
{
    int p = pref_of(0), q = pref_of(1);
    if (p < 0 || q < 0) return;
    COVER("both by default");
    if (D[0].kind == CO_COMMAND && D[0].exact && D[1].kind != CO_COMMAND) CHECK(p > q, "a completely typed keyword comes before any variable");
    if (D[0].kind == CO_VARIABLE && D[1].kind == CO_VARIABLE){
        int s = D[0].type, t = D[1].type;
        if (INTTYPE(s) && INTTYPE(t)){
            if (!!D[0].rangelen == !!D[1].rangelen && bits(s) < bits(t)) CHECK(p > q, "a narrower integer type comes first");
            if (D[0].rangelen && !D[1].rangelen) CHECK(p > q, "a restricted integer comes first");
        }
        if (s == CGV_STRING && t == CGV_STRING){
            if ((D[0].expand || D[0].regex) && !D[1].expand && !D[1].regex) CHECK(p > q, "a restricted string comes first");
        }
        if (t == CGV_REST && s != CGV_REST && s != CGV_ERR && s != CGV_VOID && s != CGV_EMPTY) CHECK(p > q, "the rest of the line comes last");
        if (t == CGV_STRING && s != CGV_STRING && s != CGV_REST && s != CGV_ERR && s != CGV_VOID && s != CGV_EMPTY) CHECK(p > q, "any other type comes before strings");
    }
}
