/* C27: copies of an object. Every text, vector and list of the original is absent or a block with a tag;
 * a copy has blocks of its own with the same tags, and a failed copy leaves the original as it was. */
#include "vh.h"
#define VH_TEXT_ID
#include "vhalloc.h"
#include "cvh.h"
#undef cligen_reason
#ifdef VH_PROOF
#define fprintf(...) ((void)0)
#endif
static int g_dupped; static long g_extra;
static void *block(char t){ char *p = malloc(2); if (p){ p[0] = t; p[1] = 0; } return p; }
cvec *cvec_dup(cvec *v){ if (v == NULL) return NULL; return block(*(char*)v); }
int cvec_free(cvec *v){ CHECK(v != NULL && ((char*)v)[1] == 0, "vector to be freed"); free(v); return 0; }
int co_callback_copy(cg_callback *cc0, cg_callback **ccn)
{
    IN(_Bool, part);
    if (cc0 == NULL) return 0;
    cg_callback *c = block(*(char*)cc0);
    if (c == NULL) return -1;
    if (part && !vh_reliable){ free(c); IN(_Bool, some); if (some) *ccn = block('?'); return -1; }     /* a list that has got some of the way */
    *ccn = c;
    return 0;
}
int co_callbacks_free(cg_callback **c){ free(*c); *c = NULL; return 0; }
parse_tree *pt_dup(parse_tree *pt, cg_obj *cop, uint32_t flags)
{
    CHECK(pt != NULL && ((char*)pt)[0] == 'T', "the tree of the original");
    g_dupped++;
    return block('U');
}
int pt_free(parse_tree *pt, int recursive)
{
    CHECK(pt != NULL && ((char*)pt)[0] == 'U', "only a tree of the copy is freed");
    CHECK(recursive, "a tree is freed as a whole");
    free(pt);
    return 0;
}
#include "cligen_object.c"
#if HOW == 0
#include "cligen_expand.c"
#endif
#define NF 16
static void *field(cg_obj *o, int i)
{
    switch (i){
    case 0: return o->co_command;
    case 1: return o->co_prefix;
    case 2: return o->co_helpstring;
    case 3: return o->co_cvec;
    case 4: return o->co_filter;
    case 5: return o->co_callbacks;
    }
    if (o->co_type != CO_VARIABLE) return NULL;
    switch (i){
    case 6: return o->co_expand_fn_str;
    case 7: return o->co_expand_fn_vec;
    case 8: return o->co_translate_fn_str;
    case 9: return o->co_show;
    case 10: return o->co_rangecvv_low;
    case 11: return o->co_rangecvv_upp;
    case 12: return o->co_choice;
    case 13: return o->co_regex;
    }
    return NULL;
}
static char T[NF][2];
static cg_obj O, PARENT, REF, TREF;
static parse_tree *PTV[1];
static void *own(uint32_t has, int i){ if (!((has >> i) & 1)) return NULL; char *p = vh_raw(2); ASSUME(p != NULL); p[0] = 'a' + i; p[1] = 0; return p; }
void h_copy(void)
{
    IN(uint32_t, has); IN(uint8_t, type); IN(uint32_t, flags); IN(uint32_t, cflags); IN(_Bool, rec); IN(_Bool, sane);
    IN(uint16_t, pref); IN(uint8_t, vt); IN(int, rl); IN(uint8_t, dn);
    int ret; cg_obj *con = NULL; char mark; char ptb[2] = {'T', 0};
    _Bool var;
#ifdef TYPE
    type = TYPE;
#endif
    type &= 3; rec = rec ? 1 : 0; vh_reliable = sane ? 1 : 0;
    vh_live = 0; g_dupped = 0;
    memset(&O, 0, sizeof(O));
    O.co_type = type; var = type == CO_VARIABLE;
    O.co_command = own(has, 0); O.co_prefix = own(has, 1); O.co_helpstring = own(has, 2);
    O.co_cvec = own(has, 3); O.co_filter = own(has, 4); O.co_callbacks = own(has, 5);
    if (var){
        O.co_expand_fn_str = own(has, 6); O.co_expand_fn_vec = own(has, 7); O.co_translate_fn_str = own(has, 8); O.co_show = own(has, 9);
        O.co_rangecvv_low = own(has, 10); O.co_rangecvv_upp = own(has, 11); O.co_choice = own(has, 12); O.co_regex = own(has, 13);
        O.co_vtype = vt; O.co_rangelen = rl; O.co_dec64_n = dn;
        O.co_expandv_fn = has >> 14 & 1 ? (void*)&mark : NULL; O.co_translate_fn = has >> 15 & 1 ? (void*)&mark : NULL;
    }
    O.co_flags = flags; O.co_preference = pref; O.co_ref = has >> 16 & 1 ? &REF : NULL; O.co_treeref_orig = has >> 17 & 1 ? &TREF : NULL;
    if (has >> 18 & 1){ PTV[0] = has >> 19 & 1 ? (parse_tree*)ptb : NULL; O.co_ptvec = PTV; O.co_pt_len = 1; }
    cg_obj was = O;
    cg_obj *par = has >> 20 & 1 ? &PARENT : NULL;
#if HOW == 0
    ret = co_expand_sub(&O, par, &con);
#elif HOW == 1
    ret = co_copy(&O, par, cflags, &con);
#else
    ret = co_copy1(&O, par, rec, cflags, &con);
#endif
    COVER("returns");
    if (ret == 0) COVER("copied");
    if (ret < 0) COVER("out of memory");
    CHECK(ret == 0 || ret == -1, "documented return values");
    CHECK(!vh_reliable || ret == 0, "fails only out of memory");
    CHECK(O.co_type == was.co_type && O.co_flags == was.co_flags && O.co_ptvec == was.co_ptvec && O.co_pt_len == was.co_pt_len
          && O.co_ref == was.co_ref && O.co_prev == was.co_prev, "the original is as it was");
    CHECK((has >> 18 & 1) == 0 || PTV[0] == (has >> 19 & 1 ? (parse_tree*)ptb : NULL), "the original keeps its tree");
    for (int i = 0; i < 14; i++){
        char *a = field(&O, i);
        CHECK((a != NULL) == ((has >> i & 1) && (i < 6 || var)), "the original is as it was");
        if (a) CHECK(a[0] == 'a' + i && a[1] == 0, "what the original owns is as it was");
    }
    if (ret < 0){
        CHECK(con == NULL, "no copy handed out");
        CHECK(vh_live == 0, "a failed copy leaves nothing behind");
        return;
    }
    CHECK(con != NULL && con != &O, "a copy is made");
    CHECK(con->co_type == O.co_type && con->co_preference == pref, "the copy is of the same kind");
    for (int i = 0; i < 14; i++){
        char *a = field(&O, i), *b = field(con, i);
        CHECK((a == NULL) == (b == NULL), "the copy has what the original has");
        if (a && b){
            CHECK(a != b, "the copy shares nothing with the original");
            CHECK(b[0] == 'a' + i, "the copy has the same texts, labels and restrictions");
        }
    }
    if (var){
        CHECK(con->co_vtype == O.co_vtype && con->co_rangelen == rl && con->co_dec64_n == dn, "the copy has the same type and restrictions");
        CHECK(con->co_expandv_fn == O.co_expandv_fn && con->co_translate_fn == O.co_translate_fn, "the copy has the same functions");
    }
    CHECK(con->co_prev == par, "the copy has the parent given");
    parse_tree *pt = con->co_ptvec ? con->co_ptvec[0] : NULL;
    _Bool haspt = (has >> 18 & 3) == 3;
#if HOW == 0
    CHECK(con->co_flags == flags, "the copy has the same flags");
    CHECK(con->co_ref == &O, "the copy refers to its original");
    CHECK(con->co_treeref_orig == O.co_treeref_orig, "the copy has the same tree reference");
    CHECK(pt == (haspt ? (parse_tree*)ptb : NULL) && g_dupped == 0, "the copy has the same tree below it");
#else
    CHECK(con->co_flags == (flags & ~CO_FLAGS_MARK), "the copy has the same flags, but is not marked");
    CHECK(con->co_treeref_orig == (cflags & CO_COPY_FLAGS_TREEREF ? &O : O.co_treeref_orig), "the copy knows the original of its tree");
#if HOW == 1
    CHECK(con->co_ref == NULL, "the copy refers to no other object");
    rec = 1;
#else
    CHECK(con->co_ref == O.co_ref, "the copy refers to the same object");
#endif
    CHECK(g_dupped == (haspt && rec), "the tree is copied once if it is to be copied");
    if (haspt && rec) CHECK(pt != NULL && ((char*)pt)[0] == 'U', "the copy has a copy of the tree");
    else CHECK(pt == (haspt ? (parse_tree*)ptb : NULL), "the copy has the same tree below it");
#endif
    co_free(con, g_dupped ? 1 : 0);
    CHECK(vh_live == 0, "the copy is freed completely");
    for (int i = 0; i < 14; i++){
        char *a = field(&O, i);
        if (a) CHECK(a[0] == 'a' + i, "what the original owns is as it was");
    }
}
