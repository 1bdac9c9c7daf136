/* C15: the order of siblings is consistent. Texts are represented by their rank in the order of the comparison in use. */
#include "cvh.h"
#undef cligen_reason
#include "cligen_handle_internal.h"
static int o_cmp(const char *a, const char *b)
{
    IN(uint8_t, d); int x = *(const int*)a, y = *(const int*)b;
    return x < y ? -1 - d : x > y ? 1 + d : 0;
}
#define strcmp o_cmp
#define strcasecmp o_cmp
#define strverscmp o_cmp
#define co_free co_free_
#include "cligen_object.c"
#undef strcmp
#undef strcasecmp
#undef strverscmp
#undef co_free
static _Bool IGN, LEX;
int cligen_ignorecase(cligen_handle h){ return IGN ? 1 : 0; }
int cligen_lexicalorder(cligen_handle h){ return LEX ? 1 : 0; }
#define NL 2
static struct { int n, rank[NL]; } V[9]; static int vn[3];
static int len_of(cvec *c){ return c ? *(int*)c : 0; }
int cvec_len(cvec *c){ return len_of(c); }
cg_var *cvec_i(cvec *c, int i){ CHECK(c != NULL && 0 <= i && i < len_of(c), "value inside the list"); return c && i >= 0 && i < NL ? (cg_var*)((int*)c + 1 + i) : NULL; }
char *cv_string_get(cg_var *cv){ return (char*)cv; }
int cv_cmp(cg_var *a, cg_var *b){ return o_cmp((char*)a, (char*)b); }
static cg_obj O[3]; static int R[3][3];
static cvec *list(int v, int n, _Bool none)
{
    V[v].n = n;
    for (int i = 0; i < NL; i++){ IN(int, r); V[v].rank[i] = r; }
    return none ? NULL : (cvec*)&V[v];
}
static void object(int i, _Bool same)
{
    IN(uint8_t, t); IN(uint8_t, vt); IN(int, a); IN(int, b); IN(int, c); IN(_Bool, nob); IN(_Bool, noc); IN(uint8_t, n); IN(_Bool, nore); IN(uint8_t, nr);
    O[i].co_type = t % 4 == 0 ? CO_COMMAND : t % 4 == 1 ? CO_VARIABLE : t % 4 == 2 ? CO_REFERENCE : CO_EMPTY;
#ifdef VH_NATIVE    /* few different ones, so that they are often alike */
    a &= 3; b &= 1; c &= 1; vt &= 9;
#endif
    R[i][0] = a; R[i][1] = b; R[i][2] = c;
    O[i].co_command = (char*)&R[i][0];
    O[i].co_vtype = vt % (CGV_EMPTY + 1);
    if (O[i].co_type == CO_VARIABLE){
        O[i].co_expand_fn_str = nob ? NULL : (char*)&R[i][1];
        O[i].co_choice = noc ? NULL : (char*)&R[i][2];
#ifdef LISTS
        O[i].co_regex = list(i, nr % (NL + 1), nore);
        O[i].co_rangelen = n % (NL + 1); O[i].co_rangecvv_low = list(3 + i, n % (NL + 1), 0); O[i].co_rangecvv_upp = list(6 + i, n % (NL + 1), 0);
#endif
    }
}
static int sg(int x){ return x < 0 ? -1 : x > 0; }
void h_order(void)
{
    int ab, bc, ac; IN(_Bool, ign); IN(_Bool, lex); _Bool vars, words;
    IGN = ign; LEX = lex;
    object(0, 0); object(1, 1); object(2, 1);
    ab = co_eq(&O[0], &O[1]); bc = co_eq(&O[1], &O[2]); ac = co_eq(&O[0], &O[2]);
    COVER("returns");
    CHECK(co_eq(&O[0], &O[0]) == 0, "an object equals itself");
    CHECK(sg(co_eq(&O[1], &O[0])) == -sg(ab), "the order is antisymmetric");
    vars = O[0].co_type == CO_VARIABLE && O[1].co_type == CO_VARIABLE && O[2].co_type == CO_VARIABLE;
    words = O[0].co_type != CO_VARIABLE && O[1].co_type != CO_VARIABLE && O[2].co_type != CO_VARIABLE;
    if (vars || words){
        if (ab <= 0 && bc <= 0) CHECK(ac <= 0, "the order is transitive");
        if (ab == 0 && bc <= 0) CHECK(sg(ac) == sg(bc), "equal objects are alike in the order");
        if (ab < 0 && bc <= 0) CHECK(ac < 0, "the order is transitive");
    }
    if (O[0].co_type != O[1].co_type) CHECK(ab != 0, "objects of different kind are not equal");
    if (O[0].co_type == CO_COMMAND && O[1].co_type == CO_COMMAND) CHECK((ab == 0) == (R[0][0] == R[1][0]), "commands are equal exactly when their names are");
    if (O[0].co_type == CO_EMPTY && O[1].co_type != CO_EMPTY) CHECK(ab < 0, "the empty object is first");
    if (O[0].co_type != CO_REFERENCE && O[1].co_type == CO_REFERENCE) CHECK(ab < 0, "references are last");
    if (O[0].co_type == CO_VARIABLE && O[1].co_type == CO_VARIABLE && O[0].co_vtype != O[1].co_vtype) CHECK(ab != 0, "variables of different type are not equal");
    if (ab == 0 && vars && O[0].co_expand_fn_str == NULL && O[0].co_choice == NULL){
        cvec *p = O[0].co_regex, *q = O[1].co_regex; int i, n = len_of(p), t = O[0].co_vtype;
        CHECK(n == len_of(q) && (p == NULL) == (q == NULL), "equal variables have the same regular expressions");
        for (i = 0; i < n; i++) CHECK(((int*)p)[1 + i] == ((int*)q)[1 + i], "equal variables have the same regular expressions");
        if (cv_isint(t) || cv_isstring(t) || t == CGV_DEC64){
            CHECK(O[0].co_rangelen == O[1].co_rangelen, "equal variables have the same ranges");
#ifdef LISTS
            for (i = 0; i < O[0].co_rangelen; i++) CHECK(V[3].rank[i] == V[4].rank[i] && V[6].rank[i] == V[7].rank[i], "equal variables have the same ranges");
#endif
        }
    }
    if (ab == 0 && vars){
        CHECK((O[0].co_expand_fn_str == NULL) == (O[1].co_expand_fn_str == NULL) && (O[0].co_expand_fn_str == NULL || R[0][1] == R[1][1]), "equal variables have the same expansion");
        if (O[0].co_expand_fn_str == NULL) CHECK((O[0].co_choice == NULL) == (O[1].co_choice == NULL) && (O[0].co_choice == NULL || R[0][2] == R[1][2]), "equal variables have the same choice");
    }
}
