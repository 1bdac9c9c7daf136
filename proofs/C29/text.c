/* C29: text options of a handle. Texts of any length: the handle keeps a copy of its own with the same length and the same
 * character at position g (arbitrary); strdup, strlen, strcmp and strncmp by contract. */
#include "cvh.h"
#ifdef VH_NATIVE
#include "cligen_handle.c"
static int set(cligen_handle h, int w, char *s){ return w == 0 ? cligen_prompt_set(h, s) : w == 1 ? cligen_treename_keyword_set(h, s) : cligen_fn_str_set(h, s); }
static char *get(cligen_handle h, int w){ return w == 0 ? cligen_prompt(h) : w == 1 ? cligen_treename_keyword(h) : cligen_fn_str_get(h); }
void h_text(void)
{
    static struct cligen_handle H; cligen_handle h = (cligen_handle)&H;
    memset(&H, 0, sizeof(H)); H.ch_magic = CLIGEN_MAGIC;
    IN(uint8_t, w); char a[16], b[16], c[16]; IN(uint8_t, n); IN(uint8_t, m); IN(_Bool, rel);
    w %= 3; n %= 12; m %= 12;
    for (int i = 0; i < 16; i++){ IN(uint8_t, x); IN(uint8_t, y); a[i] = 'a' + x % 3; b[i] = (rel & 1) ? a[i] : 'a' + y % 3; }
    a[n] = b[m] = '\0'; strcpy(c, b);
    CHECK(set(h, w, a) == 0 && set(h, w, b) == 0, "set");
    memset(b, '!', sizeof(b) - 1);
    CHECK(get(h, w) != NULL && strcmp(get(h, w), c) == 0, "the text reads back as set");
    set(h, w, NULL);
}
#else
#define fprintf(...) ((void)0)
#define strerror(x) "err"
#include "cligen_handle.c"
static struct { char *p; size_t n; _Bool live; } TX[3];   /* the text given, the one before, the copy */
static size_t g_g; static _Bool g_failed; static long g_live;
static int which(const char *s)
{
    int i = s == TX[0].p ? 0 : s == TX[1].p ? 1 : s == TX[2].p && TX[2].p ? 2 : -1;
    CHECK(i >= 0 && TX[i].live, "a text the handle knows");
    return i;
}
static char *text(int i, size_t n)
{
    char *p = malloc(n + 1);
    ASSUME(p != NULL);
    TX[i].p = p; TX[i].n = n; TX[i].live = 1;
    p[n] = '\0';
    if (g_g < n) ASSUME(p[g_g] != '\0');
    return p;
}
char *m_strdup(const char *s)
{
    _Bool f; int i = which(s); char *p;
    CHECK(TX[2].p == NULL, "one copy");
    if (f){ g_failed = 1; return NULL; }
    p = text(2, TX[i].n);
    if (g_g < TX[i].n) p[g_g] = s[g_g];
    g_live++;
    return p;
}
size_t m_strlen(const char *s){ return TX[which(s)].n; }
static int compare(const char *a, const char *b, size_t n)
{
    int i = which(a), j = which(b); int r;
    size_t la = TX[i].n < n ? TX[i].n : n, lb = TX[j].n < n ? TX[j].n : n;
    if (i == j) return 0;
    if (la != lb) ASSUME(r != 0);
    else if (g_g < la && a[g_g] != b[g_g]) ASSUME(r != 0);
    return r;
}
int m_strcmp(const char *a, const char *b){ return compare(a, b, ~(size_t)0); }
int m_strncmp(const char *a, const char *b, size_t n){ return compare(a, b, n); }
void m_free(void *p)
{
    if (p == NULL) return;
    int i = which(p);
    CHECK(i != 0, "the text given is not the handle's");
    TX[i].live = 0; g_live--;
}
void h_text(void)
{
    static struct cligen_handle H; int ret; char **slot;
    IN(size_t, n); IN(size_t, m); IN(size_t, g); IN(_Bool, given); IN(_Bool, before);
    ASSUME(n < (1ul << 40) && m < (1ul << 40));
    memset(&H, 0, sizeof(H)); H.ch_magic = CLIGEN_MAGIC;
    g_g = g; g_failed = 0; g_live = 0;
    TX[2].p = NULL; TX[2].live = 0;
    char *t = text(0, n), *old = text(1, m), *now, c = g < n ? t[g] : 0;
    slot = W == 0 ? &H.ch_prompt : W == 1 ? &H.ch_treename_keyword : &H.ch_fn_str;
    if (before){ *slot = old; g_live++; }
    ret = (W == 0 ? cligen_prompt_set : W == 1 ? cligen_treename_keyword_set : cligen_fn_str_set)(&H, given ? t : NULL);
    COVER("set");
    CHECK(ret == 0 || ret == -1, "documented return values");
    CHECK((ret == 0) == !g_failed, "fails exactly when out of memory");
    now = *slot;
    CHECK(g_live == (now ? 1 : 0), "the text before is released");
    CHECK(now == NULL || (now != t && TX[which(now)].live), "a text of its own");
    if (ret == 0){
        CHECK((now != NULL ? 1 : 0) == (given ? 1 : 0), "a text exactly when one was given");
        if (given){
            COVER("text");
            CHECK((W == 0 ? cligen_prompt(&H) : W == 1 ? cligen_treename_keyword(&H) : cligen_fn_str_get(&H)) == now, "reads back");
            CHECK(TX[which(now)].n == n, "the text reads back as set: length");
            if (g < n) CHECK(now[g] == c, "the text reads back as set: characters");
        }
    }
}
#endif
