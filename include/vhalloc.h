/* Accounted allocation: every allocation may fail, live blocks are counted. Included before the
 * sources under test; vh_live = 0 at the start of a harness. */
#ifndef VHALLOC_H
#define VHALLOC_H
static void *vh_raw(size_t n){ return malloc(n); }     /* not accounted */
static void vh_rawfree(void *p){ free(p); }
static VH_MAYBE_UNUSED void *vh_keepraw_[2] = {(void*)vh_raw, (void*)vh_rawfree};
static long vh_live;
static _Bool vh_reliable;          /* set: allocations do not fail */
static void *vh_malloc(size_t n)
{
    IN(_Bool, nomem);
    if (nomem && !vh_reliable) return NULL;
    void *p = malloc(n);
    ASSUME(p != NULL);
    vh_live++;
    return p;
}
static void *vh_calloc(size_t m, size_t n)
{
    IN(_Bool, nomem);
    if (nomem && !vh_reliable) return NULL;
#if defined(VH_CALLOC_ANY) && defined(VH_PROOF)
    void *p = malloc(m * n);       /* contents left open */
#else
    void *p = calloc(m, n);
#endif
    ASSUME(p != NULL);
    vh_live++;
    return p;
}
static void *vh_realloc(void *q, size_t n)
{
    IN(_Bool, nomem);
    if (nomem && !vh_reliable) return NULL;
    void *p = realloc(q, n);
    if (n == 0){ if (q) vh_live--; return NULL; }
    ASSUME(p != NULL);
    if (q == NULL) vh_live++;
    return p;
}
#ifdef VH_TEXT_ID
/* texts are opaque: one byte tells which text it is; strdup by assumed contract */
static char *vh_strdup(const char *s)
{
    IN(_Bool, nomem);
    if (nomem && !vh_reliable) return NULL;
    char *p = malloc(2);
    ASSUME(p != NULL);
    p[0] = s[0]; p[1] = '\0';
    vh_live++;
    return p;
}
#else
static char *vh_strdup(const char *s)
{
    IN(_Bool, nomem);
    if (nomem && !vh_reliable) return NULL;
    size_t n = strlen(s);
    char *p = malloc(n + 1);
    ASSUME(p != NULL);
    memcpy(p, s, n + 1);
    vh_live++;
    return p;
}
#endif
static void vh_free(void *p)
{
    if (p != NULL) vh_live--;
    free(p);
}
#define malloc vh_malloc
#define calloc vh_calloc
#define realloc vh_realloc
#undef strdup
#define strdup vh_strdup
#define free vh_free
#endif
