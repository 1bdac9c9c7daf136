/* C12: creation, resize and release of the ring; an arbitrary slot stands for all. */
#include "vh.h"
#include "cligen_config.h"
#include <ctype.h>
#ifdef VH_PROOF
/* an arbitrary slot of the old ring, the text in it; times released, per kind of block */
static struct { char **ring, *text, **fresh; _Bool empty; } G;
static struct { long at; int text_released, ring_frees; } C;
static size_t s_strlen(const char *s)
{
    size_t n;
    ASSUME(n < VH_HUGE && s != (void*)G.ring);   /* the ring is not one of its entries */
    if (s == G.text) ASSUME((n == 0) == G.empty);
    return n;
}
static void s_free(void *p)
{
    if (p != NULL && p == (void*)G.text) C.text_released = 1;
    else if (p != NULL && p == (void*)G.ring) C.ring_frees++;
}
static void *s_malloc(size_t n)
{
    IN(_Bool, nomem);
    if (nomem) return NULL;
    G.fresh = malloc(n);
    ASSUME(G.fresh != NULL);
    return G.fresh;
}
static void *s_realloc(void *q, size_t n)
{
    void *p = s_malloc(n);
    if (p != NULL) s_free(q);
    return p;
}
#define strlen s_strlen
#define free s_free
#define malloc s_malloc
#define realloc s_realloc
#endif
#include "cligen_history.c"
#undef strlen
#undef free
#undef malloc
#undef realloc
static struct cligen_handle H;
int gl_putc(int c){ return 0; }
char *cligen_buf(cligen_handle h){ return H.ch_buf; }
int cligen_buf_size(cligen_handle h){ return 64; }
int cligen_buf_increase(cligen_handle h, size_t n){ return 0; }
#ifdef VH_PROOF
static void ring(void)
{
    IN(int, s); IN(unsigned, k); IN(_Bool, none); IN(_Bool, empty);
    ASSUME(2 <= s && s <= (1 << 24) && k < s);
    cligen_ghost_k = k;
    cligen_ghost_state = &C;
    C.text_released = C.ring_frees = 0; C.at = 0; G.fresh = NULL; G.text = NULL; G.empty = empty;
    G.ring = malloc(s * sizeof(char*));
    ASSUME(G.ring != NULL);
    if (!none){ G.text = malloc(2); ASSUME(G.text != NULL); }
    G.ring[k] = cligen_ghost_text = G.text;
    cligen_ghost_holds = !none && !empty;
    H.ch_hist_size = s; H.ch_hist_buf = G.ring;
    IN_TO(int, H.ch_hist_last); IN_TO(int, H.ch_hist_cur);
    ASSUME(0 <= H.ch_hist_last && H.ch_hist_last < s && 0 <= H.ch_hist_cur && H.ch_hist_cur <= s);
}
void h_init(void)
{
    int r, s; IN(int, lines); IN(_Bool, first); char **old;
    ring();
    if (first){ cligen_ghost_holds = 0; G.ring = NULL; G.text = NULL; H.ch_hist_buf = NULL; H.ch_hist_size = 0; }
    ASSUME(lines <= (1 << 24));
    s = H.ch_hist_size; old = H.ch_hist_buf;
    struct cligen_handle e = H;
    IN(unsigned, j);
    ASSUME(lines < 1 || j <= lines);
    cligen_ghost_j = j;
    r = cligen_hist_init(&H, lines);
    COVER("returns");
    CHECK(r == 0 || r == -1, "documented return values");
    CHECK(lines >= 1 || r < 0, "size below one refused");
    if (r < 0){
        COVER("refused");
        CHECK(H.ch_hist_size == s && H.ch_hist_buf == old && H.ch_hist_last == e.ch_hist_last && H.ch_hist_cur == e.ch_hist_cur, "history unchanged when refused");
        CHECK(C.text_released == 0 && C.ring_frees == 0, "nothing released when refused");
        return;
    }
    COVER("done");
    CHECK(H.ch_hist_size == lines + 1 && H.ch_hist_buf != NULL && H.ch_hist_buf == G.fresh, "ring of the size asked for");
    CHECK(H.ch_hist_last == 0 && H.ch_hist_cur == 0 && H.ch_hist_pre == NULL, "empty history");
    CHECK(H.ch_hist_buf[0] != NULL && H.ch_hist_buf[0][0] == '\0', "end marker");
    CHECK(j == 0 || H.ch_hist_buf[j] == NULL, "all slots empty");
    CHECK(!cligen_ghost_holds || C.text_released == 1, "every old entry released");
    CHECK(C.ring_frees == !first, "old ring released");
}
void h_exit(void)
{
    ring();
    hist_exit(&H);
    COVER("returns");
    CHECK(H.ch_hist_buf == NULL, "no ring");
    CHECK(!cligen_ghost_holds || C.text_released == 1, "every entry released");
    CHECK(C.ring_frees == 1, "ring released");
}
#else
#ifdef VH_NATIVE
#define K 40
#else
#define K 3
#endif
/* sizes and fill levels; leaks and double releases are the sanitizer's business */
void h_init(void)
{
    IN(uint8_t, l0); IN(uint8_t, l1); IN(uint8_t, n); int i;
    memset(&H, 0, sizeof(H));
    l0 %= K; l1 %= K; n %= 2 * K;
    CHECK((cligen_hist_init(&H, l0) == 0) == (l0 >= 1), "size below one refused");
    if (l0 < 1) return;
    for (i = 0; i < n; i++){
        char t[3] = {'a' + i % 26, 0};
        CHECK(hist_add(&H, t) == 0, "add");
    }
    if (cligen_hist_init(&H, l1) == 0){
        CHECK(H.ch_hist_last == 0 && H.ch_hist_cur == 0 && H.ch_hist_pre == NULL && H.ch_hist_buf[0][0] == '\0' && H.ch_hist_size == l1 + 1, "empty history");
        for (i = 1; i <= l1; i++)
            CHECK(H.ch_hist_buf[i] == NULL, "all slots empty");
        for (i = 0; i < n; i++){
            char t[3] = {'a' + i % 26, 0};
            CHECK(hist_add(&H, t) == 0, "add");
        }
    }
    hist_exit(&H);
    CHECK(H.ch_hist_buf == NULL, "no ring");
}
void h_exit(void){ h_init(); }
#endif
