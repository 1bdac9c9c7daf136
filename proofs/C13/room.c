/* C13: making room in the line buffer and the kill buffer keeps the text in it, for every size. realloc and memset by
 * contract, at an arbitrary position. */
#include "cvh.h"
#include "vhalloc.h"
#include <stddef.h>
#define fprintf(...) ((void)0)
#ifndef VH_NATIVE
#define strerror(x) "err"
#endif
static char *OLDBUF, OLDC; static long SIZE, P; static _Bool FAILED;
#ifdef VH_PROOF
static void *t_realloc(void *q, size_t n)
{
    char *p;
    CHECK(q == OLDBUF, "the buffer is enlarged");
    CHECK(n > SIZE, "the buffer gets no smaller");
    p = vh_malloc(n);
    if (p == NULL) return NULL;
    p[P] = OLDC;
    vh_free(q);
    return p;
}
static void *t_memset(void *d, int c, size_t n)
{
    CHECK(__CPROVER_w_ok(d, n), "cleared within the buffer");
    long off = __CPROVER_POINTER_OFFSET(d);
    if (off <= P && P - off < n) ((char*)d)[P - off] = c;
    return d;
}
#undef realloc
#define realloc t_realloc
#define memset t_memset
#endif
#include "cligen_handle.c"
#undef memset
#undef fprintf
static struct cligen_handle CH;
void h_room(void)
{
    IN(uint8_t, size0); IN(uint16_t, need0); IN(_Bool, kill); IN(_Bool, rel); int r; char *b; size_t n;
    vh_reliable = 1; vh_live = 0;
#ifdef VH_PROOF
    long size, p; size_t need; char c;
    ASSUME(0 < size && size < (1L << 30) && 0 <= p && p < size && need < (1UL << 30));
    SIZE = size; P = p; OLDC = c; OLDBUF = vh_malloc(size); ASSUME(OLDBUF != NULL); OLDBUF[p] = c;
#else
    size_t need = need0 % 300; SIZE = 1 + size0 % 40; P = need0 % SIZE; OLDBUF = vh_malloc(SIZE); memset(OLDBUF, 'x', SIZE); OLDBUF[P] = OLDC = 'o';
#endif
    CH.ch_magic = CLIGEN_MAGIC;
    if (kill){ CH.ch_killbuf = OLDBUF; CH.ch_killbufsize = SIZE; }
    else { CH.ch_buf = OLDBUF; CH.ch_bufsize = SIZE; }
    vh_reliable = rel;
    r = kill ? cligen_killbuf_increase(&CH, need) : cligen_buf_increase(&CH, need);
    COVER("returns");
    b = kill ? CH.ch_killbuf : CH.ch_buf; n = kill ? CH.ch_killbufsize : CH.ch_bufsize;
    CHECK(r == 0 || r == -1, "documented return values");
    if (vh_reliable) CHECK(r == 0, "fails only when out of memory");
    CHECK(vh_live == 1, "one buffer remains");
    CHECK(b[P] == OLDC && n >= SIZE, "the text is kept");
    if (r < 0){ CHECK(b == OLDBUF && n == SIZE, "unchanged on failure"); COVER("failure"); }
    else CHECK(need + 1 <= n, "there is room");
#ifdef VH_PROOF
    CHECK(__CPROVER_OBJECT_SIZE(b) == n, "the buffer has the size recorded");
#else
    b[n - 1] = 0;
#endif
    if (b != OLDBUF) COVER("enlarged");
    CHECK((kill ? cligen_killbuf(&CH) : cligen_buf(&CH)) == b && (kill ? cligen_killbuf_size(&CH) : cligen_buf_size(&CH)) == (int)n, "read back");
    vh_free(b);
}
