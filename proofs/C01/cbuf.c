/* C01: the string buffer. Contracts on the real functions of cligen_buf.c */
#include "vh.h"
#include "cligen_buf.h"
#include "cligen_buf_internal.h"

/* Representation invariant: the buffer is an allocated block of cb_buflen bytes holding a
 * null-terminated text of cb_strlen bytes */
#define SIZES(cb)  ((cb)->cb_strlen < (cb)->cb_buflen && (cb)->cb_buflen < VH_HUGE)
#define TERM(cb)   ((cb)->cb_buffer[(cb)->cb_strlen] == '\0')
#ifdef VH_PROOF
#define BLOCK(cb)  (__CPROVER_rw_ok((cb)->cb_buffer, (cb)->cb_buflen) && __CPROVER_POINTER_OFFSET((cb)->cb_buffer) == 0)
#else
#define BLOCK(cb)  1
#endif
#define VALID(cb)  (SIZES(cb) && BLOCK(cb) && TERM(cb))

/* ghost state: one arbitrary position of the old text and its byte, one arbitrary position of
 * the appended text and its byte. Proving for an arbitrary position proves for all. */
static size_t g_len0;           /* length before */
static size_t g_k;  static char g_c;   /* old text: g_k < g_len0 */
static size_t g_j;  static char g_d;   /* new text: g_j < n */
static size_t g_n;              /* length of the appended text */
#define SAME_OLD(cb)  (!(g_k < g_len0) || (cb)->cb_buffer[g_k] == g_c)
#define HAS_NEW(cb)   (!(g_j < g_n) || (cb)->cb_buffer[g_len0 + g_j] == g_d)

/*---- external functions: assumed contracts, tied to the ghost text ----*/
#ifdef VH_PROOF
static const char *g_str;       /* the text handed over, length g_n, no null inside (at g_j) */
size_t strlen(const char *s)
REQUIRES(s == g_str)
ENSURES(RESULT == g_n)
ASSIGNS();

char *strncpy(char *d, const char *s, size_t n)
REQUIRES(s == g_str && n <= g_n + 1 && __CPROVER_w_ok(d, n))
ENSURES(RESULT == d)
ENSURES(!(g_j < n && g_j < g_n) || d[g_j] == g_d)
ENSURES(!(g_n < n) || d[g_n] == '\0')
ASSIGNS(__CPROVER_object_upto(d, n));

/* vsnprintf: any text (ghost g_n, g_d), same text in both calls, at most size-1 bytes + null */
static int g_fail1, g_fail2;
int vsnprintf(char *s, size_t size, const char *format, va_list ap)
{
    if (s == NULL || size == 0)
        return g_fail1 ? -1 : (int)g_n;
    if (g_fail2)
        return -1;
    __CPROVER_assert(__CPROVER_w_ok(s, size), "CHECK:vsnprintf destination is writable for the size given");
    {
        size_t w = g_n < size ? g_n : size - 1;
        __CPROVER_havoc_slice(s, w + 1);
        s[w] = '\0';
        if (g_j < w)
            s[g_j] = g_d;
    }
    return (int)g_n;
}
#endif

/*---- contracts ----*/
static int cbuf_realloc(cbuf *cb, size_t sz)
REQUIRES(SIZES(cb) && BLOCK(cb) && sz < VH_HUGE)
REQUIRES(cb->cb_buffer[cb->cb_strlen] == '\0' && cb->cb_strlen == g_len0 && SAME_OLD(cb))
ASSIGNS(cb->cb_buflen, cb->cb_buffer; __CPROVER_object_whole(cb->cb_buffer))
FREES(cb->cb_buffer)
ENSURES(RESULT == 0 || RESULT == -1)
ENSURES(cb->cb_strlen == g_len0)
#ifdef VH_PROOF
ENSURES(RESULT == 0 ==> (cb->cb_buflen > cb->cb_strlen + sz))
ENSURES(RESULT == 0 ==> BLOCK(cb))
ENSURES(RESULT != 0 ==> (cb->cb_buffer == OLD(cb->cb_buffer) && cb->cb_buflen == OLD(cb->cb_buflen)))
#endif
ENSURES(SAME_OLD(cb))
ENSURES(cb->cb_buffer[cb->cb_strlen] == '\0')
;

#define POST_APPEND(r, cb) ((r) == 0 ? ((cb)->cb_strlen == g_len0 + g_n && (cb)->cb_strlen < (cb)->cb_buflen && \
                                        TERM(cb) && SAME_OLD(cb) && HAS_NEW(cb))        \
                                     : ((r) == -1 && (cb)->cb_strlen == g_len0 && TERM(cb) && SAME_OLD(cb)))
int cbuf_append_str(cbuf *cb, char *str)
REQUIRES(VALID(cb) && cb->cb_strlen == g_len0 && SAME_OLD(cb))
ASSIGNS(cb->cb_buflen, cb->cb_buffer, cb->cb_strlen, errno; __CPROVER_object_whole(cb->cb_buffer))
FREES(cb->cb_buffer)
ENSURES(str != NULL ==> POST_APPEND(RESULT, cb))
ENSURES(str == NULL ==> (RESULT == -1 && VALID(cb) && cb->cb_strlen == g_len0 && SAME_OLD(cb)))
;
int cbuf_append_buf(cbuf *cb, void *src, size_t n)
REQUIRES(VALID(cb) && cb->cb_strlen == g_len0 && SAME_OLD(cb) && n < VH_HUGE)
ASSIGNS(cb->cb_buflen, cb->cb_buffer, cb->cb_strlen, errno; __CPROVER_object_whole(cb->cb_buffer))
FREES(cb->cb_buffer)
ENSURES(src != NULL ==> POST_APPEND(RESULT, cb))
ENSURES(src == NULL ==> (RESULT == -1 && VALID(cb) && cb->cb_strlen == g_len0 && SAME_OLD(cb)))
;
int cbuf_trunc(cbuf *cb, size_t i)
REQUIRES(VALID(cb) && cb->cb_strlen == g_len0 && SAME_OLD(cb))
ASSIGNS(cb->cb_strlen, errno; __CPROVER_object_whole(cb->cb_buffer))
ENSURES(i <= g_len0 ? (RESULT == 0 && cb->cb_strlen == i && TERM(cb) && (!(g_k < i) || SAME_OLD(cb)))
                    : (RESULT == -1 && cb->cb_strlen == g_len0 && TERM(cb) && SAME_OLD(cb)))
;
void cbuf_reset(cbuf *cb)
REQUIRES(VALID(cb))
ASSIGNS(cb->cb_strlen; __CPROVER_object_whole(cb->cb_buffer))
ENSURES(cb->cb_strlen == 0 && cb->cb_buffer[0] == '\0')
;
#include "cligen_buf.c"

/*---- harnesses ----*/
static cbuf *
mk(void)
{
    cbuf *cb = malloc(sizeof(*cb));
    ASSUME(cb != NULL);
    IN(size_t, buflen); IN(size_t, len);
    BOUND(buflen, 8);
    ASSUME(buflen > 0 && buflen < VH_HUGE && len < buflen);
    cb->cb_buflen = buflen;
    cb->cb_buffer = vh_block(buflen);
    cb->cb_strlen = len;
    cb->cb_buffer[len] = '\0';
    g_len0 = len;
    IN(size_t, k);
    g_k = k;
    if (k < len)
        g_c = cb->cb_buffer[k];
    IN_TO(size_t, cbuflen_threshold);
    BOUND(cbuflen_threshold, 9);
    ASSUME(cbuflen_threshold < VH_HUGE);
    return cb;
}
static void
done(cbuf *cb)
{
    cbuf_free(cb);
    COVER("end");
}
static char *
mkstr(void)
{
    IN(size_t, n);
    BOUND(n, 6);
    ASSUME(n < VH_HUGE);
    char *s = vh_string(n);
    g_n = n;
    IN(size_t, j);
    g_j = j;
    if (j < n)
        g_d = s[j];
#ifdef VH_PROOF
    g_str = s;
#endif
    return s;
}

void h_realloc(void)
{
    cbuf *cb = mk();
    IN(size_t, sz);
    BOUND(sz, 8);
    ASSUME(sz < VH_HUGE);
    size_t buflen0 = cb->cb_buflen;
    int r = cbuf_realloc(cb, sz);
    if (r == 0){
        CHECK(cb->cb_buflen > g_len0 + sz, "room for the extra bytes and the null");
        cb->cb_buffer[g_len0 + sz] = '\0';
        COVER("grown");
    }
    CHECK(cb->cb_strlen == g_len0, "length unchanged");
    CHECK(SAME_OLD(cb), "text unchanged");
    (void)buflen0;
    done(cb);
}
void h_append_str(void)
{
    cbuf *cb = mk();
    char *s = mkstr();
    int r = cbuf_append_str(cb, s);
    CHECK(POST_APPEND(r, cb), "append: text is the concatenation and null-terminated");
    if (r == 0)
        COVER("ok");
    free(s);
    done(cb);
}
void h_append_null(void)
{
    cbuf *cb = mk();
    int r = cbuf_append_str(cb, NULL);
    CHECK(r == -1 && VALID(cb) && cb->cb_strlen == g_len0 && SAME_OLD(cb), "append NULL string");
    r = cbuf_append_buf(cb, NULL, 3);
    CHECK(r == -1 && VALID(cb) && cb->cb_strlen == g_len0 && SAME_OLD(cb), "append NULL buffer");
    done(cb);
}
/* a single character; '\0' appends nothing */
void h_append(void)
{
    cbuf *cb = mk();
    IN(int, c);
    IN(size_t, j);
    char buf[2] = {0,};
    g_j = j;
    g_n = (char)c != 0;
    g_d = (char)c;
#ifndef VH_PROOF
    buf[0] = c;
#endif
    int r = cbuf_append(cb, c);
    CHECK(POST_APPEND(r, cb), "append character: text is the concatenation and null-terminated");
    if (r == 0)
        COVER("ok");
    done(cb);
}
void h_append_buf(void)
{
    cbuf *cb = mk();
    IN(size_t, n);
    BOUND(n, 6);
    ASSUME(n < VH_HUGE);
    char *s = vh_block(n);
    g_n = n;
    IN(size_t, j);
    g_j = j;
    if (j < n)
        g_d = s[j];
    int r = cbuf_append_buf(cb, s, n);
    CHECK(POST_APPEND(r, cb), "append buffer: bytes are the concatenation and null-terminated");
    if (r == 0)
        COVER("ok");
    free(s);
    done(cb);
}
#ifdef VH_PROOF
#define PRINTF_RESULT(r) ((g_fail1 || g_fail2) ? ((r) <= 0) : 1)
#define PRINTF_BOUND ASSUME(g_n <= INT_MAX); { IN(int, f1); IN(int, f2); g_fail1 = f1; g_fail2 = f2; }
#else
#define PRINTF_BOUND
#endif
/* printf-like: the formatted text is appended. On failure of the formatter the text and length are
 * unchanged */
#ifdef VH_BMC
/* bounded reading: format is always "%s" */
int vsnprintf(char *s, size_t size, const char *format, va_list ap)
{
    extern char *vh_text;
    size_t n = strlen(vh_text), i;
    if (size > 0){
        for (i = 0; i < n && i < size - 1; i++)
            s[i] = vh_text[i];
        s[i] = '\0';
    }
    return n;
}
char *vh_text;
#endif
void h_cprintf(void)
{
    cbuf *cb = mk();
    char *s = mkstr();
    PRINTF_BOUND;
#ifdef VH_BMC
    vh_text = s;
#endif
    int r = cprintf(cb, "%s", s);
    if (r == 0){
        CHECK(POST_APPEND(r, cb), "cprintf: text is the concatenation and null-terminated");
        COVER("ok");
    }
    else
        CHECK(r == -1 && cb->cb_strlen == g_len0 && SAME_OLD(cb), "cprintf failed: text unchanged");
#ifdef VH_PROOF
    if (g_fail1 || g_fail2)
        CHECK(r == -1, "cprintf reports that formatting failed");
#endif
    free(s);
    done(cb);
}
static int
wrap_vcprintf(cbuf *cb, const char *format, ...)
{
    va_list ap;
    int r;
    va_start(ap, format);
    r = vcprintf(cb, format, ap);
    va_end(ap);
    return r;
}
void h_vcprintf(void)
{
    cbuf *cb = mk();
    char *s = mkstr();
    PRINTF_BOUND;
#ifdef VH_BMC
    vh_text = s;
#endif
    int r = wrap_vcprintf(cb, "%s", s);
    if (r == 0){
        CHECK(POST_APPEND(r, cb), "vcprintf: text is the concatenation and null-terminated");
        COVER("ok");
    }
    else
        CHECK(r == -1 && cb->cb_strlen == g_len0 && SAME_OLD(cb), "vcprintf failed: text unchanged");
#ifdef VH_PROOF
    if (g_fail1 || g_fail2)
        CHECK(r == -1, "vcprintf reports that formatting failed");
#endif
    free(s);
    done(cb);
}
void h_trunc(void)
{
    cbuf *cb = mk();
    IN(size_t, i);
    int r = cbuf_trunc(cb, i);
    if (i <= g_len0)
        CHECK(r == 0 && cb->cb_strlen == i && TERM(cb) && (!(g_k < i) || SAME_OLD(cb)), "truncate keeps the prefix");
    else
        CHECK(r == -1 && cb->cb_strlen == g_len0 && TERM(cb) && SAME_OLD(cb), "truncate beyond the length is refused");
    done(cb);
}
void h_reset(void)
{
    cbuf *cb = mk();
    cbuf_reset(cb);
    CHECK(cb->cb_strlen == 0 && cb->cb_buffer[0] == '\0', "reset: empty and null-terminated");
    done(cb);
}
/* creation: a valid empty buffer for every size, and accessors */
void h_new(void)
{
    IN(size_t, sz); IN(int, which);
    IN(size_t, start); IN(size_t, thr);
    size_t a, b;
    BOUND(sz, 16); BOUND(start, 16);
    ASSUME(sz < VH_HUGE && start < VH_HUGE);
    cbuf_alloc_set(start, thr);
    CHECK(cbuf_alloc_get(&a, &b) == 0 && a == start && b == thr, "allocation parameters are what was set");
    cbuf *cb = which ? cbuf_new_alloc(sz) : cbuf_new();
    if (cb != NULL){
        CHECK(VALID(cb) && cb->cb_strlen == 0, "new buffer is valid and empty");
        CHECK(cb->cb_buffer[0] == '\0', "new buffer holds the empty string");
        CHECK(cbuf_len(cb) == 0 && cbuf_get(cb) == cb->cb_buffer && cbuf_buflen(cb) == cb->cb_buflen, "accessors");
        CHECK(cbuf_buflen(cb) >= (which ? sz : start), "at least the size asked for");
        COVER("ok");
        done(cb);
    }
    cbuf_free(NULL);
    COVER("null");
}
void h_access(void)
{
    cbuf *cb = mk();
    CHECK(cbuf_len(cb) == g_len0, "length");
    CHECK(cbuf_get(cb) == cb->cb_buffer, "text");
    CHECK(cbuf_buflen(cb) == cb->cb_buflen, "allocated size");
    CHECK(cprintf(NULL, "x") == 0, "printf into no buffer is accepted");
    done(cb);
}
