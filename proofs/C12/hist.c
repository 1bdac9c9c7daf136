/* C12: the command history.
 *
 * Proof reading: one step from an arbitrary valid ring of any size, fill level and position (the
 * induction step; cligen_hist_init is the base). Other readings: sequences of steps against a
 * plain list. */
#define VH_TEXT_ID
#include "vh.h"
#ifdef VH_PROOF
#include "vhalloc.h"
#endif
#include "cligen_config.h"
#include <ctype.h>
#ifdef VH_PROOF
struct gh {                     /* ghost: what the library functions know about texts */
    char  *line;                /* the line entered */
    char  *pre;                 /* the most recent entry */
    size_t len, prelen;
    _Bool  same;                /* they are the same text */
    _Bool  blank;               /* the line is blank only */
    size_t bufsize;
    char **slots;               /* the ring */
};
static struct gh G;
static char copied[2];          /* text id of the line: 'L' */
/* assumed contracts of the C library on opaque texts: texts are told apart by address, the
 * first byte tells whether a text is empty */
static size_t s_strlen(const char *s)
{
    if (s == G.line) return G.len;
    if (s == G.pre && s != NULL) return G.prelen;
    if (*s == '\0') return 0;
    size_t n; ASSUME(n > 0 && n < VH_HUGE); return n;
}
static int s_strncmp(const char *a, const char *b, size_t n)
{
    int r;
    _Bool known = (a == G.line && b == G.pre) || (b == G.line && a == G.pre);
    if (n == 0 || a == b || (known && G.same)) return 0;
    if (known && n >= (G.len < G.prelen ? G.len : G.prelen) + (G.len != G.prelen)) ASSUME(r != 0);
    return r;
}
static int s_strcmp(const char *a, const char *b)
{
    int r;
    _Bool known = (a == G.line && b == G.pre) || (b == G.line && a == G.pre);
    if (a == b || (known && G.same)) return 0;
    if (known) ASSUME(r != 0);
    return r;
}
static char *s_strchr(const char *s, int c)
{
    CHECK(c == '\n' || c == '\0', "model of strchr: only asked for line ends");
    if (c == '\n') return NULL;          /* a line has no line end in it */
    return (char*)s + s_strlen(s);
}
static char *s_strdup(const char *s)
{
    char *p = malloc(2);
    if (p == NULL) return NULL;
    p[0] = s == G.line ? 'L' : s[0]; p[1] = '\0';
    return p;
}
#define strlen s_strlen
#define strncmp s_strncmp
#define strcmp s_strcmp
#define strchr s_strchr
#undef strdup
#define strdup s_strdup
#endif
#include "cligen_history.c"
#undef strlen
#undef strncmp
#undef strcmp
#undef strchr

static struct cligen_handle H;
static long gl_bells;
int gl_putc(int c){ gl_bells++; return 0; }
#ifdef VH_PROOF
char *cligen_buf(cligen_handle h){ return H.ch_buf; }
int cligen_buf_size(cligen_handle h){ return (int)G.bufsize; }
int cligen_buf_increase(cligen_handle h, size_t n)
{
    IN(_Bool, nomem);
    if (nomem) return -1;
    if (n >= G.bufsize) G.bufsize = n + 1;
    return 0;
}
static int S, N, L;             /* slots, entries, last */
static char *T0, *T1;           /* first and last entry when there are any */
static int slot(int back){ int i = L - back; return i < 0 ? i + S : i; }  /* 0 <= back <= S */
static char *text(char id)
{
    char *p = malloc(2);
    ASSUME(p != NULL);
    p[0] = id; p[1] = '\0';
    return p;
}
/* an arbitrary valid ring; entries k steps back from the end are given texts on request */
static void ring(void)
{
    IN(int, s); IN(int, n); IN(int, l);
    ASSUME(2 <= s && s <= (1 << 24) && 0 <= n && n < s && 0 <= l && l < s);
    vh_live = 0; vh_reliable = 0; gl_bells = 0;
    S = s; N = n; L = l;
    G.line = NULL; G.pre = NULL; G.len = 0; G.prelen = 1; G.same = 0; G.bufsize = 64;
    G.slots = malloc(s * sizeof(char*));
    ASSUME(G.slots != NULL);
    H.ch_hist_size = s; H.ch_hist_last = l; H.ch_hist_buf = G.slots;
    G.slots[l] = "";
    H.ch_hist_pre = NULL;
    if (n > 0){
        H.ch_hist_pre = G.slots[slot(1)] = text('1');
        G.pre = H.ch_hist_pre;
    }
    if (n > 1) G.slots[slot(n)] = text('n');
    if (n < s - 1) G.slots[slot(n + 1)] = NULL;
    if (n < s - 2){ G.slots[slot(s - 1)] = NULL; }
}
/* position: c steps back from the end; one before the oldest is allowed while not full */
static int cur(void)
{
    IN(int, c);
    ASSUME(0 <= c && c <= N + (N < S - 1));
    H.ch_hist_cur = slot(c);
    return c;
}
/* the line entered, of any length: blanks, then (unless blank) something else */
static char *entered(void)
{
    IN(size_t, len); IN(size_t, first); IN(size_t, k); IN(char, b); IN(char, b2); IN(char, c);
    ASSUME(len < (1 << 30) && first <= len);
    ASSUME(b == ' ' || b == '\t'); ASSUME(b2 == ' ' || b2 == '\t');
    ASSUME(c != ' ' && c != '\t' && c != '\n' && c != '\0');
    char *line = malloc(len + 1);
    ASSUME(line != NULL);
    __CPROVER_array_set(line, b);
    if (k < len) line[k] = b2;
    line[len] = '\0';
    if (first < len) line[first] = c;
    G.line = line; G.len = len; G.blank = first == len;
    cligen_ghost_k = first;
    return line;
}
void h_add(void)
{
    char *line, *before; int r; long own;
    ring();
    cur();
    line = entered();
    IN(size_t, prelen); IN(_Bool, same);
    ASSUME(prelen > 0 && prelen < (1 << 30) && (!same || (G.len == prelen && !G.blank)));
    G.prelen = prelen; G.same = N > 0 && same;
    IN(int, at);                         /* an arbitrary slot */
    ASSUME(0 <= at && at < S);
    before = G.slots[at];
    own = vh_live;
    r = hist_add(&H, line);
    COVER("returns");
    CHECK(r == 0 || r == -1, "documented return values");
    CHECK(H.ch_hist_buf == G.slots && H.ch_hist_size == S, "ring kept");
    if (r < 0){
        COVER("no memory");
        CHECK(H.ch_hist_last == L && H.ch_hist_pre == G.pre && G.slots[at] == before && vh_live == own, "history unchanged when no memory");
        return;
    }
    if (!G.blank && !G.same){
        COVER("recorded");
        int nl = L + 1 == S ? 0 : L + 1;
        CHECK(H.ch_hist_last == nl && H.ch_hist_cur == nl, "position after the newest entry");
        CHECK(G.slots[L] != NULL && G.slots[L] == H.ch_hist_pre && G.slots[L][0] == 'L', "exact line is the newest entry");
        CHECK(G.slots[nl] != NULL && G.slots[nl][0] == '\0', "end marker");
        CHECK(at == L || at == nl || G.slots[at] == before, "other entries untouched");
        CHECK(vh_live == own + 1 - (N == S - 1), "dropped entry released, no other");
    }
    else {
        COVER("not recorded");
        CHECK(H.ch_hist_cur == L, "position reset");
        CHECK(H.ch_hist_last == L && H.ch_hist_pre == G.pre && G.slots[at] == before && vh_live == own, "blank or repeated line not recorded");
    }
}
void h_prev(void)
{
    int c; char *p, *want = NULL;
    ring();
    c = cur();
    if (c < N){
        if (c + 1 > 1 && c + 1 < N) G.slots[slot(c + 1)] = text('p');
        if (c > 1 && c < N) G.slots[slot(c)] = text('c');
        want = G.slots[slot(c + 1)];
    }
    p = hist_prev(&H);
    COVER("returns");
    CHECK(p != NULL, "always a text");
    CHECK(H.ch_hist_last == L && H.ch_hist_pre == G.pre && H.ch_hist_size == S, "entries kept");
    if (c < N){
        COVER("stepped");
        CHECK(p == want && H.ch_hist_cur == slot(c + 1), "previous entry, exact text");
    }
    else {
        COVER("at the oldest");
        CHECK(p[0] == '\0', "nothing before the oldest");
        CHECK(H.ch_hist_cur == slot(c) || (N < S - 1 && H.ch_hist_cur == slot(N + 1)), "stops at the oldest");
    }
}
void h_next(void)
{
    int c; char *p, *want = NULL;
    ring();
    c = cur();
    if (c > 1){
        if (c - 1 > 1 && c - 1 < N) G.slots[slot(c - 1)] = text('p');
        want = G.slots[slot(c - 1)];
    }
    if (c > 1 && c < N) G.slots[slot(c)] = text('c');
    p = hist_next(&H);
    COVER("returns");
    CHECK(p != NULL, "always a text");
    CHECK(H.ch_hist_last == L && H.ch_hist_pre == G.pre && H.ch_hist_size == S, "entries kept");
    if (c > 1){
        COVER("stepped");
        CHECK(p == want && H.ch_hist_cur == slot(c - 1), "next entry, exact text");
    }
    else {
        COVER("at the newest");
        CHECK(p[0] == '\0' && H.ch_hist_cur == L, "stops after the newest");
    }
}
#else
#ifdef VH_NATIVE
#define MAXOPS 60
#define MAXSIZE 5
#define MAXLEN 4
#else
#define MAXOPS 2
#define MAXSIZE 2
#define MAXLEN 1
#endif
static size_t bufsize;
char *cligen_buf(cligen_handle h){ return H.ch_buf; }
int cligen_buf_size(cligen_handle h){ return bufsize; }
int cligen_buf_increase(cligen_handle h, size_t n)
{
    if (n >= bufsize){
        H.ch_buf = realloc(H.ch_buf, 2 * n + 1);
        ASSUME(H.ch_buf != NULL);
        bufsize = 2 * n + 1;
    }
    return 0;
}
static char ref[MAXOPS + 1][MAXLEN + 1];       /* all recorded lines, in order */
void h_ops(void)
{
    int n = 0, base = 0, lines, pos, i, op;
    IN(uint8_t, l0);
    lines = 1 + l0 % MAXSIZE;
    memset(&H, 0, sizeof(H));
    bufsize = 4;
    H.ch_buf = malloc(4);
    ASSUME(H.ch_buf != NULL);
    memset(H.ch_buf, 0, 4);
    CHECK(cligen_hist_init(&H, 0) < 0, "size zero refused");
    CHECK(cligen_hist_init(&H, lines) == 0, "init");
    pos = 0;                                    /* steps back from the end */
    for (op = 0; op < MAXOPS; op++){
        IN(uint8_t, o);
        int held = n - base;
        o &= 15;
        if (o == 15){
            IN(uint8_t, l1);
            if (l1 > 20) continue;
            lines = 1 + l1 % MAXSIZE;
            CHECK(cligen_hist_init(&H, lines) == 0, "init again");
            base = n; pos = 0;
        }
        else if (o < 6){
            char line[MAXLEN + 1]; _Bool blank = 1; int len = 0;
            memset(line, 0, sizeof(line));
            for (i = 0; i < MAXLEN; i++){
                IN(uint8_t, c);
                static const char set[8] = {' ', '\t', 'a', 'b', 'a', 0, 'z', '1'};
                line[i] = set[c & 7];
                if (!line[i]) break;
                len++;
                if (line[i] != ' ' && line[i] != '\t') blank = 0;
            }
            CHECK(hist_add(&H, line) == 0, "add");
            pos = 0;
            if (!blank && !(n > base && strcmp(ref[n-1], line) == 0)){
                memcpy(ref[n++], line, MAXLEN + 1);
                if (n - base > lines) base = n - lines;
            }
        }
        else if (o < 11){
            char *p = hist_prev(&H);
            if (pos < held){
                pos++;
                CHECK(strcmp(p, ref[n - pos]) == 0, "previous entry, exact text");
            }
            else {
                CHECK(p[0] == '\0', "nothing before the oldest");
                if (held < lines) pos = held + 1;       /* one before the oldest, while not full */
            }
        }
        else {
            char *p = hist_next(&H);
            if (pos > 1){
                pos--;
                CHECK(strcmp(p, ref[n - pos]) == 0, "next entry, exact text");
            }
            else {
                pos = 0;
                CHECK(p[0] == '\0', "nothing after the newest");
            }
        }
    }
    /* the whole of it, newest to oldest */
    hist_pos_set(&H, hist_last_get(&H));
    for (i = 1; i <= n - base; i++){
        CHECK(strcmp(hist_prev(&H), ref[n - i]) == 0, "entries in order");
        CHECK(hist_copy_pos(&H) == 0 && strcmp(H.ch_buf, ref[n - i]) == 0, "entry copied to the line");
    }
    CHECK(hist_prev(&H)[0] == '\0', "no more entries than the size");
#ifdef VH_NATIVE
    {
        char *mem = NULL; size_t sz = 0, at = 0;
        FILE *f = open_memstream(&mem, &sz);
        CHECK(cligen_hist_file_save(&H, f) == 0, "save");
        fclose(f);
        for (i = base; i < n; i++){
            size_t k = strlen(ref[i]);
            CHECK(at + k < sz && memcmp(mem + at, ref[i], k) == 0 && mem[at + k] == '\n', "entries saved in order");
            at += k + 1;
        }
        CHECK(at == sz, "nothing else saved");
        free(mem);
    }
#endif
    hist_exit(&H);
    free(H.ch_buf);
}
void h_add(void){ h_ops(); }
void h_prev(void){ h_ops(); }
void h_next(void){ h_ops(); }
#endif
