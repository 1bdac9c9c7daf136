/* C13: one edit of a line of any length: what is in front of A and behind B stays, with N characters of TEXT between.
 * O is an arbitrary position of the line (its character is OLDC), Q one of what is inserted (character NEW). The line
 * and kill buffers are any blocks that hold their texts; making room, showing the line, strlen, strncpy and memmove by
 * contract. */
#include "cvh.h"
#include "vhalloc.h"
#include <ctype.h>
#include <unistd.h>
#include <termios.h>
#include <sys/ioctl.h>
long cligen_ghost_v[8], cligen_ghost_c[10]; char cligen_ghost_ch[2];
#define LINE cligen_ghost_text
#define O cligen_ghost_n
#define OLDC cligen_ghost_ch[0]
#define NEW cligen_ghost_ch[1]
static long L, CAP, KL, KCAP, A, B, N, Q, MO, NEWLEN; static char *KILL; static _Bool FAILED, EDITED;
static char PROMPT[] = "> ", LAST[64], TEXT[64];
static long w_write(const void *p, size_t n){ return n; }
#define write(fd, p, n) w_write(p, n)
#ifdef VH_PROOF
static size_t t_strlen(const char *s)
{
    if (s == LINE){
        CHECK(EDITED || OLDC == LINE[O], "model of strlen: of the line");
        return L;
    }
    CHECK(s == KILL, "model of strlen: of the killed text");
    return KL;
}
static char *t_strncpy(char *d, const char *s, size_t n)
{
    CHECK(__CPROVER_same_object(s, LINE) && d == KILL, "model of strncpy: the deleted text");
    CHECK(__CPROVER_w_ok(d, n), "the copy fits");
    long off = s - LINE;
    if (off <= L && L - off < n) d[L - off] = '\0';
    if (off <= O && O - off < n) d[O - off] = OLDC;
    COVER("copied");
    return d;
}
static void *t_memmove(void *to, const void *from, size_t n)
{
    char *d = to; const char *s = from;
    CHECK(__CPROVER_same_object(s, LINE) && __CPROVER_same_object(d, LINE), "model of memmove: within the line");
    CHECK(__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n), "moved within the buffer");
    long off = s - LINE; _Bool in = off <= O && O - off < n; char junk;
    long doff = d - LINE;
    if (!in && doff <= O && O - doff < n) LINE[O] = junk;
    if (in){ d[O - off] = OLDC; }
    COVER("moved");
    return to;
}
#define strlen t_strlen
#define strncpy t_strncpy
#define memmove t_memmove
#endif
#include "cligen_getline.c"
#undef strlen
#undef strncpy
#undef memmove
#undef write
char *cligen_buf(cligen_handle h){ return LINE; }
int cligen_buf_size(cligen_handle h){ return CAP; }
char *cligen_killbuf(cligen_handle h){ return KILL; }
int cligen_killbuf_size(cligen_handle h){ return KCAP; }
char *cligen_prompt(cligen_handle h){ return PROMPT; }
static long more_room(long cap0, size_t len1)
{
    IN(uint8_t, more);
#ifdef VH_PROOF
    long cap;
    ASSUME(len1 + 1 <= cap && cap0 <= cap && cap <= INT_MAX);
    return cap;
#else
    return len1 + 1 + more % 3;
#endif
}
int cligen_buf_increase(cligen_handle h, size_t len1)
{
    char *p; long cap;
    CHECK(len1 < (1L << 31) - 2, "a line of less than 2^31 characters");
    if (len1 + 1 <= CAP) return 0;
    cap = more_room(CAP, len1);
    p = vh_malloc(cap);
    if (p == NULL){ FAILED = 1; return -1; }
#ifdef VH_PROOF
    p[O] = OLDC; p[L] = '\0';
#else
    memcpy(p, LINE, L + 1);
#endif
    vh_free(LINE); LINE = p; CAP = cap;
    COVER("line moved");
    return 0;
}
int cligen_killbuf_increase(cligen_handle h, size_t len1)
{
    char *p; long cap;
    if (len1 + 1 <= KCAP) return 0;
    cap = more_room(KCAP, len1);
    p = vh_malloc(cap);
    if (p == NULL){ FAILED = 1; return -1; }
    vh_free(KILL); KILL = p; KCAP = cap;
#ifndef VH_PROOF
    memset(p, 'k', cap);
#endif
    COVER("killed text moved");
    return 0;
}
static void check_line(void)
{
#ifdef VH_PROOF
    if (MO >= 0) CHECK(LINE[MO] == OLDC, "the rest of the line is kept");
    if (Q >= 0) CHECK(LINE[A + Q] == NEW, "the text is inserted");
#else
    char want[128];
    memcpy(want, LAST, A); memcpy(want + A, TEXT, N); strcpy(want + A + N, LAST + B);
    CHECK(NEWLEN < CAP && strcmp(LINE, want) == 0, "the line is edited as a string would be");
#endif
}
static long shown(long cursor){ return cursor < 0 ? 0 : cursor > NEWLEN ? NEWLEN : cursor; }
void fixup_contract(cligen_handle h, char *prompt, int change, int cursor)
{
    CHECK(prompt == PROMPT, "shown with the prompt");
    if (change == -1)
        CHECK(LINE[O] == OLDC && gl_cnt == L, "shown unchanged");
    else {
        CHECK(change >= 0 || change == -2, "change in the line");
        check_line();
        EDITED = 1;
        gl_cnt = NEWLEN;
    }
    gl_pos = cursor < 0 ? 0 : cursor > gl_cnt ? gl_cnt : cursor;
}
int putc_contract(int c){ return 0; }
static long map(long o){ return o < A ? o : o >= B ? o + N - (B - A) : -1; }
static int dummy;
#define H ((cligen_handle)&dummy)
static _Bool blank(char c){ return c == ' ' || ('\t' <= c && c <= '\r'); }
/* an arbitrary line with cursor, and kill buffer */
static void setup(void)
{
    IN(uint8_t, nl); IN(uint8_t, np); IN(uint8_t, slack); IN(uint8_t, kl); IN(uint8_t, kslack); IN(_Bool, over); IN(_Bool, scroll); IN(uint64_t, spaces); int i;
    vh_reliable = 1; vh_live = 0; FAILED = 0; EDITED = 0; Q = -1;
    gl_overwrite = over; gl_scrolling_mode = scroll; gl_extent = 0;
#ifdef VH_PROOF
    long l, p, cap, kcap, o, k, q; char oldc, new;
    ASSUME(0 <= l && l < cap && cap < (1 << 28) && 0 <= p && p <= l && 0 <= o && o <= l && (o == l ? oldc == '\0' : oldc != '\0'));
    ASSUME(0 <= k && k < kcap && kcap < (1 << 28) && new != '\0' && -1 <= q && q < k);
    L = l; CAP = cap; KL = k; KCAP = kcap; O = o; OLDC = oldc; NEW = new; gl_pos = p; gl_cnt = l; Q = q;
    LINE = vh_malloc(cap); KILL = vh_malloc(kcap); ASSUME(LINE != NULL && KILL != NULL);
    LINE[l] = '\0'; LINE[o] = oldc; KILL[k] = '\0'; if (q >= 0) KILL[q] = new;
#else
    L = nl % 12; CAP = L + 1 + slack % 3; KL = kl % 6; KCAP = KL + 1 + kslack % 12;
    LINE = vh_malloc(CAP); KILL = vh_malloc(KCAP); memset(LINE, 'x', CAP); memset(KILL, 'x', KCAP);
    for (i = 0; i < L; i++) LINE[i] = (spaces >> i) & 1 ? " \t"[(spaces >> (32 + i)) & 1] : 'a' + i;
    for (i = 0; i < KL; i++) KILL[i] = 'A' + i;
    LINE[L] = KILL[KL] = '\0'; strcpy(LAST, LINE); strcpy(TEXT, KILL);
    O = 0; OLDC = LINE[0]; gl_pos = np % (L + 1); gl_cnt = L;
    gl_termw = 30; gl_width = 28; gl_scrollw = 10; fixup_gl_shift = fixup_off_left = fixup_off_right = 0; strcpy(fixup_last_prompt, PROMPT);
#endif
}
static void expect(long a, long b, long n)
{
    A = a; B = b; N = n; NEWLEN = L - (b - a) + n; MO = map(O);
    cligen_ghost_v[2] = MO;
    if (Q >= n) Q = -1;
    cligen_ghost_v[3] = Q;
#ifdef VH_PROOF
    if (Q < 0 && n > 0) cligen_ghost_v[3] = n;
    if (n == 0) Q = -1;
#endif
}
static void done(long cursor, _Bool killed)
{
    check_line();
    CHECK(gl_cnt == NEWLEN, "length of the line");
    CHECK(gl_pos == shown(cursor), "cursor of the line");
    CHECK(NEWLEN < CAP, "the line fits its buffer");
    if (killed){
#ifdef VH_PROOF
        if (A <= O && O < B) CHECK(KILL[O - A] == OLDC, "the deleted text is kept");
        CHECK(B - A < KCAP && KILL[B - A] == '\0', "the deleted text is kept");
#else
        CHECK(strncmp(KILL, LAST + A, B - A) == 0 && strlen(KILL) == B - A, "the deleted text is kept");
#endif
    }
    CHECK(vh_live == 2, "nothing else is allocated");
    vh_free(LINE); vh_free(KILL);
}
static void unchanged(long cursor)
{
    expect(0, 0, 0);
    done(cursor, 0);
}
void h_addchar(void)
{
    IN(char, c); IN(_Bool, rel); long pos; int r;
    setup();
    pos = gl_pos;
    ASSUME(c != '\0'); NEW = c; TEXT[0] = c; Q = 0;
    expect(pos, gl_overwrite && pos < L ? pos + 1 : pos, 1);
    vh_reliable = rel;
    r = gl_addchar(H, (unsigned char)c);
    COVER("returns");
    CHECK(r == (FAILED ? -1 : 0), "fails exactly when out of memory");
    if (r < 0) unchanged(pos);
    else done(pos + 1, 0);
}
void h_yank(void)
{
    IN(_Bool, rel); long pos; int r;
    setup();
    pos = gl_pos;
    expect(pos, !gl_overwrite ? pos : pos + KL > L ? L : pos + KL, KL);
    vh_reliable = rel;
    r = gl_yank(H);
    COVER("returns");
    CHECK(r == (FAILED ? -1 : 0), "fails exactly when out of memory");
    if (r < 0) unchanged(pos);
    else done(pos + KL, 0);
}
void h_del(void)
{
    IN(_Bool, left); long pos;
    setup();
    pos = gl_pos;
    if (left ? pos == 0 : pos == L) expect(0, 0, 0);
    else expect(left ? pos - 1 : pos, left ? pos : pos + 1, 0);
    gl_del(H, left ? -1 : 0);
    COVER("returns");
    done(left && pos > 0 ? pos - 1 : pos, 0);
}
void h_kill(void)
{
    IN(_Bool, rel); IN(_Bool, all); long pos;
    setup();
    pos = gl_pos;
    expect(all ? 0 : pos, L, 0);
    vh_reliable = rel;
    gl_kill(H, all ? 0 : pos);
    COVER("returns");
    if (FAILED || A == B) unchanged(pos);
    else done(A, 1);
}
void h_kill_begin(void)
{
    IN(_Bool, rel); long pos;
    setup();
    pos = gl_pos;
    expect(0, pos, 0);
    vh_reliable = rel;
    gl_kill_begin(H, pos);
    COVER("returns");
    if (FAILED) unchanged(pos);
    else done(0, pos > 0);
}
void h_newline(void)
{
    IN(_Bool, rel); long pos; IN(uint8_t, width);
    setup();
    pos = gl_pos;
    expect(L, L, 1); NEW = '\n'; TEXT[0] = '\n'; Q = 0; gl_width = width;
    NEWLEN = L;         /* while it is shown */
    vh_reliable = rel;
    gl_newline(H);
    COVER("returns");
    CHECK(gl_cnt == L && gl_pos >= 0 && gl_pos <= L, "the line is shown from its start");
    if (FAILED){ NEWLEN = L; unchanged(gl_pos); return; }
    NEWLEN = L + 1; gl_cnt = L + 1;
    done(gl_pos, 0);
#ifdef VH_PROOF
    if (O == L) COVER("end of the line");
#endif
}
void h_transpose(void)
{
    long pos, o; _Bool can;
    setup();
    pos = gl_pos; can = pos > 0 && pos < L;
    expect(0, 0, 0);
    if (can){
        o = O;
        MO = o == pos ? pos - 1 : o == pos - 1 ? pos : o;
#ifndef VH_PROOF
        char c = LAST[pos]; LAST[pos] = LAST[pos - 1]; LAST[pos - 1] = c;
#endif
    }
    gl_transpose(H);
    COVER("returns");
    done(pos, 0);
}
/* start of the word in front of pos (blanks behind it skipped), or behind the first blank when there is none */
static long back(long pos)
{
    long end = pos > 0 ? pos : 1, m, s;
#ifdef VH_PROOF
    ASSUME(0 <= s && s <= m && m <= end && (m == 0 || s < m));
    cligen_ghost_c[0] = s - 1; cligen_ghost_c[1] = m; cligen_ghost_c[2] = end;
    cligen_ghost_c[3] = -1; cligen_ghost_c[4] = s; cligen_ghost_c[5] = m;
    cligen_ghost_v[0] = m > 0 ? m - 1 : 0; cligen_ghost_v[1] = s > 0 ? s - 1 : 0;
#else
    for (m = end; m > 0 && blank(LINE[m - 1]); m--);
    for (s = m; s > 0 && !blank(LINE[s - 1]); s--);
#endif
    return m == 0 && L > 0 ? 1 : s;
}
void h_kill_word(void)
{
    IN(_Bool, rel); long pos; int r;
    setup();
    pos = gl_pos;
    if (pos == 0) expect(0, 0, 0);
    else expect(back(pos), pos, 0);
    vh_reliable = rel;
    r = gl_kill_word(H, pos);
    COVER("returns");
    CHECK(r == (FAILED ? -1 : 0), "fails exactly when out of memory");
    if (r < 0) unchanged(pos);
    else done(pos == 0 ? 0 : A, pos > 0);
}
void h_word(void)
{
    IN(_Bool, forward); long pos, to;
    setup();
    pos = gl_pos;
    expect(0, 0, 0);
    if (forward){
        long m, e;
#ifdef VH_PROOF
        ASSUME(pos <= m && m <= e && e <= L && (m == L || m < e));
        cligen_ghost_c[0] = -1; cligen_ghost_c[1] = m; cligen_ghost_c[2] = e;
        cligen_ghost_c[3] = e; cligen_ghost_c[4] = pos; cligen_ghost_c[5] = m;
        cligen_ghost_v[0] = m; cligen_ghost_v[1] = e;
#else
        for (m = pos; m < L && !blank(LINE[m]); m++);
        for (e = m; e < L && blank(LINE[e]); e++);
#endif
        to = e;
    }
    else to = back(pos);
    gl_word(H, forward ? 1 : -1);
    COVER("returns");
    done(to, 0);
}
