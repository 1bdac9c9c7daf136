/* C13: showing the line (gl_fixup) reads the line within its text only, leaves it alone, and sets cursor and length as
 * its contract in line.c says. The line is of any length, the terminal of any width, whatever was shown before. */
#include "cvh.h"
#include <ctype.h>
#include <unistd.h>
#include <termios.h>
#include <sys/ioctl.h>
long cligen_ghost_v[8], cligen_ghost_c[10]; char cligen_ghost_ch[2];
static long L, CAP, PLEN, LASTLEN; static char *LINE; static char PROMPT[8]; static _Bool SAME;
static long w_write(const void *p, size_t n){ return n; }
#define write(fd, p, n) w_write(p, n)
#ifdef VH_PROOF
static size_t t_strlen(const char *s);
static int t_strcmp(const char *a, const char *b){ return SAME ? 0 : 1; }
static char *t_strncpy(char *d, const char *s, size_t n)
{
    CHECK(s == PROMPT && __CPROVER_w_ok(d, n), "the prompt is kept in its buffer");
    SAME = 1;
    return d;
}
#define strlen t_strlen
#define strcmp t_strcmp
#define strncpy t_strncpy
#endif
#include "cligen_getline.c"
#undef strlen
#undef strcmp
#undef strncpy
#undef write
#ifdef VH_PROOF
static size_t t_strlen(const char *s)
{
    if (s == LINE)return L;
    if (s == fixup_last_prompt) return LASTLEN;
    CHECK(s == PROMPT, "model of strlen: of the prompts");
    return PLEN;
}
#endif
char *cligen_buf(cligen_handle h){ return LINE; }
int cligen_buf_size(cligen_handle h){ return CAP; }
char *cligen_prompt(cligen_handle h){ return PROMPT; }
int putc_contract(int c){ return 0; }
int puts_contract(char *s){ CHECK(s == PROMPT, "the prompt is shown"); return 0; }
int wrap_contract(void){ return 0; }
static int dummy;
#define H ((cligen_handle)&dummy)
void h_show(void)
{
    IN(uint8_t, nl); IN(uint8_t, slack); IN(_Bool, scroll); IN(int, change); IN(int, cursor); IN(int, pos); IN(int, cnt); IN(int, extent);
    IN(int, termw); IN(int, width); IN(int, scrollw); IN(int, shift); IN(_Bool, left); IN(_Bool, right); IN(_Bool, same); IN(uint8_t, pl); int i;
    gl_scrolling_mode = scroll;
#ifdef VH_PROOF
    long l, cap, plen, lastlen, o; char oldc;
    ASSUME(0 <= l && l < cap && cap < (1 << 28) && 0 <= plen && plen < (1 << 28) && 0 <= lastlen && lastlen < 80 && 0 <= o && o < cap);
    L = l; CAP = cap; PLEN = plen; LASTLEN = lastlen; SAME = same;
    LINE = malloc(cap); ASSUME(LINE != NULL);
    ASSUME(o != l || oldc == 0); LINE[l] = 0; LINE[o] = oldc;
    gl_strlen = t_strlen;
    ASSUME(0 <= pos && pos < (1 << 28) && 0 <= cnt && cnt < (1 << 28) && 0 <= extent && extent < (1 << 28) && 0 < termw && termw < (1 << 20));
    ASSUME(-(1 << 28) < width && width < (1 << 20) && 0 < scrollw && scrollw < (1 << 20) && 0 <= shift && shift < (1 << 29));
    ASSUME(-(1 << 28) < cursor && cursor < (1 << 28) && change >= -2 && change < (1 << 28));
#else
    long o;
    L = nl % 40; CAP = L + 1 + slack % 3; LINE = malloc(CAP); memset(LINE, 'x', CAP); LINE[L] = '\0';
    o = slack % CAP; char oldc = LINE[o];
    PLEN = pl % 7; memset(PROMPT, '>', PLEN); PROMPT[PLEN] = 0; fixup_last_prompt[0] = 0; if (same) strcpy(fixup_last_prompt, PROMPT);
    pos = (unsigned)pos % 50; cnt = (unsigned)cnt % 50; extent = (unsigned)extent % 8; termw = 1 + (unsigned)termw % 60; width = termw - (int)PLEN;
    scrollw = 1 + (unsigned)scrollw % 30; shift = (unsigned)shift % 3 * scrollw; change = -2 + (int)((unsigned)change % 50); cursor = -3 + (int)((unsigned)cursor % 60);
#endif
    if (change == -1) cnt = L;
    if (!scroll && width < 1) width = 1;
    gl_pos = pos; gl_cnt = cnt; gl_extent = extent; gl_termw = termw; gl_width = width; gl_scrollw = scrollw; fixup_gl_shift = shift;
    fixup_off_left = left ? 1 : 0; fixup_off_right = right ? 1 : 0;
    gl_fixup(H, PROMPT, change, cursor);
    COVER("returns");
    if (change == -1) COVER("cursor moved only");
    CHECK(gl_cnt == L, "length of the line");
    CHECK(gl_pos == (cursor < 0 ? 0 : cursor > L ? L : cursor), "cursor of the line");
    CHECK(LINE[o] == oldc && LINE[L] == '\0', "the line is not changed");
    CHECK(fixup_gl_shift >= 0, "shift of the line");
    free(LINE);
}
