/* C13: searching history leaves in the line buffer either nothing or an entry of the history, whole and terminated, with
 * the cursor within it. Entries of any length: E is an arbitrary position in the one found, EC its character. History,
 * strstr, strlen, strncpy and showing the line by contract. */
#include "cvh.h"
#include <ctype.h>
#include <unistd.h>
#include <termios.h>
#include <sys/ioctl.h>
long cligen_ghost_v[8], cligen_ghost_c[10]; char cligen_ghost_ch[2];
#define LINE cligen_ghost_text
#define EL cligen_ghost_v[0]
#define E cligen_ghost_v[1]
#define CAP cligen_ghost_v[4]
#define SHOWN cligen_ghost_v[5]
#define EC cligen_ghost_ch[1]
static char *ENTRY, EMPTY[2], PROMPT[4]; static int tries; static _Bool MODE;
static long w_write(const void *p, size_t n){ return n; }
#define write(fd, p, n) w_write(p, n)
static char *t_strstr(const char *a, const char *b);
#ifdef VH_PROOF
static size_t t_strlen(const char *s){ CHECK(s == ENTRY, "model of strlen: of the entry"); return EL; }
static char *t_strncpy(char *d, const char *s, size_t n)
{
    CHECK(d == LINE && s == ENTRY, "model of strncpy: the entry found");
    CHECK(n <= CAP, "the copy fits"); CHECK( __CPROVER_w_ok(d, n), "the copy fits its block");
    if (EL < n) d[EL] = '\0';
    if (E < n) d[E] = EC;
    return d;
}
#define strlen t_strlen
#define strncpy t_strncpy
#define strstr t_strstr
#endif
#include "cligen_getline.c"
#undef strlen
#undef strncpy
#undef strstr
#undef write
#ifdef VH_PROOF
static char *t_strstr(const char *a, const char *b)
{
    _Bool in; long off;
    CHECK(b == search_string, "the text searched for");
    if (!in) return NULL;
    ASSUME(0 <= off && off <= (a == LINE ? (long)gl_cnt : EL));
    return (char*)a + off;
}
#endif
char *cligen_buf(cligen_handle h){ return LINE; }
int cligen_buf_size(cligen_handle h){ return CAP; }
char *cligen_prompt(cligen_handle h){ return PROMPT; }
int hist_pos(cligen_handle h){ return 0; }
int hist_pos_set(cligen_handle h, int p){ return 0; }
int hist_last_get(cligen_handle h){ return 0; }
static char *entry(void)
{
#ifdef VH_PROOF
    _Bool none;
    return none ? EMPTY : ENTRY;
#else
    return tries++ > 2 ? EMPTY : ENTRY;
#endif
}
char *hist_prev(cligen_handle h){ return entry(); }
char *hist_next(cligen_handle h){ return entry(); }
int hist_copy_pos(cligen_handle h){ return 0; }
int cligen_buf_increase(cligen_handle h, size_t len1)
{
#ifdef VH_PROOF
    _Bool nomem;
#else
    IN(_Bool, nomem); IN(uint8_t, more);
#endif
    if (len1 + 1 <= CAP) return 0;
    if (nomem) return -1;
#ifdef VH_PROOF
    long cap;
    ASSUME(cap > 0 && len1 + 1 <= cap && cap < (1 << 28));
    CAP = cap;
#else
    CAP = len1 + 1 + more % 3;
    LINE = realloc(LINE, CAP);
#endif
    return 0;
}
int putc_contract(int c){ return 0; }
void fixup_contract(cligen_handle h, char *prompt, int change, int cursor)
{
    CHECK(change == 0, "the line is shown again");
#ifdef VH_PROOF
    if (LINE[0] == '\0'){ gl_cnt = 0; SHOWN = 1; }
    else {
        CHECK(EL < CAP && LINE[EL] == '\0' && LINE[E] == EC, "the line is the entry found");
        gl_cnt = EL; SHOWN = 2;
    }
#endif
    gl_pos = cursor < 0 ? 0 : cursor > gl_cnt ? gl_cnt : cursor;
}
static int dummy;
#define H ((cligen_handle)&dummy)
void h_search(void)
{
    IN(_Bool, forward); IN(_Bool, new); IN(_Bool, mode); IN(uint8_t, cl); IN(uint8_t, el); IN(uint8_t, slen); IN(uint8_t, sc); int i;
    gl_search_mode = mode ? 1 : 0; tries = 0; EMPTY[0] = 0;
#ifdef VH_PROOF
    long cap, e, x, l; char ec; int sp;
    ASSUME(0 < cap && cap < (1 << 28) && 0 < e && e < (1 << 28) && 0 <= x && x <= e && (x == e ? ec == 0 : ec != 0) && 0 <= l && l < cap && 0 <= sp && sp < SEARCH_LEN);
    CAP = cap; EL = e; E = x; EC = ec; SHOWN = 0; gl_cnt = l; search_pos = sp;
    ASSUME(gl_pos >= 0 && gl_pos <= gl_cnt);
    long big; ASSUME(big >= (1 << 28) && big < (1 << 29)); LINE = malloc(big); ENTRY = malloc(e + 1); ASSUME(LINE != NULL && ENTRY != NULL);
    ENTRY[e] = '\0'; ENTRY[x] = ec; ASSUME(ENTRY[0] != '\0'); LINE[l] = '\0';
#else
    CAP = 1 + cl % 6; EL = 1 + el % 12; LINE = malloc(CAP); ENTRY = malloc(EL + 1);
    memset(LINE, 'x', CAP); LINE[CAP - 1] = 0; gl_cnt = CAP - 1; gl_pos = 0;
    for (i = 0; i < EL; i++) ENTRY[i] = 'a' + i;
    ENTRY[EL] = 0; search_pos = slen % 2; search_string[0] = 'a' + sc % 14; search_string[search_pos] = 0; strcpy(search_prompt, search_pos ? "x? " : "? ");
    gl_termw = 30; gl_width = 27; gl_scrollw = 10; gl_extent = 0; fixup_gl_shift = fixup_off_left = fixup_off_right = 0; strcpy(fixup_last_prompt, search_prompt);
#endif
    if (forward) search_forw(H, new); else search_back(H, new);
    COVER("returns");
    CHECK(0 <= gl_pos && gl_pos <= gl_cnt && gl_cnt < CAP, "the cursor is in the line, the line in its buffer");
#ifdef VH_PROOF
    if (SHOWN == 1){ CHECK(LINE[0] == '\0', "nothing is found"); COVER("not found"); }
    else if (SHOWN == 2){ CHECK(LINE[EL] == '\0' && LINE[E] == EC, "the entry found"); COVER("found"); }
    else { CHECK(LINE[gl_cnt] == '\0', "the line is unchanged"); COVER("unchanged"); }
#else
    CHECK(memchr(LINE, 0, CAP) != NULL && gl_cnt == strlen(LINE), "the line ends in its buffer");
    CHECK(LINE[0] == '\0' || LINE[0] == 'x' || !strcmp(LINE, ENTRY), "nothing or the entry found");
#endif
    free(LINE); free(ENTRY);
}
/* the text searched for, and its prompt, stay terminated within their buffers */
void h_update(void)
{
    IN(int, c); IN(uint8_t, sp); IN(uint8_t, k); int i; char was;
    search_pos = sp % SEARCH_LEN;
    if (c > 0) c = 1 + c % 255;
    k = k % SEARCH_LEN;
    for (i = 0; i < SEARCH_LEN; i++){ search_string[i] = 'a' + i % 26; search_prompt[i] = 'a' + i % 26; }
    search_string[search_pos] = 0;
    was = search_string[k];
    search_update(H, c);
    COVER("returns");
    CHECK(0 <= search_pos && search_pos < SEARCH_LEN && search_string[search_pos] == 0, "the text searched for is terminated");
    CHECK(search_prompt[search_pos + (c == 0 || c > 0 ? 2 : 2)] == 0 || (c != 0 && search_pos == sp % SEARCH_LEN), "its prompt is terminated");
    CHECK(search_pos == (c == 0 ? 0 : c > 0 ? (sp % SEARCH_LEN + 1 < SEARCH_LEN ? sp % SEARCH_LEN + 1 : sp % SEARCH_LEN) : sp % SEARCH_LEN ? sp % SEARCH_LEN - 1 : 0), "one character is added or taken away");
    if (c != 0 && k < search_pos && k < sp % SEARCH_LEN) CHECK(search_string[k] == was, "the rest is kept");
    if (c > 0 && search_pos > sp % SEARCH_LEN) CHECK(search_string[search_pos - 1] == (char)c, "the character is added");
}
