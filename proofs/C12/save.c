/* C12: saving the history: every entry once, oldest first. Bounded: rings of at most 6 slots. */
#include "vh.h"
#include "cligen_config.h"
#include <ctype.h>
#define SLOTS 6
static const char *out[SLOTS + 1];
static int n_out; static _Bool odd;
static int s_fprintf(FILE *f, const char *fmt, const char *line)
{
    if (strcmp(fmt, "%s\n") != 0) odd = 1;
    if (n_out <= SLOTS) out[n_out++] = line;
    return 1;
}
#define fprintf s_fprintf
#include "cligen_history.c"
#undef fprintf
static struct cligen_handle H;
int gl_putc(int c){ return 0; }
static char linebuf[16];
char *cligen_buf(cligen_handle h){ return linebuf; }
int cligen_buf_size(cligen_handle h){ return 16; }
int cligen_buf_increase(cligen_handle h, size_t n){ return 0; }
static char text[SLOTS][4];
static char *ring[SLOTS];
static int S, N, L;
static int slot(int back){ int i = L - back; return i < 0 ? i + S : i; }
static void setup(void)
{
    int i;
    IN(uint8_t, s); IN(uint8_t, n); IN(uint8_t, l); IN(uint8_t, c);
    ASSUME(2 <= s && s <= SLOTS && n < s && l < s && c < s);
    S = s; N = n; L = l;
    for (i = 0; i < S; i++) ring[i] = NULL;
    for (i = 1; i <= N; i++){ text[i][0] = 'a' + i; text[i][1] = 'x'; text[i][2] = 0; ring[slot(i)] = text[i]; }
    ring[L] = "";
    H.ch_hist_size = S; H.ch_hist_buf = ring; H.ch_hist_last = L; H.ch_hist_cur = c;
    H.ch_hist_pre = N ? text[1] : NULL;
}
void h_save(void)
{
    int i;
    setup();
    n_out = 0; odd = 0;
    CHECK(cligen_hist_file_save(&H, stdout) == 0, "saved");
    CHECK(n_out == N && !odd, "every entry saved once, on a line of its own");
    for (i = 0; i < N; i++)
        CHECK(out[i] == text[N - i], "oldest entry first");
}
void h_copy(void)
{
    IN(uint8_t, at); IN(uint8_t, how);
    setup();
    memset(linebuf, '#', 15);
    ASSUME(at < N && how < 4);
    int want = at + 1, pos = at + 1;
    if (how == 1 && at >= 1){ want = at; }
    if (how == 2 && at + 1 < N){ want = at + 2; }
    hist_pos_set(&H, slot(pos));
    CHECK(hist_pos(&H) == slot(pos) && hist_last_get(&H) == L, "position");
    if (how == 1 && at >= 1) hist_copy_next(&H);
    else if (how == 2 && at + 1 < N) hist_copy_prev(&H);
    else if (how == 3) hist_copy(&H, text[want]);
    else hist_copy_pos(&H);
    CHECK(strcmp(linebuf, text[want]) == 0, "entry copied to the line");
    CHECK(hist_pos(&H) == slot(how == 3 ? pos : want), "position of the entry shown");
}
