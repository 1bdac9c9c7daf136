/* C20: paged output. One output call from any state of the pager: any text, width, height, answers. */
#include "cvh.h"
#include <sys/types.h>
#include <unistd.h>
#include <stdio.h>
/* at: characters shown; rows: terminal rows shown since the last prompt; asked; quit; col: column */
static struct st { long at; int rows, pad, quit, failed; long col; long nl; char *dst, *src; long n, q; } S;
static char *TEXT; static long N; static long WIDTH; static int ROWS, PAGING, SOCK; static FILE *F;
static _Bool direct; static int closed;
#define failed_write S.failed
static void out_text(FILE *f, const char *fmt, const char *s);
static int vh_fgetc(FILE *f);
static size_t vh_strlen(const char *s);
static char *vh_strstr(const char *s, const char *w);
static char *vh_memcpy(char *d, const char *s, size_t n);
static ssize_t vh_write(int s, const void *b, size_t n);
static int vh_vsnprintf(char *b, size_t n);
#define fprintf(f, fmt, ...) out_text(f, fmt, (const char*)(0, ##__VA_ARGS__))
#define fgetc(f) vh_fgetc(f)
#define fflush(f) 0
#define write(s, b, n) vh_write(s, b, n)
#define close(s) (closed++, 0)
#define perror(s) 0
#define vsnprintf(b, n, t, a) vh_vsnprintf(b, n)
#ifdef VH_PROOF
#define strlen(s) vh_strlen(s)
#define strstr(s, w) vh_strstr(s, w)
#define memcpy(d, s, n) vh_memcpy(d, s, n)
#endif
#include "cligen_io.c"
#undef fprintf
#undef strlen
#undef strstr
#undef memcpy
#undef write
#undef vsnprintf
void gl_char_init(void){ }
void gl_char_cleanup(void){ }
int cligen_terminal_rows(cligen_handle h){ return ROWS; }
int cligen_terminal_width(cligen_handle h){ return WIDTH; }
int cligen_paging_get(cligen_handle h){ return PAGING; }
#ifdef VH_PROOF
#define ANY(T, x) T x
#else
#define ANY(T, x) IN(T, x)
#endif
/* the terminal: what is shown, and where */
static void out_text(FILE *f, const char *fmt, const char *s)
{
    long n, i;
    if (fmt[0] != '%'){                         /* prompts and help */
        CHECK(!direct, "nothing but the text is shown");
        return;
    }
    CHECK(f == F, "the text goes to the file given");
    if (direct){                                /* no paging: all at once */
        CHECK(s == TEXT && S.at == 0, "the whole text is shown, once");
        S.at = N;
        return;
    }
    CHECK(!S.quit, "nothing is shown after quit");
#ifdef VH_PROOF
    CHECK(s == S.dst, "model of the line buffer: shown after being filled");
    n = S.n;
    CHECK(n > 0 && n <= N - S.at, "no more than the text is shown");
    CHECK(S.src == TEXT + S.at, "the text is shown in order, nothing skipped");
    CHECK(s[n] == '\0' && s[S.q] == S.src[S.q], "the text is shown unchanged");
    CHECK(S.nl < 0 || n <= S.nl - S.at + 1, "nothing follows a newline on its row");
    _Bool nl = S.nl >= 0 && S.nl == S.at + n - 1;
#else
    n = strlen(s);
    CHECK(n <= N - S.at, "no more than the text is shown");
    for (i = 0; i < n; i++) CHECK(s[i] == TEXT[S.at + i], "the text is shown in order and unchanged");
    for (i = 0; i + 1 < n; i++) CHECK(s[i] != '\n', "nothing follows a newline on its row");
    _Bool nl = n > 0 && s[n-1] == '\n';
#endif
    CHECK(n <= WIDTH - S.col, "no wider than the terminal");
    CHECK(S.rows == 0 || S.rows < ROWS - 1, "no more than a screenful between prompts");
    S.at += n;
    if (nl || S.col + n == WIDTH){ S.col = 0; S.rows++; }
    else S.col += n;
}
static int vh_fgetc(FILE *f)
{
    ANY(int, c);
    S.rows = 0;
    if (c == 'q' || c == 3) S.quit = 1;
    return c;
}
static int vh_vsnprintf(char *b, size_t n)
{
    if (b == NULL) return N;
    CHECK(n == (size_t)N + 1, "room for the text");
#ifdef VH_PROOF
    b[N] = '\0';
#else
    memcpy(b, TEXT, N + 1);
#endif
    TEXT = b;
    return N;
}
static ssize_t vh_write(int s, const void *b, size_t n)
{
    ANY(long, r);
#ifndef VH_PROOF
    r = r < 0 ? -1 : 1 + r % (long)n;
#endif
    CHECK(s == SOCK, "the text goes to the pipe");
    CHECK((char*)b == TEXT + S.at && n > 0 && n == (size_t)(N - S.at), "the text is written in order, nothing skipped");
    ASSUME(r == -1 || (0 < r && (size_t)r <= n));
    if (r < 0) failed_write = 1; else S.at += r;
    return r;
}
#ifdef VH_PROOF
static size_t vh_strlen(const char *s){ CHECK(s == TEXT, "model of strlen: of the text"); return N; }
static char *vh_strstr(const char *s, const char *w)
{
    long r;
    CHECK(s == TEXT + S.at && w[0] == '\n' && w[1] == '\0', "model of strstr: newline in the rest of the text");
    ASSUME(r == -1 || (S.at <= r && r < N && TEXT[r] == '\n'));
    S.nl = r;
    return r < 0 ? NULL : TEXT + r;
}
static char *vh_memcpy(char *d, const char *s, size_t n)
{
    long q;
    CHECK(__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n), "inside the text and the line buffer");
    S.dst = d; S.src = (char*)s; S.n = n;
    ASSUME(0 <= q && (size_t)q < n);
    S.q = q;
    d[q] = s[q];
    return d;
}
int scroll_contract(FILE *f, char *b, ssize_t linelen, int rows)
{
    _Bool bad;
    CHECK(PAGING && ROWS && f == stdout && f == F, "paging only when asked for, on the terminal");
    CHECK(b == TEXT && linelen == (WIDTH > 0 ? WIDTH : N) && rows == ROWS && S.at == 0, "the whole text is paged, once");
    if (bad) failed_write = 1; else S.at = N;
    return bad ? -1 : 0;
}
#endif
/* state of the pager after any earlier output */
static void pager(void)
{
    IN(int, rows); IN(int, d); IN(int, cols); IN(long, width); IN(int, trows);
    memset(&S, 0, sizeof(S)); closed = 0; cligen_ghost_state = &S;
    SOCK = PIPE_OUTPUT_SOCKET;
    ASSUME(0 < width && width < (1 << 16)); ASSUME(-1 <= d && d < (1 << 20)); ASSUME(0 <= cols && cols < (1 << 16));
    ASSUME(0 < trows && trows < (1 << 16));
    ASSUME(0 <= rows && (d < 0 || rows <= d) && (rows == 0 || rows < trows - 1));
    D_LINES = d; D_COLUMNS = cols; WIDTH = width; ROWS = trows; cligen_ghost_k = d < 0 ? 0 : d;
    S.quit = d < 0; S.rows = rows; S.col = cols < width ? cols : 0;
}
void h_scroll(void)
{
    int r; long n, w;
    IN(_Bool, nowidth); IN(int, i);
#ifdef VH_PROOF
    ASSUME(0 <= n && n < (1 << 20));
    TEXT = malloc(n + 1);
    ASSUME(TEXT != NULL);
    TEXT[n] = '\0';
#else
#ifdef VH_NATIVE
    static char t[64];
#else
    static char t[6];
#endif
    IN(uint8_t, nn); n = nn % sizeof(t);
    for (i = 0; i < n; i++){ IN(char, c); t[i] = c % 5 == 0 ? '\n' : c == 0 ? 'x' : c; }
    t[n] = '\0'; TEXT = t;
#endif
    N = n; cligen_ghost_n = n; F = stdout; direct = 0;
    pager();
    if (nowidth){ WIDTH = n; S.col = D_COLUMNS < n ? D_COLUMNS : 0; }
#ifndef VH_PROOF
    else { WIDTH = 1 + WIDTH % 12; S.col = D_COLUMNS < WIDTH ? D_COLUMNS : 0; }
    ROWS = 1 + ROWS % 6; if (!(S.rows == 0 || S.rows < ROWS - 1)) S.rows = 0;
#endif
    w = WIDTH;
    _Bool q = S.quit;
    r = cligen_output_scroll(F, TEXT, w, ROWS);
    COVER("returns");
    CHECK(r == 0 || r == -1, "documented return values");
    if (r < 0){ CHECK(S.at == 0, "nothing shown on failure"); return; }
    if (n > 0){
        COVER("text");
        CHECK(S.quit || S.at == N, "the whole text is shown unless the user quits");
        CHECK((D_LINES < 0) == S.quit, "quit state kept for the next output");
        CHECK(S.quit || S.rows <= D_LINES, "rows shown are kept for the next output");
        CHECK(S.quit || S.rows == 0 || S.rows < ROWS - 1, "a full screen is followed by a prompt");
        CHECK(S.quit || D_COLUMNS == S.col, "column kept for the next output");
    }
    if (q) CHECK(S.at == 0, "nothing is shown after quit");
    cli_output_reset();
    CHECK(cli_output_status() == 0 && D_COLUMNS == 0, "reset starts afresh");
}
#ifndef SCROLL
void h_output(void)
{
    int r; long n;
    IN(_Bool, paging); IN(_Bool, piped); IN(_Bool, other); IN(_Bool, basic); IN(_Bool, norows); IN(int, w0); IN(int, sock);
#ifdef VH_PROOF
    ASSUME(0 <= n && n < (1 << 20));
#else
    static char t[8]; int i;
    IN(uint8_t, nn); n = nn % sizeof(t);
    for (i = 0; i < n; i++){ IN(char, c); t[i] = c % 5 == 0 ? '\n' : c == 0 ? 'x' : c; }
    t[n] = '\0'; TEXT = t;
#endif
    N = n; cligen_ghost_n = n; failed_write = 0;
    pager();
    ASSUME(sock >= 0);
    cli_pipe_output_socket_set(piped ? sock : -1);
    SOCK = -2;
    cli_pipe_output_socket_get(&SOCK);
    CHECK(SOCK == (piped ? sock : -1), "pipe as set");
    PAGING = paging; F = other ? stderr : stdout; if (norows) ROWS = 0;
#ifdef VH_PROOF
    WIDTH = w0;
#else
    WIDTH = w0 & 1 ? 0 : 1 + (w0 & 7); D_COLUMNS = 0; S.col = 0; D_LINES = 0; S.quit = 0; S.rows = 0; if (ROWS) ROWS = 1 + ROWS % 6;
    if (WIDTH == 0) WIDTH = N + 1;
#endif
    direct = !(PAGING && ROWS && F == stdout);
    if (basic){
#ifdef VH_PROOF
        TEXT = malloc(n + 1);
        ASSUME(TEXT != NULL);
#endif
        r = cligen_output_basic(F, TEXT, n);
    }
    else
        r = cligen_output(F, "%s", "text");
    COVER("returns");
    CHECK(r == 0 || r == -1, "documented return values");
    if (r == 0 && !S.quit) CHECK(S.at == N && !failed_write, "the whole text is delivered");
    if (failed_write) CHECK(r == -1, "failure is reported");
    if (failed_write && piped && !basic) CHECK(PIPE_OUTPUT_SOCKET == -1 && closed == 1, "a broken pipe is closed, once");
    if (r == 0 && piped && !basic) COVER("pipe");
}
#endif
