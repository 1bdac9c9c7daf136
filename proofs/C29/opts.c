/* C29: options of a handle. From the state left by arbitrary settings of every option on two
 * handles, setting one option changes what reads back for that option of that handle, and for
 * nothing else. No loops, no bounds: complete. */
#define VH_TEXT_ID
#include "cvh.h"
#include "vhalloc.h"
#include <stddef.h>
#include <sys/select.h>
#include <sys/ioctl.h>
#include <termios.h>
#include <signal.h>
static _Bool tty; static unsigned short kernel_rows; static _Bool ioctl_ok;
static int s_isatty(int fd){ return tty; }
static int s_ioctl(int fd, unsigned long req, struct winsize *ws)
{
    if (!ioctl_ok) return -1;
    memset(ws, 0, sizeof(*ws));
    ws->ws_row = kernel_rows;
    return 0;
}
#define isatty s_isatty
#define ioctl s_ioctl
#define perror(x) ((void)0)
#define fprintf(...) ((void)0)
#ifndef VH_NATIVE
#define strerror(x) "err"
#endif
#include "cligen_getline.c"
#include "cligen_handle.c"
#undef fprintf
int hist_exit(cligen_handle h){ return 0; }
int cligen_hist_init(cligen_handle h, int n){ return 0; }
int cligen_ph_free(pt_head *ph){ return 0; }
void cliread_init(cligen_handle h){ }
int cligen_interrupt_hook(cligen_handle h, cligen_interrupt_cb_t *fn){ return 0; }
#ifdef VH_NATIVE
char *hist_prev(cligen_handle h){ return ""; }
char *hist_next(cligen_handle h){ return ""; }
int hist_pos(cligen_handle h){ return 0; }
int hist_pos_set(cligen_handle h, int p){ return 0; }
int hist_last_get(cligen_handle h){ return 0; }
int hist_copy(cligen_handle h, char *p){ return 0; }
int hist_copy_prev(cligen_handle h){ return 0; }
int hist_copy_next(cligen_handle h){ return 0; }
int hist_copy_pos(cligen_handle h){ return 0; }
int hist_add(cligen_handle h, char *p){ return 0; }
#endif

/* number, type of value, get, set, what a set value reads back as; options of one handle */
#define OWN(X) \
 X(0,  int,   cligen_exiting, cligen_exiting_set, (char)v) \
 X(1,  char,  cligen_comment, cligen_comment_set, v) \
 X(2,  int,   cligen_tabmode, cligen_tabmode_set, v) \
 X(3,  int,   cligen_logsyntax, cligen_logsyntax_set, v) \
 X(4,  void*, cligen_userhandle, cligen_userhandle_set, v) \
 X(5,  void*, cligen_userdata, cligen_userdata_set, v) \
 X(6,  int,   cligen_regex_xsd, cligen_regex_xsd_set, v) \
 X(7,  char,  cligen_delimiter, cligen_delimiter_set, v) \
 X(8,  int,   cligen_preference_mode, cligen_preference_mode_set, v) \
 X(9,  int,   cligen_caseignore_get, cligen_caseignore_set, v) \
 X(10, int,   cligen_expand_first_get, cligen_expand_first_set, v) \
 X(11, int,   cligen_exclude_keys_get, cligen_exclude_keys_set, v) \
 X(12, void*, cligen_co_match, cligen_co_match_set, v) \
 X(13, void*, cligen_callback_arguments_get, cligen_callback_arguments_set, v) \
 X(14, void*, cligen_pt_head_get, cligen_pt_head_set, v) \
 X(15, void*, cligen_pt_head_active_get, cligen_pt_head_active_set, v)
/* options shared by all handles */
#define SHARED(X) \
 X(16, int,   cligen_paging_get, cligen_paging_set, v) \
 X(17, int,   cligen_utf8_get, cligen_utf8_set, v) \
 X(18, int,   cligen_line_scrolling, cligen_line_scrolling_set, v) \
 X(19, int,   cligen_helpstring_truncate, cligen_helpstring_truncate_set, v) \
 X(20, int,   cligen_helpstring_lines, cligen_helpstring_lines_set, v) \
 X(21, int,   cligen_lexicalorder, cligen_lexicalorder_set, v) \
 X(22, int,   cligen_ignorecase, cligen_ignorecase_set, v) \
 X(23, int,   cligen_terminal_width, cligen_terminal_width_set, v == 0 || v == 0xffff ? 80 : v < TERM_MIN_SCREEN_WIDTH ? TERM_MIN_SCREEN_WIDTH : v) \
 X(24, int,   cligen_terminal_rows, cligen_terminal_rows_set, v)
#define NOPT 25
/* options of two values */
#define PAIRS(X) \
 X(25, cligen_hist_fn, cligen_hist_fn_get, cligen_hist_fn_set) \
 X(26, cligen_eval_wrap_fn, cligen_eval_wrap_fn_get, cligen_eval_wrap_fn_set) \
 X(27, cligen_tree_resolve_wrapper_fn, cligen_tree_resolve_wrapper_get, cligen_tree_resolve_wrapper_set)
#define TEXTS(X) \
 X(28, cligen_prompt, cligen_prompt_set, NULL) \
 X(29, cligen_treename_keyword, cligen_treename_keyword_set, TREENAME_KEYWORD_DEFAULT) \
 X(30, cligen_fn_str_get, cligen_fn_str_set, NULL)

static struct cligen_handle HA, HB;
struct snap { uint64_t v[NOPT]; void *fn[3], *arg[3]; char *text[3]; char c[3]; _Bool own[3]; char *buf, *kill; int bufsz, killsz; };
static void take(struct snap *s, cligen_handle h)
{
    memset(s, 0, sizeof(*s));
#define X(n, T, get, set, rd) s->v[n] = (uint64_t)get(h);
    OWN(X) SHARED(X)
#undef X
#define X(n, T, get, set) get(h, (T**)&s->fn[n-25], &s->arg[n-25]);
    PAIRS(X)
#undef X
#define X(n, get, set, dflt) s->text[n-28] = get(h); s->c[n-28] = s->text[n-28] ? s->text[n-28][0] : 0; s->own[n-28] = s->text[n-28] != NULL && s->text[n-28][1] == '\0';
    TEXTS(X)
#undef X
    s->buf = cligen_buf(h); s->kill = cligen_killbuf(h);
    s->bufsz = cligen_buf_size(h); s->killsz = cligen_killbuf_size(h);
}
static _Bool shared(int i){ return i >= 16; }
/* the same but for option but (own: also own options may differ by that) */
static _Bool equal(struct snap *a, struct snap *b, int but)
{
    _Bool ok = 1; 
#define X(n, T, get, set, rd) if (n != but) ok = ok && a->v[n] == b->v[n];
    OWN(X) SHARED(X)
#undef X
#define X(n, T, get, set) if (n != but) ok = ok && a->fn[n-25] == b->fn[n-25] && a->arg[n-25] == b->arg[n-25];
    PAIRS(X)
#undef X
#define X(n, get, set, d) if (n != but) ok = ok && a->text[n-28] == b->text[n-28] && a->c[n-28] == b->c[n-28];
    TEXTS(X)
#undef X
    return ok && a->buf == b->buf && a->kill == b->kill && a->bufsz == b->bufsz && a->killsz == b->killsz;
}
static char *option_text(char *mem)
{
    IN(_Bool, none); IN(uint8_t, c);
    mem[0] = 'a' + c % 26; mem[1] = '\0';
    return none ? NULL : mem;
}
static void any(cligen_handle h)
{
    vh_reliable = 1;
#define X(n, T, get, set, rd) { IN(uint64_t, v); CHECK(n == 18 || set(h, (T)v) == 0, "set"); if (n == 18) set(h, (T)v); }
    OWN(X) SHARED(X)
#undef X
#define X(n, T, get, set) { IN(uint64_t, f); IN(uint64_t, g); CHECK(set(h, (T*)f, (void*)g) == 0, "set"); }
    PAIRS(X)
#undef X
#define X(n, get, set, d) { char mem[2]; CHECK(set(h, option_text(mem)) == 0, "set"); }
    TEXTS(X)
#undef X
    vh_reliable = 0;
}
void h_options(void)
{
    struct snap a0, b0, a1, b1; int r = 0, k;
    long own;
    IN_TO(_Bool, tty); IN_TO(unsigned short, kernel_rows); IN(uint8_t, opt);
    ioctl_ok = 1;
    vh_live = 0; vh_reliable = 1;
    memset(&HA, 0, sizeof(HA)); memset(&HB, 0, sizeof(HB));
    CHECK(cligen_buf_init(&HA) == 0 && cligen_buf_init(&HB) == 0, "buffers");
    any(&HB);
    any(&HA);
    take(&a0, &HA); take(&b0, &HB);
    own = vh_live;
    k = opt % 31;
    vh_reliable = 0;
    IN(uint64_t, val); IN(uint64_t, val2);
#define X(n, T, get, set, rd) if (k == n){ T v = (T)val; r = set(&HA, v); take(&a1, &HA); \
        if (n == 24) CHECK(a1.v[n] == (uint64_t)(int)(!tty || !val ? 0 : kernel_rows ? a0.v[n] : (uint64_t)(T)val) || (int)val == 0, "terminal rows"); \
        else CHECK(a1.v[n] == (uint64_t)(T)(rd), "option reads back as set"); \
        CHECK(n == 18 ? r == (int)a0.v[n] : r == 0, "set"); r = 0; }
    OWN(X) SHARED(X)
#undef X
#define X(n, T, get, set) if (k == n){ r = set(&HA, (T*)val, (void*)val2); take(&a1, &HA); \
        CHECK(r == 0 && a1.fn[n-25] == (void*)val && a1.arg[n-25] == (void*)val2, "function and argument read back as set"); \
        get(&HA, NULL, NULL); }
    PAIRS(X)
#undef X
#define X(n, get, set, dflt) if (k == n){ char mem[2], *t = option_text(mem), c = mem[0], *d = dflt; r = set(&HA, t); \
        CHECK(r == 0 || r == -1, "documented return values"); \
        mem[0] = '!'; take(&a1, &HA); \
        if (r == 0){ \
            CHECK(t || (a1.text[n-28] == NULL) == (d == NULL), "no text: nothing or the default"); \
            CHECK(!t || (a1.text[n-28] != NULL && a1.text[n-28] != mem && a1.c[n-28] == c), "own copy of the text"); \
        } \
        CHECK(vh_live - own == a1.own[n-28] - a0.own[n-28], "old text released"); }
    TEXTS(X)
#undef X
    COVER("set");
    take(&b1, &HB);
    CHECK(equal(&a0, &a1, k), "no other option changed");
    CHECK(equal(&b0, &b1, shared(k) && k < NOPT ? k : -1), "no option of another handle changed");
    if (k < NOPT && shared(k)) CHECK(b1.v[k] == a1.v[k], "shared option reads the same from every handle");
    cligen_buf_cleanup(&HB);
    CHECK(cligen_buf(&HA) == a0.buf, "buffers of its own");
    cligen_buf_cleanup(&HA);
    cligen_prompt_set(&HA, NULL); cligen_treename_keyword_set(&HA, NULL); cligen_fn_str_set(&HA, NULL);
    cligen_prompt_set(&HB, NULL); cligen_treename_keyword_set(&HB, NULL); cligen_fn_str_set(&HB, NULL);
    CHECK(vh_live == 0, "everything released");
}
void h_life(void)
{
    cligen_handle h;
    vh_live = 0; vh_reliable = 1; tty = 0;
    struct snap s;
    h = cligen_init();
    CHECK(h != NULL && cligen_check(h) == 0, "handle made");
    take(&s, h);
    CHECK(s.v[7] == ' ' && s.own[0] && s.buf != NULL && s.kill != NULL && s.buf != s.kill, "fresh handle");
#define X(n, T, get, set, rd) CHECK(n == 7 || s.v[n] == 0, "fresh handle: options off");
    OWN(X)
#undef X
    any(h);
    cligen_pt_head_set(h, NULL);
    COVER("made");
    CHECK(cligen_exit(h) == 0 && vh_live == 0, "everything released");
}
