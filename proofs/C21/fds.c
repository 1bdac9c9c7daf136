/* C21: registered descriptors and exit characters.
 * Table of descriptors: one operation from the table left by any sequence of K registrations and
 * removals. Exit characters: every sequence of additions up to over the size of the table. */
#include "cvh.h"
#include "vhalloc.h"
#include <stddef.h>
#include <sys/select.h>
#include <sys/ioctl.h>
#include <termios.h>
#include <signal.h>
#ifdef VH_NATIVE
#define K 12
#else
#define K 3
/* blocks of one size, so that addresses stay simple; the size asked for is checked below */
static size_t asked_size;
static void *s_realloc(void *q, size_t n)
{
    IN(_Bool, nomem);
    if (nomem) return NULL;
    char *p = (malloc)(4 * 24);
    ASSUME(p != NULL && n <= 4 * 24);
    asked_size = n;
    if (q){ memcpy(p, q, 4 * 24); (free)(q); } else vh_live++;
    return p;
}
#undef realloc
#define realloc s_realloc
#endif
#define FDS 4
/* the descriptors in play: two ordinary ones and both ends of what can be watched */
static const int FD[FDS] = {1, 3, 7, FD_SETSIZE - 1};
static unsigned ready; static int rounds; static _Bool sel_fail; static unsigned asked;
/* sets of descriptors as sets of numbers of descriptors in play, and standard input */
static unsigned set; static _Bool odd;
static unsigned bit(int fd)
{
    int i;
    CHECK(fd >= 0 && fd < FD_SETSIZE, "descriptor fits in the set");
    if (fd == 0) return 1u << FDS;
    for (i = 0; i < FDS; i++) if (FD[i] == fd) return 1u << i;
    odd = 1;
    return 0;
}
static int s_select(int n)
{
    CHECK(n > FD_SETSIZE - 1, "every descriptor looked at");
    CHECK(set & (1u << FDS), "standard input watched");
    asked = set & 15;
    IN(uint8_t, answer);
    if (sel_fail) return -1;
    set &= answer;
    ready |= set & 15;
    if (++rounds >= 2) set |= 1u << FDS;
    ASSUME(set != 0);
    return 1;
}
#undef FD_ZERO
#undef FD_SET
#undef FD_CLR
#undef FD_ISSET
#define FD_ZERO(s) (set = 0)
#define FD_SET(fd, s) (set |= bit(fd))
#define FD_CLR(fd, s) (set &= ~bit(fd))
#define FD_ISSET(fd, s) ((set & bit(fd)) != 0)
#define select(n, r, w, e, t) s_select(n)
#include "cligen_getline.c"
#undef select
#include "stubs.h"
/* what should be registered */
static struct { _Bool on; int cb; void *arg; } reg[FDS];
static int calls[FDS]; static unsigned fails;
static int called(int which, int fd, void *arg)
{
    int i;
    for (i = 0; i < FDS; i++) if (FD[i] == fd) break;
    CHECK(i < FDS && reg[i].on, "callback of a registered descriptor only");
    if (i >= FDS) return -1;
    CHECK(reg[i].cb == which && reg[i].arg == arg, "callback and argument as registered");
    CHECK(ready & (1u << i), "callback only when there is input");
    calls[i]++;
    return fails & (1u << i) ? -1 : 0;
}
static int cb0(int fd, void *arg){ return called(0, fd, arg); }
static int cb1(int fd, void *arg){ return called(1, fd, arg); }
static void op(void)
{
    IN(uint8_t, o); IN(uint64_t, arg); int r;
    int i = o & 3;
    if (o & 4){
        _Bool which = (o & 8) != 0;
        long live = vh_live;
        r = gl_regfd(FD[i], which ? cb1 : cb0, (void*)arg);
        CHECK(r == 0 || (r == -1 && !reg[i].on && vh_live == live), "refused only when out of memory");
        if (r == 0){ reg[i].on = 1; reg[i].cb = which; reg[i].arg = (void*)arg; }
    }
    else {
        r = gl_unregfd(FD[i]);
        CHECK(r == (reg[i].on ? 0 : -1), "removed when registered");
        if (r == 0) reg[i].on = 0;
    }
}
void h_fds(void)
{
    int i, r; unsigned want = 0;
    vh_live = 0; vh_reliable = 0;
#ifndef VH_NATIVE
    asked_size = 0;
#endif
    memset(reg, 0, sizeof(reg));
#ifdef VH_NATIVE
    free(extfds); extfds = NULL; nextfds = 0; vh_live = 0;
#endif
    for (i = 0; i < K; i++) op();
#ifndef VH_NATIVE
    CHECK(nextfds >= 0 && nextfds * sizeof(*extfds) <= asked_size, "table fits its memory");
#endif
    {
        IN(int, bad);
        if (bad < 0 || bad >= FD_SETSIZE)
            CHECK(gl_regfd(bad, cb0, NULL) < 0, "descriptor that cannot be watched refused");
    }
    memset(calls, 0, sizeof(calls));
    IN(_Bool, selfail); IN(uint8_t, f);
    sel_fail = selfail; fails = f; rounds = 1; ready = 0; odd = 0;
    r = gl_select();
    for (i = 0; i < FDS; i++) if (reg[i].on) want |= 1u << i;
    CHECK(asked == want && !odd, "exactly the registered descriptors watched");
    CHECK(r == 0 || r == -1, "documented return values");
    CHECK((r < 0) == (sel_fail || (ready & fails & 15)), "failure of a callback or of the wait reported");
    for (i = 0; i < FDS; i++){
        CHECK(calls[i] <= 1, "callback called once at most");
        if (r == 0) CHECK(calls[i] == ((ready >> i) & 1), "callback called when there is input");
    }
}
void h_exitchars(void)
{
    char in[12]; int i, n;
    IN(uint8_t, n0); IN(char, q);
    n = n0 % 13;
#ifdef VH_NATIVE
    memset(exitchars, 0, sizeof(exitchars));
#endif
    _Bool hit = 0; int held = 0;
    for (i = 0; i < 12; i++){
        IN(char, c);
        in[i] = c;
        if (i < n){
            ASSUME(c != 0);
            gl_exitchar_add(c);
            if (held < 8){ held++; if (c == q) hit = 1; }
        }
    }
    COVER("asked");
    CHECK(gl_exitchar(q) == hit, "ends the input exactly when added, while there is room");
}
