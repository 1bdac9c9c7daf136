/* C21: one operation on a table of descriptors of any size. All entries are alike except two
 * arbitrary ones: number k, and number m (the witness that others are left alone).
 * The other readings search through fds.c. */
#ifndef VH_PROOF
#include "fds.c"
void h_reg(void){ h_fds(); }
void h_unreg(void){ h_fds(); }
void h_select(void){ h_fds(); }
#else
#include "cvh.h"
#include <stddef.h>
#include <sys/select.h>
#include <sys/ioctl.h>
#include <termios.h>
#include <signal.h>
static struct { long at; int set, calls; } C;  /* entry k watched; called */
static int fdk; static _Bool ready0;
static void bit_set(int fd)
{
    CHECK(fd >= 0 && fd < FD_SETSIZE, "descriptor fits in the set");
    if (fd == fdk) C.set = 1;
}
static _Bool bit_get(int fd)
{
    _Bool r;
    if (fd == 0) return 1;
    if (fd == fdk) return cligen_ghost_holds;
    return r;
}
static int s_select(int n)
{
    CHECK(n > FD_SETSIZE - 1, "every descriptor looked at");
    CHECK(C.set == 1, "registered descriptor watched");
    _Bool fail;
    return fail ? -1 : 1;
}
static void *s_realloc(void *q, size_t n);
static void *s_memmove(void *d, const void *s, size_t n);
static void *s_memcpy(void *d, const void *s, size_t n)
{
    CHECK((char*)d + n <= (char*)s || (char*)s + n <= (char*)d, "regions of memcpy do not overlap");
    return s_memmove(d, s, n);
}
#undef FD_ZERO
#undef FD_SET
#undef FD_CLR
#undef FD_ISSET
#define FD_ZERO(s) ((void)0)
#define FD_SET(fd, s) bit_set(fd)
#define FD_ISSET(fd, s) bit_get(fd)
#define select(n, r, w, e, t) s_select(n)
#define realloc s_realloc
#define memmove s_memmove
#define memcpy s_memcpy
#include "cligen_getline.c"
#undef select
#undef realloc
#undef memmove
#undef memcpy
#include "stubs.h"
static int N, Kx, Mx; static struct regfd vk, vm, vo;
static int cbo(int fd, void *arg){ int r; return r; }
static int cbk(int fd, void *arg)
{
    int r;
    CHECK(fd == fdk && arg == vk.arg, "callback gets its descriptor and argument");
    CHECK(cligen_ghost_holds, "callback only when there is input");
    C.calls++;
    return r;
}
/* assumed contract of realloc: same contents in a new block, all that fits */
static void *s_realloc(void *q, size_t n)
{
    _Bool nomem; size_t m; struct regfd *p;
    if (nomem) return NULL;
    CHECK(q == extfds, "model of realloc: the table");
    ASSUME(n == m * sizeof(struct regfd));
    p = malloc(m * sizeof(struct regfd));
    ASSUME(p != NULL);
    if (Kx < N && Kx < m) p[Kx] = vk;
    if (Mx < N && Mx < m) p[Mx] = vm;
    free(q);
    return p;
}
/* assumed contract of memmove: what is behind entry k moves one step down */
static void *s_memmove(void *d, const void *s, size_t n)
{
    CHECK(d == (void*)&extfds[Kx] && s == (void*)&extfds[Kx+1], "model of memmove: from the next entry to the removed one");
    CHECK(n == (size_t)(N - 1 - Kx) * sizeof(struct regfd), "exactly the entries behind it are moved");
    __CPROVER_havoc_object(extfds);
    if (Mx < Kx) extfds[Mx] = vm; else extfds[Mx - 1] = vm;
    return d;
}
static _Bool same(struct regfd *a, struct regfd *b){ return a->fd == b->fd && a->cb == b->cb && a->arg == b->arg; }
static void table(int k)
{
    IN(int, n); IN(int, m); IN(int, fo); IN(int, fm); IN(int, fk);
    ASSUME(1 <= n && n <= FD_SETSIZE && 0 <= k && k < n && 0 <= m && m < n && m != k);
    ASSUME(fo != fm && fo != fk && fm != fk && fo > 0 && fm > 0 && fk > 0 && fo < FD_SETSIZE && fm < FD_SETSIZE && fk < FD_SETSIZE);
    N = n; Kx = k; Mx = m; fdk = fk;
    vo.fd = fo; vo.cb = cbo; vo.arg = NULL;
    vm.fd = fm; vm.cb = cbo; IN_TO(void*, vm.arg);
    vk.fd = fk; vk.cb = cbk; IN_TO(void*, vk.arg);
    nextfds = n;
    extfds = malloc(n * sizeof(struct regfd));
    ASSUME(extfds != NULL);
    __CPROVER_array_set(extfds, vo);
    extfds[k] = vk; extfds[m] = vm;
    C.at = 0; C.set = C.calls = 0;
    cligen_ghost_state = &C;
    cligen_ghost_k = k;
    cligen_ghost_holds = 1;
}
void h_reg(void)
{
    IN(int, k); IN(_Bool, there); IN(void*, arg); IN(int, fd); int r;
    table(k);
    cligen_ghost_holds = there;
    ASSUME(there ? fd == fdk : (fd != fdk && fd != vm.fd && fd != vo.fd));
    r = gl_regfd(fd, cbo, arg);
    COVER("returns");
    CHECK(extfds != NULL && same(&extfds[Mx], &vm), "other entry untouched");
    if (there){
        CHECK(r == 0 && nextfds == N, "registered again: same number of entries");
        CHECK(extfds[k].fd == fdk && extfds[k].cb == cbo && extfds[k].arg == arg, "callback and argument as last registered");
    }
    else {
        CHECK(same(&extfds[k], &vk), "other entry untouched (k)");
        if (fd < 0 || fd >= FD_SETSIZE) CHECK(r == -1, "descriptor that cannot be watched refused");
        if (r < 0) CHECK(nextfds == N, "nothing registered when refused");
        else {
            COVER("registered");
            CHECK(r == 0 && nextfds == N + 1, "one entry more");
            CHECK(extfds[N].fd == fd && extfds[N].cb == cbo && extfds[N].arg == arg, "descriptor, callback and argument as registered");
        }
    }
}
void h_unreg(void)
{
    IN(int, k); IN(_Bool, there); IN(int, fd); int r;
    table(k);
    cligen_ghost_holds = there;
    ASSUME(there ? fd == fdk : (fd != fdk && fd != vm.fd && fd != vo.fd));
    r = gl_unregfd(fd);
    COVER("returns");
    if (there){
        CHECK(r == 0 && nextfds == N - 1, "one entry less");
        CHECK(same(&extfds[Mx < k ? Mx : Mx - 1], &vm), "other entry kept");
    }
    else {
        CHECK(r == -1 && nextfds == N, "not registered: nothing removed");
        CHECK(same(&extfds[k], &vk) && same(&extfds[Mx], &vm), "entries untouched");
    }
}
void h_select(void)
{
    IN(int, k); IN(_Bool, ready); int r;
    table(k);
    cligen_ghost_holds = ready;
    r = gl_select();
    COVER("returns");
    CHECK(r == 0 || r == -1, "documented return values");
    if (r == 0) CHECK(C.calls == (ready ? 1 : 0), "callback called exactly once when there is input");
    CHECK(C.calls <= 1, "callback called once at most");
    CHECK(nextfds == N && same(&extfds[Mx], &vm) && same(&extfds[k], &vk), "registrations kept");
}
#endif
