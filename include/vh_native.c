/* Native side of vh.h: replay one recorded input, or search with random ones. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <setjmp.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>

#define NLOG 4096
struct vh_log { uint64_t n; struct { char name[40]; uint64_t v; } e[NLOG]; };
static struct vh_log *lg;
static jmp_buf jb;
static int replay;
static uint64_t rv[NLOG];
static char rn[NLOG][40];
static int nr, ir;
static uint64_t st;
extern void VH_ENTRY(void);
static int fd_err = 2;

static uint64_t rnd(void){ st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st; }

void vh_skip(void)
{
    if (replay){ dprintf(fd_err, "VH: input does not satisfy the precondition\n"); _exit(77); }
    longjmp(jb, 1);
}
void vh_fail(const char *l)
{
    dprintf(fd_err, "VH: CHECK FAILED: %s\n", l);
    _exit(66);
}
static int profile;
uint64_t vh_next(const char *name, int sz)
{
    uint64_t v;
    if (replay){
        v = ir < nr ? rv[ir] : 0;
        ir++;
    }
    else {
        static const char al[] = " \t\"'\\?0123456789abAB.,-+:/|;#{}()[]x\n";
        uint64_t r = rnd();
        if (sz == 1){
            switch ((r >> 8) % 5){
            case 0: v = r >> 32; break;
            case 1: v = 'a' + (r >> 32) % 3; break;
            case 2: v = '0' + (r >> 32) % 10; break;
            default: v = al[(r >> 32) % (sizeof(al)-1)]; break;
            }
        }
        else switch ((r >> 8) % 8){
            case 0: case 1: case 2: v = (r >> 32) % 8; break;
            case 3: v = (uint64_t)((int64_t)((r >> 32) % 16) - 8); break;
            case 4: { int b = (r >> 32) % (sz*8); v = ((uint64_t)1 << b) + (uint64_t)((int64_t)((r >> 40) % 3) - 1); break; }
            case 5: { int b = (r >> 32) % (sz*8); v = -(((uint64_t)1 << b) + (uint64_t)((int64_t)((r >> 40) % 3) - 1)); break; }
            case 6: v = (r >> 32) % 300; break;
            default: v = rnd(); break;
            }
    }
    if (sz < 8) v &= (((uint64_t)1) << (sz*8)) - 1;
    if (lg && lg->n < NLOG){
        strncpy(lg->e[lg->n].name, name, 39);
        lg->e[lg->n].v = v;
        lg->n++;
    }
    return v;
}
static void onalarm(int s){ (void)s; static const char m[] = "VH: HANG (no result within the time limit)\n"; if (write(fd_err, m, sizeof(m)-1)){}; _exit(67); }

int main(int argc, char **argv)
{
    char *f = getenv("VH_REPLAY"), *l = getenv("VH_LOG"), *s = getenv("VH_SECS"), *sd = getenv("VH_SEED"), *ni = getenv("VH_ITERS");
    double secs = s ? atof(s) : 5;
    long iters = ni ? atol(ni) : -1;
    int n0;

    (void)argc; (void)argv; (void)profile; (void)rn;
    signal(SIGALRM, onalarm);
    fd_err = dup(2);
    n0 = open("/dev/null", O_RDWR);
    if (n0 >= 0){ dup2(n0, 0); dup2(n0, 1); }
    if (f){
        FILE *fp = fopen(f, "r");
        char line[256];
        if (fp == NULL) return 78;
        while (fgets(line, sizeof(line), fp)){
            unsigned long long v;
            char nm[128];
            if (sscanf(line, "in %127s %llx", nm, &v) == 2 && nr < NLOG)
                rv[nr++] = v;
        }
        fclose(fp);
        replay = 1;
        alarm(20);
        VH_ENTRY();
        dprintf(fd_err, "VH: OK\n");
        return 0;
    }
    st = 0x9E3779B97F4A7C15ull ^ ((sd ? strtoull(sd, 0, 10) : 1) * 0xD1342543DE82EF95ull);
    if (!st) st = 1;
    if (l){
        int fd = open(l, O_RDWR|O_CREAT|O_TRUNC, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(*lg)) < 0) return 79;
        lg = mmap(NULL, sizeof(*lg), PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
    }
    volatile long done = 0;
    volatile long tries = 0;
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    for (;;){
        if (iters >= 0 && tries >= iters) break;
        tries++;
        if (tries % 64 == 0){
            clock_gettime(CLOCK_MONOTONIC, &t1);
            if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec)/1e9 > secs) break;
        }
        alarm(10);
        if (lg) lg->n = 0;
        if (setjmp(jb) == 0){
            VH_ENTRY();
            done++;
        }
    }
    dprintf(fd_err, "VH: SEARCHED tries=%ld ran=%ld\n", (long)tries, (long)done);
    return 0;
}
