/* C09: time values: str2time and time2str of cligen_cv.c */
#include "cvh.h"
#ifdef PRINTS
#include "cmfmt.h"
#endif
static struct tm g_tm; static int g_mk; static int64_t g_epoch; static const time_t *g_sec;
#ifndef VH_NATIVE
/* mktime: the seconds of the local standard time given, i.e. those of the same fields as UTC plus
 * `timezone`; g_epoch stands for the seconds of the fields as UTC */
time_t mktime(struct tm *t)
{
    g_mk++;
    g_tm = *t;
    IN(_Bool, mktime_fails);
    if (mktime_fails) return -1;
    return g_epoch + timezone;
}
static struct tm g_gm;
struct tm *gmtime(const time_t *t)
{
    __CPROVER_assert(*t == g_epoch, "CHECK:the second stored");
    return &g_gm;
}
long timezone;
/* calloc that notes when memory runs out */
static _Bool vh_oom;
static void *vh_calloc(size_t n, size_t m){ void *p = calloc(n, m); if (p == NULL) vh_oom = 1; return p; }
#define calloc vh_calloc
#endif
#include "cligen_cv.c"
#undef snprintf
#undef fprintf
#undef cprintf
struct fields { int year, mon, day, hour, min, sec, usec; };
static int num(const char *s, int n)
{
    int v = 0;
    for (int i = 0; i < 6; i++)
        if (i < n){ if (s[i] < '0' || s[i] > '9') return -1; v = v * 10 + (s[i] - '0'); }
    return v;
}
/* the documented form, with the fields within their ranges */
static _Bool form(const char *s, struct fields *f)
{
    memset(f, 0, sizeof(*f));
    if ((f->year = num(s, 4)) < 1970 || f->year > 2104 || s[4] != '-') return 0;
    if ((f->mon = num(s + 5, 2)) < 1 || f->mon > 12 || s[7] != '-') return 0;
    if ((f->day = num(s + 8, 2)) < 1 || f->day > 31 || (s[10] != 'T' && s[10] != ' ')) return 0;
    if ((f->hour = num(s + 11, 2)) < 0 || f->hour > 23 || s[13] != ':') return 0;
    if ((f->min = num(s + 14, 2)) < 0 || f->min > 59 || s[16] != ':') return 0;
    if ((f->sec = num(s + 17, 2)) < 0 || f->sec > 59) return 0;
    s += 19;
    if (*s == '.'){
        int k = 0, scale = 1000000;
        s++;
        while (k < 6 && s[k] >= '0' && s[k] <= '9') { scale /= 10; f->usec += (s[k] - '0') * scale; k++; }
        if (k == 0) return 0;
        s += k;
    }
    if (*s == '+' || *s == '-') return 1;   /* a zone offset follows, it is not read */
    if (*s == 'Z') s++;
    return *s == 0;
}
#ifdef VH_NATIVE
static char *near_time(void)
{
    IN(uint64_t, a); IN(uint64_t, b); IN(uint8_t, dmg); IN(uint8_t, at); IN(char, c); IN(uint8_t, tail); IN(uint8_t, digs);
    char *s = calloc(1, 64);
    int k = sprintf(s, "%04d-%02d-%02d%c%02d:%02d:%02d", (int)(1969 + a % 137), (int)(a / 137 % 14), (int)(a / 2000 % 33), a & 65536 ? 'T' : ' ',
            (int)(b % 25), (int)(b / 25 % 61), (int)(b / 1525 % 61));
    digs %= 9;
    if (tail & 1) { sprintf(s + k, "."); k++; for (int i = 0; i < digs; i++) s[k++] = '0' + (b >> (i*4)) % 10; }
    switch ((tail >> 1) % 5){ case 0: s[k++] = 'Z'; break; case 1: sprintf(s + k, "+02:00"); break; case 2: sprintf(s + k, "Z1"); break; }
    if ((dmg & 3) == 0) s[at % strlen(s)] = c;
    return s;
}
#endif
void h_parse(void)
{
    IN(size_t, n); IN(int64_t, epoch); IN(int32_t, zone);
    char *s;
    struct timeval tv; struct fields f;
#ifdef VH_NATIVE
    s = near_time();
#else
    BOUND(n, 30);
    ASSUME(n < VH_HUGE);
    s = vh_string(n);
    ASSUME(epoch >= 0 && epoch < 8000000000LL && zone >= -86400 && zone <= 86400 && epoch + zone >= 0);
    g_epoch = epoch; timezone = zone; g_mk = 0;
#endif
    int ret = str2time(s, &tv);
    _Bool ok = form(s, &f);
    COVER("returns");
    if (ret == 0) COVER("accepted");
    if (ret == 0 && f.usec) COVER("accepted with a fraction");
    CHECK(ret == 0 || ret == -1, "documented return values");
    CHECK(!(ret == 0) || ok, "accepted only in the documented form with fields in range");
    if (ret == 0 && ok){
        CHECK(tv.tv_usec == f.usec, "the microseconds the fraction denotes");
#ifdef VH_NATIVE
        struct tm t = {0}; t.tm_year = f.year - 1900; t.tm_mon = f.mon - 1; t.tm_mday = f.day; t.tm_hour = f.hour; t.tm_min = f.min; t.tm_sec = f.sec;
        CHECK(tv.tv_sec == timegm(&t), "the second the fields denote");
#else
        CHECK(g_mk == 1 && g_tm.tm_year == f.year - 1900 && g_tm.tm_mon == f.mon - 1 && g_tm.tm_mday == f.day &&
              g_tm.tm_hour == f.hour && g_tm.tm_min == f.min && g_tm.tm_sec == f.sec && g_tm.tm_isdst == 0, "the second is that of the fields");
        CHECK(tv.tv_sec == epoch, "as universal time");
#endif
    }
#ifdef VH_NATIVE
    CHECK(ret == 0 || !ok, "every text of the form is accepted");
#else
    CHECK(!(ret == -1 && ok) || g_mk == 1 || vh_oom, "every text of the form is accepted");
#endif
}
#ifdef PRINTS
void h_print(void)
{
    IN(uint32_t, usec); IN(int64_t, sec); IN(uint64_t, a); IN(uint8_t, how);
    char s[28];
    struct timeval tv, back; struct fields f;
    memset(s, 'x', sizeof(s));
    usec %= 1000000;
    tv.tv_usec = usec;
#ifdef VH_NATIVE
    sec = (uint64_t)sec % 4260000000ULL;
    tv.tv_sec = sec;
    struct tm t; gmtime_r(&tv.tv_sec, &t);
#else
    IN(int32_t, year); IN(uint8_t, mon); IN(uint8_t, day); IN(uint8_t, hour); IN(uint8_t, min); IN(uint8_t, sc);
    ASSUME(year >= 0 && year <= 9999 && mon < 12 && day >= 1 && day <= 31 && hour < 24 && min < 60 && sc <= 60);
    struct tm t = {0};
    t.tm_year = year - 1900; t.tm_mon = mon; t.tm_mday = day; t.tm_hour = hour; t.tm_min = min; t.tm_sec = sc;
    g_gm = t; g_epoch = sec; tv.tv_sec = sec; g_mk = 0; timezone = 0;
#endif
    int ret = time2str(&tv, s, sizeof(s));
    COVER("printed");
    CHECK(ret == 0, "printed");
    CHECK(s[27] == 0 && s[26] == 'Z' && s[19] == '.' && s[10] == 'T', "the documented form");
    CHECK(num(s, 4) == t.tm_year + 1900 && s[4] == '-' && num(s + 5, 2) == t.tm_mon + 1 && s[7] == '-' && num(s + 8, 2) == t.tm_mday, "the date");
    CHECK(num(s + 11, 2) == t.tm_hour && s[13] == ':' && num(s + 14, 2) == t.tm_min && s[16] == ':' && num(s + 17, 2) == t.tm_sec, "the time of day");
    CHECK(num(s + 20, 6) == usec, "all six digits of the microseconds");
    if (t.tm_year >= 70 && t.tm_year <= 204 && t.tm_sec < 60 && (int64_t)tv.tv_sec >= 0){
        int r2 = str2time(s, &back);
        COVER("read back");
        CHECK(!(r2 == 0) || (back.tv_usec == usec && back.tv_sec == tv.tv_sec), "printed text reads back as the same time");
#ifdef VH_NATIVE
        CHECK(r2 == 0, "printed text is accepted");
#else
        CHECK(!(r2 == -1) || g_mk == 1 || vh_oom, "printed text is accepted");
        if (r2 == 0)
            CHECK(g_tm.tm_year == t.tm_year && g_tm.tm_mon == t.tm_mon && g_tm.tm_mday == t.tm_mday && g_tm.tm_hour == t.tm_hour &&
                  g_tm.tm_min == t.tm_min && g_tm.tm_sec == t.tm_sec, "printed text reads back as the same fields");
#endif
    }
}
#endif
