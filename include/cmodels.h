/* Small executable models of C library functions CBMC has no body for (bounded readings only) */
#ifndef CMODELS_H
#define CMODELS_H
#ifndef VH_NATIVE
#ifndef CM_NO_STRSEP
char *strsep(char **sp, const char *d)
{
    char *s = *sp, *t = s;
    if (s == NULL) return NULL;
    while (*t){
        const char *e = d;
        while (*e && *e != *t) e++;
        if (*e){ *t = '\0'; *sp = t + 1; return s; }
        t++;
    }
    *sp = NULL;
    return s;
}
#endif
static int cm_in(char c, const char *set)
{
    while (*set) if (*set++ == c) return 1;
    return 0;
}
#ifndef CM_NO_STRSPN
size_t strspn(const char *s, const char *set){ size_t n = 0; while (s[n] && cm_in(s[n], set)) n++; return n; }
#endif
size_t strcspn(const char *s, const char *set){ size_t n = 0; while (s[n] && !cm_in(s[n], set)) n++; return n; }
#ifndef CM_NO_STRPBRK
char *strpbrk(const char *s, const char *set){ while (*s){ if (cm_in(*s, set)) return (char*)s; s++; } return NULL; }
#endif
#ifndef CM_NO_STRTOLL
/* base 10 only, no overflow (short texts) */
long long strtoll(const char *s0, char **ep, int base)
{
    const char *s = s0;
    int neg = 0, any = 0;
    long long v = 0;
    __CPROVER_assert(base == 10 || base == 0, "CHECK:model of strtoll covers base 10");
    while (*s == ' ' || (*s >= '\t' && *s <= '\r')) s++;
    if (*s == '-'){ neg = 1; s++; } else if (*s == '+') s++;
    while (*s >= '0' && *s <= '9'){ any = 1; v = v * 10 + (*s++ - '0'); }
    if (ep) *ep = (char*)(any ? s : s0);
    return neg ? -v : v;
}
long strtol(const char *s, char **ep, int base){ return (long)strtoll(s, ep, base); }
#endif
#endif
#endif
