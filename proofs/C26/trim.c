/* C26: trimming a line against a plain description of it. */
#include "vh.h"
#ifndef VH_NATIVE
#include <ctype.h>
#undef isascii
#define isascii(c) (((c) & ~0x7f) == 0)
#undef isblank
#define isblank(c) ((c) == ' ' || (c) == '\t')
#endif
#include "cligen_read.c"
#ifdef VH_NATIVE
#define MAXN 40
#else
#ifndef MAXN
#define MAXN 6
#endif
#endif
static int blank(char c){ return c == ' ' || c == '\t'; }
void h_trim(void)
{
    char *mem, *line, in[MAXN + 1], out[MAXN + 2]; int i, n, m, cut;
    IN(uint8_t, nn); IN(char, comment);
    n = nn % (MAXN + 1);
    char *all = malloc(MAXN + 1);
    ASSUME(all != NULL);
    mem = all + MAXN - n;        /* nothing after the line */
    for (i = 0; i < n; i++){
        IN(char, c);
#ifdef VH_NATIVE
        IN(uint8_t, w);
        if (w < 60) c = ' '; else if (w < 90) c = '\t'; else if (w < 120) c = comment; else if (w < 150) c = '\n'; else if (w < 200) c = 'a' + w % 3;
#endif
        ASSUME(c != '\0');
        in[i] = mem[i] = c;
    }
    in[n] = mem[n] = '\0';
    /* reference: the comment, from a word beginning with the comment character on, is left out ... */
    cut = n;
    if (comment > 0 && !blank(comment) && comment != '\n')
        for (i = n - 1; i >= 0; i--)
            if (in[i] == comment && (i == 0 || blank(in[i-1]))) cut = i;
    ASSUME(!blank(comment) && comment != '\n');
    /* ... each run of blanks is one blank ... */
    m = 0;
    for (i = 0; i < cut; i++)
        if (!blank(in[i])) out[m++] = in[i];
        else if (i == 0 || !blank(in[i-1])) out[m++] = ' ';
    /* ... and none at the end (nor newlines) or at the beginning */
    while (m > 0 && (out[m-1] == '\n' || blank(out[m-1]))) m--;
    out[m] = '\0';
    line = mem;
    cli_trim(&line, comment);
    char *o = m > 0 && out[0] == ' ' ? &out[1] : out;
    CHECK(line >= mem && line <= mem + n, "the result is part of the line's memory");
    for (i = 0; o[i] != '\0'; i++) CHECK(line[i] == o[i], "characters kept in order");
    CHECK(line[i] == '\0', "nothing more than what is kept");
    free(all);
}
