/* common head of the harnesses over cligen_cv.c */
#ifndef CVH_H
#define CVH_H
#include "vh.h"
#include <stdint.h>
#include <inttypes.h>
#include <sys/types.h>
#include <sys/time.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <ctype.h>
#include <time.h>
#include <regex.h>
#include "cligen_config.h"
#include "cligen_buf.h"
#include "cligen_cv.h"
#if defined(VH_PAD) && defined(VH_PROOF)
/* a cg_var padded to 128 bytes: addresses of elements of a vector are then shifts, not divisions
 * by 72, to the solver. Nothing but the size of an element changes. */
#define varu_void varu_void; char vh_pad[96]
#include "cligen_cv_internal.h"
#undef varu_void
#else
#include "cligen_cv_internal.h"
#endif
#include "cligen_cvec.h"
#include "cligen_cvec_internal.h"
#include "cligen_parsetree.h"
#include "cligen_pt_head.h"
#include "cligen_callback.h"
#include "cligen_object.h"
#include "cligen_handle.h"
#include "cligen_result.h"
#include "cligen_match.h"
#include "cligen_regex.h"

/* cligen_reason(): formats a message into allocated memory or returns NULL. The message text is
 * not part of any claim; only that there is one. */
static int g_reasons;           /* messages made */
#ifndef VH_NATIVE
static char *vh_reason(void)
{
    IN(_Bool, reason_fails);
    if (reason_fails)
        return NULL;
    g_reasons++;
    char *r = malloc(2);
    __CPROVER_assume(r != NULL);
    r[0] = 'r'; r[1] = '\0';
    return r;
}
#define cligen_reason(...) vh_reason()
#else
#undef cligen_reason
static char *vh_reason_native(void)
{
    uint64_t f = vh_next("reason_fails", 1) & 1;
    if (f) return NULL;
    g_reasons++;
    return strdup("r");
}
#define cligen_reason(...) vh_reason_native()
#endif
#endif
