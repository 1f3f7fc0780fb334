/* Rules for the error exit: the initial handler, and setting another one.
   The variable arguments and the end of the process are opaque. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <limits.h>
#include <assert.h>
#include "version.h"
#include "gucommon.h"

typedef struct sp_args sp_args;
sp_args* sp_rest(const void* format);
void sp_leave(int status);

#undef va_list
#undef va_start
#undef va_end
#define va_list sp_args*
#define va_start(a, f) ((a) = sp_rest(f))
#define va_end(a) ((void) 0)
#define exit(status) sp_leave(status)
#include "gucommon.c"

static void sp_message(char* format)
{
    fprintf(stderr, "\n  error: gridutils: ");
    vfprintf(stderr, format, sp_rest(format));
    fprintf(stderr, "\n\n");
}

/* what was written so far comes out first, or with the end of the process */
void rule_lastword(char* format)
{
    fflush(stdout);
    sp_message(format);
    sp_leave(1);
}

void rule_lastword__late(char* format)
{
    sp_message(format);
    fflush(stdout);
    sp_leave(1);
}

void rule_lastword__atexit(char* format)
{
    sp_message(format);
    sp_leave(1);
}

void code_setquit(gu_quitfn handler) { gu_setquitfn(handler); }
void rule_setquit(gu_quitfn handler) { gu_quit = handler; }
