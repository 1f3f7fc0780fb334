/* Premises of a rule.  given(c) restricts the inputs a comparison ranges over. */
#ifndef GIVEN_H
#define GIVEN_H
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include <string.h>
#include "gucommon.h"
#define given(c) do { if (!(c)) gu_quit("@given"); } while (0)

/* A block copy is an element by element copy, so that both spellings are one. */
#ifndef SP_NOCOPY
#define memcpy(D, S, N) (__extension__({ \
    __typeof__(&*(D)) sp_to = (D); \
    const __typeof__(*sp_to)* sp_from = (const void*) (S); \
    size_t sp_bytes = (N), sp_k; \
    for (sp_k = 0; sp_k < sp_bytes / sizeof(*sp_to); ++sp_k) \
        sp_to[sp_k] = sp_from[sp_k]; \
    for (sp_k = sp_bytes - sp_bytes % sizeof(*sp_to); sp_k < sp_bytes; ++sp_k) \
        ((char*) sp_to)[sp_k] = ((const char*) sp_from)[sp_k]; \
    (void*) sp_to; }))
#endif
#endif
