/* Rules for the binary tree of subgrids. */
#include "given.h"
#include "gridbmap.c"

/* ---- index window of a boundary ------------------------------------------- */
static int sp_at(gridbmap* gm, int i, int j, double x, double y)
{
    return gm->gx[j][i] == x && gm->gy[j][i] == y;
}

#define WINDOW(NAME, STAY, ELSE) \
static subgrid* NAME(gridbmap* gm, poly* pl, int i1, int i2, int j1, int j2) \
{ \
    subgrid* s = malloc(sizeof(subgrid)); \
    int i, j, v; \
 \
    s->gmap = gm; \
    s->bound = pl; \
    s->half1 = s->half2 = NULL; \
    s->mini = s->minj = INT_MAX; \
    s->maxi = s->maxj = INT_MIN; \
    if (pl->n == 0) \
        return s; \
 \
    /* the first vertex is looked up in row order */ \
    for (j = j1; j <= j2; ++j) \
        for (i = i1; i <= i2; ++i) \
            if (sp_at(gm, i, j, pl->x[0], pl->y[0])) \
                goto found; \
    gu_quit("vertex not in the grid"); \
  found: \
    s->mini = s->maxi = i; \
    s->minj = s->maxj = j; \
 \
    /* every other vertex is a neighbour of the one before it, or the same node */ \
    for (v = 1; v < pl->n; ++v) { \
        double x = pl->x[v], y = pl->y[v]; \
 \
        if (i > i1 && sp_at(gm, i - 1, j, x, y)) \
            i = i - 1; \
        else if (i < i2 && sp_at(gm, i + 1, j, x, y)) \
            i = i + 1; \
        else if (j > j1 && sp_at(gm, i, j - 1, x, y)) \
            j = j - 1; \
        else if (j < j2 && sp_at(gm, i, j + 1, x, y)) \
            j = j + 1; \
        else { \
            if (!sp_at(gm, i, j, x, y)) \
                gu_quit("vertex not in the grid"); \
            STAY; \
        } \
        if (i < s->mini) \
            s->mini = i; \
        ELSE if (i > s->maxi) \
            s->maxi = i; \
        if (j < s->minj) \
            s->minj = j; \
        ELSE if (j > s->maxj) \
            s->maxj = j; \
    } \
    return s; \
}
WINDOW(sp_window, continue,)
/* the same: a vertex at the node before it changes no bound; a new minimum is no new maximum */
WINDOW(sp_window_s, (void) 0,)
WINDOW(sp_window_e, continue, else)
WINDOW(sp_window_se, (void) 0, else)

/* ---- cutting a boundary along a grid line --------------------------------- */
/* N(c,k) is coordinate c of node k of the line.  The line enters the polygon at the first boundary node whose
 * successor is inside or on the boundary but not next to it on the boundary, and leaves at the next boundary node. */
#define CUT(name, N) \
static void name(poly* pl, double** gx, double** gy, int line, int from, int to, poly** left, poly** right) \
{ \
    int n = poly_isclosed(pl, 1.0e-15) ? pl->n - 1 : pl->n; \
    int a = -1, b = -1; \
    int ka, kb, v; \
    for (ka = from; ka < to; ++ka) { \
        int next; \
        a = poly_findindex(pl, N(gx, ka), N(gy, ka)); \
        if (a < 0) \
            continue; \
        next = poly_findindex(pl, N(gx, ka + 1), N(gy, ka + 1)); \
        if (next < 0 && poly_containspoint(pl, N(gx, ka + 1), N(gy, ka + 1))) \
            break; \
        if (next >= 0 && abs(next - a) > 1 && abs(next - a) < n - 1) \
            break; \
    } \
    if (ka >= to) \
        return; \
    for (kb = ka + 1; kb <= to; ++kb) { \
        b = poly_findindex(pl, N(gx, kb), N(gy, kb)); \
        if (b >= 0) \
            break; \
    } \
    if (b < 0) \
        return; \
    *left = poly_create(); \
    *right = poly_create(); \
    for (v = a; v != b; v = (v + 1) % n) \
        poly_addpoint(*left, pl->x[v], pl->y[v]); \
    for (v = kb; v > ka; --v) \
        poly_addpoint(*left, N(gx, v), N(gy, v)); \
    for (v = b; v != a; v = (v + 1) % n) \
        poly_addpoint(*right, pl->x[v], pl->y[v]); \
    for (v = ka; v < kb; ++v) \
        poly_addpoint(*right, N(gx, v), N(gy, v)); \
}
#define ALONG(c, k) (c)[line][k]
#define ACROSS(c, k) (c)[k][line]
CUT(cut_along, ALONG)
CUT(cut_across, ACROSS)

/* ---- halving -------------------------------------------------------------- */
/* A subgrid of one cell is not divided; otherwise it is cut across its longer side, at the middle. */
#define SUBDIVIDE(V) \
static void sp_divide##V(subgrid* s, subgrid** h1, subgrid** h2) \
{ \
    poly* a = NULL; \
    poly* b = NULL; \
 \
    if (s->maxi <= s->mini + 1 && s->maxj <= s->minj + 1) { \
        *h1 = NULL; \
        *h2 = NULL; \
        return; \
    } \
    if (s->maxi - s->mini > s->maxj - s->minj) \
        cut_across(s->bound, s->gmap->gx, s->gmap->gy, (s->mini + s->maxi) / 2, s->minj, s->maxj, &a, &b); \
    else \
        cut_along(s->bound, s->gmap->gx, s->gmap->gy, (s->minj + s->maxj) / 2, s->mini, s->maxi, &a, &b); \
    if (a == NULL || b == NULL) \
        gu_quit("no cut"); \
    *h1 = sp_window##V(s->gmap, a, s->mini, s->maxi, s->minj, s->maxj); \
    *h2 = sp_window##V(s->gmap, b, s->mini, s->maxi, s->minj, s->maxj); \
} \
 \
/* Halves are subdivided in turn; boundaries are compacted only once the halves exist. */ \
static void sp_subdivide##V(gridbmap* gm, subgrid* s) \
{ \
    subgrid* h1 = NULL; \
    subgrid* h2 = NULL; \
 \
    sp_divide##V(s, &h1, &h2); \
    if (h1) { \
        s->half1 = h1; \
        gm->nleaves++; \
        gridbmap_subdivide(gm, h1); \
    } \
    if (h2) { \
        s->half2 = h2; \
        gridbmap_subdivide(gm, h2); \
        gm->nleaves++; \
    } \
    poly_compact(s->bound, 1.0e-10); \
}
SUBDIVIDE()
SUBDIVIDE(_s)
SUBDIVIDE(_e)
SUBDIVIDE(_se)

#define HALVE(name, V, side, shut) \
void rule_##name(gridbmap* gm, subgrid* s) \
{ \
    given(s->mini >= 0 && s->minj >= 0); \
    given(s->half1 == NULL && s->half2 == NULL); \
    given(side); \
    given(shut); \
    sp_subdivide##V(gm, s); \
}
#define LEAF s->maxi <= s->mini + 1 && s->maxj <= s->minj + 1
#define WIDE s->maxi - s->mini > s->maxj - s->minj && s->maxi - s->mini > 1
#define TALL s->maxi - s->mini <= s->maxj - s->minj && s->maxj - s->minj > 1
#define SHUT poly_isclosed(s->bound, 1.0e-15)
#define HALVES(A, V) \
HALVE(leaf##A, V, LEAF, 1) \
HALVE(wide_shut##A, V, WIDE, SHUT) \
HALVE(wide_open##A, V, WIDE, !SHUT) \
HALVE(tall_shut##A, V, TALL, SHUT) \
HALVE(tall_open##A, V, TALL, !SHUT)
HALVES(,)
HALVES(__s, _s)
HALVES(__e, _e)
HALVES(__se, _se)

gridbmap* code_buildtree(int nce1, int nce2, double** gx, double** gy) { return gridbmap_build(nce1, nce2, gx, gy); }
#define BUILD(A, V) \
gridbmap* rule_buildtree##A(int nce1, int nce2, double** gx, double** gy) \
{ \
    gridbmap* gm = malloc(sizeof(gridbmap)); \
 \
    gm->gx = gx; \
    gm->gy = gy; \
    gm->nce1 = nce1; \
    gm->nce2 = nce2; \
    gm->bound = poly_formbound(nce1, nce2, gx, gy); \
    gm->trunk = sp_window##V(gm, gm->bound, 0, nce1, 0, nce2); \
    gm->nleaves = 1; \
    gridbmap_subdivide(gm, gm->trunk); \
    return gm; \
}
BUILD(,)
BUILD(__s, _s)
BUILD(__e, _e)
BUILD(__se, _se)

/* ---- search --------------------------------------------------------------- */
/* Outside the trunk boundary: no cell.  Otherwise the half with the shorter boundary decides at every node, and the
 * cell is the lower corner of the leaf reached. */
int code_find(gridbmap* gm, double x, double y, int* i, int* j) { return gridbmap_xy2ij(gm, x, y, i, j); }
int rule_find(gridbmap* gm, double x, double y, int* i, int* j)
{
    subgrid* s = gm->trunk;

    if (!poly_containspoint(s->bound, x, y))
        return 0;
    while (s->half1) {
        subgrid* a = s->half1;
        subgrid* b = s->half2;

        if (a->bound->n > b->bound->n) {
            subgrid* t = a;

            a = b;
            b = t;
        }
        s = poly_containspoint(a->bound, x, y) ? a : b;
    }
    *i = s->mini;
    *j = s->minj;
    return 1;
}

/* ---- release and access --------------------------------------------------- */
void code_release(gridbmap* gm) { gridbmap_destroy(gm); }
void rule_release(gridbmap* gm)
{
    subgrid_destroy(gm->trunk);
    free(gm);
}

void rule_releasesub(subgrid* s)
{
    if (s->half1)
        subgrid_destroy(s->half1);
    if (s->half2)
        subgrid_destroy(s->half2);
    poly_destroy(s->bound);
    free(s);
}

/* the same, if nothing is released for no subgrid */
void rule_releasesub__none(subgrid* s)
{
    if (!s)
        return;
    subgrid_destroy(s->half1);
    subgrid_destroy(s->half2);
    poly_destroy(s->bound);
    free(s);
}

void code_extentof(gridbmap* gm, double* a, double* b, double* c, double* d)
{
    given(a != b && a != c && a != d && b != c && b != d && c != d);
    gridbmap_getextent(gm, a, b, c, d);
}
void rule_extentof(gridbmap* gm, double* a, double* b, double* c, double* d)
{
    given(a != b && a != c && a != d && b != c && b != d && c != d);
    {
        poly* p = gm->trunk->bound;

        *d = p->e.ymax;
        *c = p->e.ymin;
        *b = p->e.xmax;
        *a = p->e.xmin;
    }
}
int code_cells1(gridbmap* gm) { return gridbmap_getnce1(gm); }
int rule_cells1(gridbmap* gm) { return gm->nce1; }
int code_cells2(gridbmap* gm) { return gridbmap_getnce2(gm); }
int rule_cells2(gridbmap* gm) { return gm->nce2; }
double** code_xnodes(gridbmap* gm) { return gridbmap_getxnodes(gm); }
double** rule_xnodes(gridbmap* gm) { return gm->gx; }
double** code_ynodes(gridbmap* gm) { return gridbmap_getynodes(gm); }
double** rule_ynodes(gridbmap* gm) { return gm->gy; }
