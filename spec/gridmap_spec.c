/* Rules for the index/coordinate maps. */
#include "given.h"
#include "gridmap.c"

static double** sp_node_x(gridmap* gm)
{
    return gm->type == GRIDMAP_TYPE_BINARY ? gridbmap_getxnodes(gm->map) : gridkmap_getxnodes(gm->map);
}

static double** sp_node_y(gridmap* gm)
{
    return gm->type == GRIDMAP_TYPE_BINARY ? gridbmap_getynodes(gm->map) : gridkmap_getynodes(gm->map);
}

static int sp_cells_i(gridmap* gm)
{
    return gm->type == GRIDMAP_TYPE_BINARY ? gridbmap_getnce1(gm->map) : gridkmap_getnce1(gm->map);
}

static int sp_cells_j(gridmap* gm)
{
    return gm->type == GRIDMAP_TYPE_BINARY ? gridbmap_getnce2(gm->map) : gridkmap_getnce2(gm->map);
}

/* ---- index to position ---------------------------------------------------- */
static double sp_bilinear(double** g, int i, int j, double u, double v)
{
    if (u == 0.0 && v == 0.0)
        return g[j][i];
    if (u == 0.0)
        return g[j][i] * (1.0 - v) + g[j + 1][i] * v;
    if (v == 0.0)
        return g[j][i] * (1.0 - u) + g[j][i + 1] * u;
    return (1.0 - u) * (1.0 - v) * g[j][i] + u * (1.0 - v) * g[j][i + 1] + (1.0 - u) * v * g[j + 1][i] + u * v * g[j + 1][i + 1];
}

/* a map never has a negative number of cells */
static int sp_counted(gridmap* gm) { return sp_cells_i(gm) >= 0 && sp_cells_j(gm) >= 0; }

static int spec_fij2xy(gridmap* gm, double fi, double fj, double* x, double* y)
{
    int n1 = sp_cells_i(gm), n2 = sp_cells_j(gm);
    int inside = 1;
    int i, j;

    if (isnan(fi) || isnan(fj)) {
        *x = NaN;
        *y = NaN;
        return 0;
    }
    if (fi < 0) {
        fi = 0;
        inside = 0;
    }
    if (fi > n1) {
        fi = n1 - 1.0e-8;
        inside = 0;
    }
    if (fj < 0) {
        fj = 0;
        inside = 0;
    }
    if (fj > n2) {
        fj = n2 - 1.0e-8;
        inside = 0;
    }
    i = (int) fi;
    j = (int) fj;
    *x = sp_bilinear(sp_node_x(gm), i, j, fi - i, fj - j);
    *y = sp_bilinear(sp_node_y(gm), i, j, fi - i, fj - j);
    return inside;
}

#define BOTHIF(name, premise, decl, code, rule) \
    int code_##name##_tree decl { gm->type = GRIDMAP_TYPE_BINARY; return code; } \
    int rule_##name##_tree decl { gm->type = GRIDMAP_TYPE_BINARY; given(premise); return rule; } \
    int code_##name##_kd decl { gm->type = GRIDMAP_TYPE_KDTREE; return code; } \
    int rule_##name##_kd decl { gm->type = GRIDMAP_TYPE_KDTREE; given(premise); return rule; }
#define BOTH(name, decl, code, rule) \
    int code_##name##_tree decl { gm->type = GRIDMAP_TYPE_BINARY; return code; } \
    int rule_##name##_tree decl { gm->type = GRIDMAP_TYPE_BINARY; return rule; } \
    int code_##name##_kd decl { gm->type = GRIDMAP_TYPE_KDTREE; return code; } \
    int rule_##name##_kd decl { gm->type = GRIDMAP_TYPE_KDTREE; return rule; }

BOTHIF(fij2xy, sp_counted(gm), (gridmap* gm, double fi, double fj, double* x, double* y), gridmap_fij2xy(gm, fi, fj, x, y), spec_fij2xy(gm, fi, fj, x, y))

/* ---- position to cell ----------------------------------------------------- */
static int spec_xy2ij(gridmap* gm, double x, double y, int* i, int* j)
{
    *i = -1;
    *j = -1;
    if (!isfinite(x + y))
        return 0;
    if (gm->type == GRIDMAP_TYPE_BINARY)
        return gridbmap_xy2ij(gm->map, x, y, i, j);
    return gridkmap_xy2ij(gm->map, x, y, i, j);
}

BOTH(xy2ij, (gridmap* gm, double x, double y, int* i, int* j), gridmap_xy2ij(gm, x, y, i, j), spec_xy2ij(gm, x, y, i, j))

/* ---- position to fractional index ----------------------------------------- */
/* x = a u v + b u + c v + d, y = e u v + f u + g v + h;  u solves A u^2 + B u + C = 0 */
typedef struct {
    double a, b, c, d, e, f, g, h, A, B, C;
} sp_cell;

static void sp_coeffs(gridmap* gm, int i, int j, double x, double y, sp_cell* q)
{
    double** gx = sp_node_x(gm);
    double** gy = sp_node_y(gm);

    q->a = gx[j][i] - gx[j][i + 1] - gx[j + 1][i] + gx[j + 1][i + 1];
    q->b = gx[j][i + 1] - gx[j][i];
    q->c = gx[j + 1][i] - gx[j][i];
    q->d = gx[j][i];
    q->e = gy[j][i] - gy[j][i + 1] - gy[j + 1][i] + gy[j + 1][i + 1];
    q->f = gy[j][i + 1] - gy[j][i];
    q->g = gy[j + 1][i] - gy[j][i];
    q->h = gy[j][i];
    q->A = q->a * q->f - q->b * q->e;
    q->B = q->e * (x - q->d) - q->a * (y - q->h) + q->c * q->f - q->b * q->g;
    q->C = q->g * (x - q->d) - q->c * (y - q->h);
}

static double sp_outside01(double t)
{
    return t < 0.0 ? -t : t > 1.0 ? t - 1.0 : 0.0;
}

static double sp_branch_error(sp_cell* q, double x, double y, int sign)
{
    double u = (-q->B + sign * sqrt(q->B * q->B - 4.0 * q->A * q->C)) / (2.0 * q->A);
    double d1 = q->a * u + q->c;
    double v = fabs(d1) < EPS_ZERO ? (y - q->f * u - q->h) / (q->e * u + q->g) : (x - q->b * u - q->d) / d1;

    return sp_outside01(u) + sp_outside01(v);
}

static double sp_clamp01(double t)
{
    return t < 0.0 ? 0.0 : t >= 1.0 ? 1.0 - EPS : t;
}

static int spec_xy2fij(gridmap* gm, double x, double y, double* fi, double* fj)
{
    int i, j;
    double u, v, d1, d2;
    sp_cell q;

    *fi = NaN;
    *fj = NaN;
    if (spec_xy2ij(gm, x, y, &i, &j) == 0)
        return 0;
    sp_coeffs(gm, i, j, x, y, &q);
    if (fabs(q.A) < EPS_ZERO)
        /* (almost) a parallelogram: first-order root */
        u = -q.C / q.B * (1.0 + q.A * q.C / q.B / q.B);
    else {
        /* the root is chosen once for a grid, by the first point that needs it */
        if (gm->sign == 0)
            gm->sign = sp_branch_error(&q, x, y, 1) < sp_branch_error(&q, x, y, -1) ? 1 : -1;
        u = (-q.B + gm->sign * sqrt(q.B * q.B - 4.0 * q.A * q.C)) / (2.0 * q.A);
    }
    d1 = q.a * u + q.c;
    d2 = q.e * u + q.g;
    v = fabs(d2) > fabs(d1) ? (y - q.f * u - q.h) / d2 : (x - q.b * u - q.d) / d1;
    *fi = i + sp_clamp01(u);
    *fj = j + sp_clamp01(v);
    return 1;
}

BOTH(xy2fij, (gridmap* gm, double x, double y, double* fi, double* fj), gridmap_xy2fij(gm, x, y, fi, fj), spec_xy2fij(gm, x, y, fi, fj))

/* ---- dispatch ------------------------------------------------------------- */
static gridmap* spec_build(int n1, int n2, double** gx, double** gy, int type)
{
    gridmap* gm = malloc(sizeof(gridmap));

    gm->type = type;
    gm->sign = 0;
    if (type == GRIDMAP_TYPE_BINARY)
        gm->map = gridbmap_build(n1, n2, gx, gy);
    else if (type == GRIDMAP_TYPE_KDTREE)
        gm->map = gridkmap_build(n1, n2, gx, gy);
    else
        gu_quit("unknown type");
    return gm;
}

gridmap* code_build(int n1, int n2, double** gx, double** gy, int type)
{
    return gridmap_build(n1, n2, gx, gy, type);
}

gridmap* rule_build(int n1, int n2, double** gx, double** gy, int type)
{
    return spec_build(n1, n2, gx, gy, type);
}

gridmap* code_build2(gridnodes* gn)
{
    return gridmap_build2(gn);
}

gridmap* rule_build2(gridnodes* gn)
{
    return spec_build(gridnodes_getnce1(gn), gridnodes_getnce2(gn), gridnodes_getx(gn), gridnodes_gety(gn), gridnodes_getmaptype(gn));
}

BOTH(nce1, (gridmap* gm), gridmap_getnce1(gm), sp_cells_i(gm))
BOTH(nce2, (gridmap* gm), gridmap_getnce2(gm), sp_cells_j(gm))

void code_destroy_tree(gridmap* gm) { gm->type = GRIDMAP_TYPE_BINARY; gridmap_destroy(gm); }
void rule_destroy_tree(gridmap* gm) { gm->type = GRIDMAP_TYPE_BINARY; gridbmap_destroy(gm->map); free(gm); }
void code_destroy_kd(gridmap* gm) { gm->type = GRIDMAP_TYPE_KDTREE; gridmap_destroy(gm); }
void rule_destroy_kd(gridmap* gm) { gm->type = GRIDMAP_TYPE_KDTREE; gridkmap_destroy(gm->map); free(gm); }
