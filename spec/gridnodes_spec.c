/* Rules for grid nodes, written as reference transformers over the code's own
 * data structure.  Never executed: only value-numbered next to the code. */
#include "given.h"
#include "gridnodes.c"

/* A node array keeps exactly the nodes that belong to a complete cell. */
static int sp_cell_complete_dd(double** x, int j, int i)
{
    return !isnan(x[j][i]) && !isnan(x[j][i + 2]) && !isnan(x[j + 2][i]) && !isnan(x[j + 2][i + 2]);
}

/* b: a missing node is left alone, which changes nothing when x and y are missing together */
static void spec_validate_dd_b(gridnodes* gn, int b)
{
    int mx = (gn->nx - 1) / 2, my = (gn->ny - 1) / 2;
    int cj, ci;

    for (cj = 0; cj <= my; ++cj)
        for (ci = 0; ci <= mx; ++ci) {
            int keep = b && isnan(gn->gx[2 * cj][2 * ci]);

            if (cj > 0 && ci > 0 && sp_cell_complete_dd(gn->gx, 2 * cj - 2, 2 * ci - 2))
                keep = 1;
            if (cj > 0 && ci < mx && sp_cell_complete_dd(gn->gx, 2 * cj - 2, 2 * ci))
                keep = 1;
            if (cj < my && ci > 0 && sp_cell_complete_dd(gn->gx, 2 * cj, 2 * ci - 2))
                keep = 1;
            if (cj < my && ci < mx && sp_cell_complete_dd(gn->gx, 2 * cj, 2 * ci))
                keep = 1;
            if (!keep) {
                gn->gx[2 * cj][2 * ci] = NaN;
                gn->gy[2 * cj][2 * ci] = NaN;
            }
        }
    /* edges first here; the code may visit the classes in any order */
    for (cj = 0; cj < my; ++cj)
        for (ci = 0; ci <= mx; ++ci)
            if (!(b && isnan(gn->gx[2 * cj + 1][2 * ci])) && (isnan(gn->gx[2 * cj][2 * ci]) || isnan(gn->gx[2 * cj + 2][2 * ci])))
                gn->gx[2 * cj + 1][2 * ci] = gn->gy[2 * cj + 1][2 * ci] = NaN;
    for (cj = 0; cj <= my; ++cj)
        for (ci = 0; ci < mx; ++ci)
            if (!(b && isnan(gn->gx[2 * cj][2 * ci + 1])) && (isnan(gn->gx[2 * cj][2 * ci]) || isnan(gn->gx[2 * cj][2 * ci + 2])))
                gn->gx[2 * cj][2 * ci + 1] = gn->gy[2 * cj][2 * ci + 1] = NaN;
    for (cj = 0; cj < my; ++cj)
        for (ci = 0; ci < mx; ++ci)
            if (!(b && isnan(gn->gx[2 * cj + 1][2 * ci + 1])) && !sp_cell_complete_dd(gn->gx, 2 * cj, 2 * ci))
                gn->gx[2 * cj + 1][2 * ci + 1] = gn->gy[2 * cj + 1][2 * ci + 1] = NaN;
    gn->validated = 1;
}

void spec_validate_dd(gridnodes* gn)
{
    spec_validate_dd_b(gn, 0);
}

static int sp_cell_complete_cor(double** x, int j, int i)
{
    return !isnan(x[j][i]) && !isnan(x[j][i + 1]) && !isnan(x[j + 1][i]) && !isnan(x[j + 1][i + 1]);
}

/* the other three corners of the cell next to node (j,i) in direction (dj,di) */
static int sp_others(double** x, int j, int i, int dj, int di)
{
    return !isnan(x[j + dj][i]) && !isnan(x[j][i + di]) && !isnan(x[j + dj][i + di]);
}

void spec_validate_cor(gridnodes* gn)
{
    int nx = gn->nx, ny = gn->ny;
    int j, i;

    for (j = 0; j < ny; ++j)
        for (i = 0; i < nx; ++i) {
            int keep = 0;

            if (j >= 1 && i >= 1)
                keep |= sp_others(gn->gx, j, i, -1, -1);
            if (j >= 1 && i <= nx - 2)
                keep |= sp_others(gn->gx, j, i, -1, 1);
            if (j <= ny - 2 && i >= 1)
                keep |= sp_others(gn->gx, j, i, 1, -1);
            if (j <= ny - 2 && i <= nx - 2)
                keep |= sp_others(gn->gx, j, i, 1, 1);
            if (keep == 0)
                gn->gx[j][i] = gn->gy[j][i] = NaN;
        }
    gn->validated = 1;
}

/* ---- comparisons ---------------------------------------------------------- */
static void given_dd(gridnodes* gn, int mx, int my)
{
    given(mx >= 0 && my >= 0);
    gn->type = NT_DD;
    gn->nx = 2 * mx + 1;
    gn->ny = 2 * my + 1;
}

void code_validate_dd(gridnodes* gn, int mx, int my)
{
    given_dd(gn, mx, my);
    gridnodes_validate(gn);
}

void rule_validate_dd(gridnodes* gn, int mx, int my)
{
    given_dd(gn, mx, my);
    spec_validate_dd(gn);
}

void code_validate_cor(gridnodes* gn)
{
    gn->type = NT_COR;
    gridnodes_validate(gn);
}

void rule_validate_cor(gridnodes* gn)
{
    gn->type = NT_COR;
    spec_validate_cor(gn);
}

void code_validate_other(gridnodes* gn)
{
    given(gn->type != NT_DD && gn->type != NT_COR);
    gridnodes_validate(gn);
}

void rule_validate_other(gridnodes* gn)
{
    given(gn->type != NT_DD && gn->type != NT_COR);
    gn->validated = 1;
}

/* ---- converting between node types ---------------------------------------- */
static gridnodes* sp_fresh(int nx, int ny, NODETYPE type, gridnodes* like)
{
    gridnodes* g = calloc(1, sizeof(gridnodes));

    g->nx = nx;
    g->ny = ny;
    g->type = type;
    g->maptype = like->maptype;
    g->gx = gu_alloc2d(ny, nx, sizeof(double));
    g->gy = gu_alloc2d(ny, nx, sizeof(double));

    return g;
}

/* every `step'-th node of the double density array, starting from `first' */
static gridnodes* spec_pick(gridnodes* gn, NODETYPE type, int first, int nx, int ny)
{
    gridnodes* g = sp_fresh(nx, ny, type, gn);
    int j, i;

    for (j = 0; j < ny; ++j)
        for (i = 0; i < nx; ++i) {
            g->gx[j][i] = gn->gx[2 * j + first][2 * i + first];
            g->gy[j][i] = gn->gy[2 * j + first][2 * i + first];
        }
    g->validated = 1;
    return g;
}

gridnodes* code_dd2cor(gridnodes* gn, int mx, int my)
{
    given_dd(gn, mx, my);
    gn->validated = 1;
    return gridnodes_transform(gn, NT_COR);
}

gridnodes* rule_dd2cor(gridnodes* gn, int mx, int my)
{
    given_dd(gn, mx, my);
    gn->validated = 1;
    return spec_pick(gn, NT_COR, 0, mx + 1, my + 1);
}

gridnodes* code_dd2cen(gridnodes* gn, int mx, int my)
{
    given(mx >= 1 && my >= 1);
    given_dd(gn, mx, my);
    gn->validated = 1;
    return gridnodes_transform(gn, NT_CEN);
}

gridnodes* rule_dd2cen(gridnodes* gn, int mx, int my)
{
    given(mx >= 1 && my >= 1);
    given_dd(gn, mx, my);
    gn->validated = 1;
    return spec_pick(gn, NT_CEN, 1, mx, my);
}

/* the result of a conversion to the same type (or to no type) is a copy */
static gridnodes* spec_copy(gridnodes* gn, int rows)
{
    gridnodes* g = sp_fresh(gn->nx, gn->ny, gn->type, gn);
    int i, j;

    if (rows) {
        for (j = 0; j < gn->ny; ++j)
            for (i = 0; i < gn->nx; ++i) {
                g->gx[j][i] = gn->gx[j][i];
                g->gy[j][i] = gn->gy[j][i];
            }
        return g;
    }
    memcpy(&g->gx[0][0], &gn->gx[0][0], gn->nx * gn->ny * sizeof(double));
    memcpy(&g->gy[0][0], &gn->gy[0][0], gn->nx * gn->ny * sizeof(double));
    return g;
}

gridnodes* code_copy(gridnodes* gn)
{
    return gridnodes_copy(gn);
}

gridnodes* rule_copy(gridnodes* gn)
{
    return spec_copy(gn, 0);
}

gridnodes* rule_copy__rows(gridnodes* gn)
{
    return spec_copy(gn, 1);
}

gridnodes* code_same(gridnodes* gn)
{
    given(gn->validated);
    return gridnodes_transform(gn, gn->type);
}

gridnodes* rule_same(gridnodes* gn)
{
    return spec_copy(gn, 0);
}

gridnodes* rule_same__rows(gridnodes* gn)
{
    return spec_copy(gn, 1);
}

gridnodes* code_notype(gridnodes* gn)
{
    given(gn->validated);
    return gridnodes_transform(gn, NT_NONE);
}

gridnodes* rule_notype(gridnodes* gn)
{
    return spec_copy(gn, 0);
}

gridnodes* rule_notype__rows(gridnodes* gn)
{
    return spec_copy(gn, 1);
}

/* from corners: node (i,j) is the image of (i+1/2,j+1/2), resp. (i/2,j/2) */
gridnodes* spec_corto(gridnodes* gn, NODETYPE type)
{
    gridmap* gm = gridmap_build(gn->nx - 1, gn->ny - 1, gn->gx, gn->gy, gn->maptype);
    gridnodes* g = (type == NT_CEN) ? sp_fresh(gn->nx - 1, gn->ny - 1, type, gn) : sp_fresh(2 * gn->nx - 1, 2 * gn->ny - 1, type, gn);
    int j, i;

    for (j = 0; j < g->ny; ++j)
        for (i = 0; i < g->nx; ++i)
            if (type == NT_CEN)
                gridmap_fij2xy(gm, i + 0.5, j + 0.5, &g->gx[j][i], &g->gy[j][i]);
            else
                gridmap_fij2xy(gm, i / 2.0, j / 2.0, &g->gx[j][i], &g->gy[j][i]);
    gridmap_destroy(gm);
    g->validated = 1;
    return g;
}

#define TRANSFORM(name, from, to, rule) TRANSFORM_(name, from, to, rule, 2)
#define TRANSFORM_(name, from, to, rule, min) \
gridnodes* code_##name(gridnodes* gn) \
{ gn->type = from; gn->validated = 1; given(gn->nx >= min && gn->ny >= min); return gridnodes_transform(gn, to); } \
gridnodes* rule_##name(gridnodes* gn) \
{ gn->type = from; gn->validated = 1; given(gn->nx >= min && gn->ny >= min); return rule(gn, to); }

TRANSFORM(cor2cen, NT_COR, NT_CEN, spec_corto)
TRANSFORM(cor2dd, NT_COR, NT_DD, spec_corto)

/* an unvalidated array is validated first, then converted the same way */
gridnodes* code_validatefirst(gridnodes* gn, int mx, int my)
{
    given(mx >= 1 && my >= 1);
    given_dd(gn, mx, my);
    gn->validated = 0;
    return gridnodes_transform(gn, NT_CEN);
}

gridnodes* rule_validatefirst(gridnodes* gn, int mx, int my)
{
    given(mx >= 1 && my >= 1);
    given_dd(gn, mx, my);
    gn->validated = 0;
    spec_validate_dd(gn);
    return spec_pick(gn, NT_CEN, 1, mx, my);
}

#define RAW(name, from, to, clean, rule) RAW_(name, from, to, clean, rule, 2)
#define RAW_(name, from, to, clean, rule, min) \
gridnodes* code_##name##_raw(gridnodes* gn) \
{ gn->type = from; gn->validated = 0; given(gn->nx >= min && gn->ny >= min); return gridnodes_transform(gn, to); } \
gridnodes* rule_##name##_raw(gridnodes* gn) \
{ gn->type = from; gn->validated = 0; given(gn->nx >= min && gn->ny >= min); clean(gn); gn->validated = 1; return rule(gn, to); }
#define RAWROWS(name, from, clean) \
gridnodes* rule_##name##_raw__rows(gridnodes* gn) \
{ gn->type = from; gn->validated = 0; given(gn->nx >= 2 && gn->ny >= 2); clean(gn); gn->validated = 1; return spec_copy(gn, 1); }
#define as_is(gn)
static gridnodes* spec_copyas(gridnodes* gn, NODETYPE type) { return spec_copy(gn, 0); }
RAWROWS(same_cor, NT_COR, spec_validate_cor)
RAWROWS(same_cen, NT_CEN, as_is)
RAW(same_cor, NT_COR, NT_COR, spec_validate_cor, spec_copyas)
RAW(same_cen, NT_CEN, NT_CEN, as_is, spec_copyas)
RAW(cor2cen, NT_COR, NT_CEN, spec_validate_cor, spec_corto)
RAW(cor2dd, NT_COR, NT_DD, spec_validate_cor, spec_corto)

/* from centres: bilinear extrapolation of the nearest complete cell of centres */
static void spec_bilinear(double** gx, double** gy, double fi, double fj, int i, int j, double* x, double* y)
{
    double u = fi - i, v = fj - j;

    if (u == 0.0 && v == 0.0) {
        *x = gx[j][i];
        *y = gy[j][i];
    } else if (u == 0.0) {
        *x = gx[j + 1][i] * v + gx[j][i] * (1.0 - v);
        *y = gy[j + 1][i] * v + gy[j][i] * (1.0 - v);
    } else if (v == 0.0) {
        *x = gx[j][i + 1] * u + gx[j][i] * (1.0 - u);
        *y = gy[j][i + 1] * u + gy[j][i] * (1.0 - u);
    } else {
        *x = (gx[j][i] - gx[j][i + 1] - gx[j + 1][i] + gx[j + 1][i + 1]) * u * v + (gx[j][i + 1] - gx[j][i]) * u + (gx[j + 1][i] - gx[j][i]) * v + gx[j][i];
        *y = (gy[j][i] - gy[j][i + 1] - gy[j + 1][i] + gy[j + 1][i + 1]) * u * v + (gy[j][i + 1] - gy[j][i]) * u + (gy[j + 1][i] - gy[j][i]) * v + gy[j][i];
    }
}

gridnodes* spec_cento(gridnodes* gn, NODETYPE type, int b)
{
    int nx = gn->nx, ny = gn->ny;
    size_t n = (nx - 1) * (ny - 1);
    kdtree* kt = kd_create(2);
    gridnodes* g = (type == NT_COR) ? sp_fresh(nx + 1, ny + 1, type, gn) : sp_fresh(2 * nx + 1, 2 * ny + 1, type, gn);
    size_t* ids = malloc(n * sizeof(size_t));
    size_t k;
    int j, i;

    for (j = 0, k = 0; j < ny - 1; ++j)
        for (i = 0; i < nx - 1; ++i, ++k)
            ids[k] = j * nx + i;
    /* fixed pseudo-random order */
    srand48(SEED);
    for (k = 0; k < n; ++k) {
        size_t m = (size_t) ((double) n * drand48());
        size_t t = ids[k];

        ids[k] = ids[m];
        ids[m] = t;
    }
    for (k = 0; k < n; ++k) {
        int i0 = ids[k] % nx, j0 = ids[k] / nx;

        if (sp_cell_complete_cor(gn->gx, j0, i0)) {
            double pos[2] = { i0 + 0.5, j0 + 0.5 };

            kd_insertnode(kt, pos, ids[k]);
        }
    }
    free(ids);
    for (j = 0; j < g->ny; ++j)
        for (i = 0; i < g->nx; ++i) {
            double pos[2];
            double* c;

            pos[0] = ((type == NT_COR) ? (double) i : i / 2.0) - 0.5;
            pos[1] = ((type == NT_COR) ? (double) j : j / 2.0) - 0.5;
            k = kd_findnearestnode(kt, pos);
            c = (k == SIZE_MAX) ? NULL : kd_getnodecoords(kt, k);
            if (c && hypot(c[0] - pos[0], c[1] - pos[1]) < 1.5)
                spec_bilinear(gn->gx, gn->gy, pos[0], pos[1], (int) c[0], (int) c[1], &g->gx[j][i], &g->gy[j][i]);
            else
                g->gx[j][i] = g->gy[j][i] = NaN;
        }
    if (g->type == NT_COR)
        spec_validate_cor(g);
    else
        spec_validate_dd_b(g, b);
    kd_destroy(kt);
    return g;
}

gridnodes* spec_cento0(gridnodes* gn, NODETYPE type)
{
    return spec_cento(gn, type, 0);
}

gridnodes* spec_cento1(gridnodes* gn, NODETYPE type)
{
    return spec_cento(gn, type, 1);
}

TRANSFORM_(cen2cor, NT_CEN, NT_COR, spec_cento0, 1)
TRANSFORM_(cen2dd, NT_CEN, NT_DD, spec_cento0, 1)
TRANSFORM_(cen2dd__b, NT_CEN, NT_DD, spec_cento1, 1)
RAW_(cen2cor, NT_CEN, NT_COR, as_is, spec_cento0, 1)
RAW_(cen2dd, NT_CEN, NT_DD, as_is, spec_cento0, 1)
gridnodes* rule_cen2dd_raw__b(gridnodes* gn) { gn->type = NT_CEN; given(gn->nx >= 1 && gn->ny >= 1); gn->validated = 1; return spec_cento1(gn, NT_DD); }

/* ---- mask ----------------------------------------------------------------- */
/* a corner stays only if the centre of some adjacent cell stays */
static void spec_mask_dd(gridnodes* gn, int** mask)
{
    int mx = (gn->nx - 1) / 2, my = (gn->ny - 1) / 2;
    double** x = gn->gx;
    double** y = gn->gy;
    int cj, ci;

    for (cj = 0; cj < my; ++cj)
        for (ci = 0; ci < mx; ++ci)
            if (mask[cj][ci] == 0)
                x[2 * cj + 1][2 * ci + 1] = y[2 * cj + 1][2 * ci + 1] = NaN;
    for (cj = 0; cj <= my; ++cj)
        for (ci = 0; ci <= mx; ++ci) {
            int keep = (cj > 0 && ci > 0 && !isnan(x[2 * cj - 1][2 * ci - 1])) || (cj > 0 && ci < mx && !isnan(x[2 * cj - 1][2 * ci + 1])) || (cj < my && ci > 0 && !isnan(x[2 * cj + 1][2 * ci - 1])) || (cj < my && ci < mx && !isnan(x[2 * cj + 1][2 * ci + 1]));

            if (!keep)
                x[2 * cj][2 * ci] = y[2 * cj][2 * ci] = NaN;
        }
}

void code_mask_dd(gridnodes* gn, int** mask, int mx, int my)
{
    given_dd(gn, mx, my);
    gridnodes_applymask(gn, mask);
}

void rule_mask_dd(gridnodes* gn, int** mask, int mx, int my)
{
    given_dd(gn, mx, my);
    spec_mask_dd(gn, mask);
    spec_validate_dd_b(gn, 1);
}

void rule_mask_dd__b(gridnodes* gn, int** mask, int mx, int my)
{
    given_dd(gn, mx, my);
    spec_mask_dd(gn, mask);
    spec_validate_dd_b(gn, 0);
}

void code_mask_cen(gridnodes* gn, int** mask)
{
    gn->type = NT_CEN;
    gridnodes_applymask(gn, mask);
}

void rule_mask_cen(gridnodes* gn, int** mask)
{
    int i, j;

    gn->type = NT_CEN;
    for (j = 0; j < gn->ny; ++j)
        for (i = 0; i < gn->nx; ++i)
            if (!mask[j][i]) {
                gn->gx[j][i] = NaN;
                gn->gy[j][i] = NaN;
            }
}

/* corner and untyped arrays are refused */
void code_mask_refuse(gridnodes* gn, int** mask)
{
    given(gn->type != NT_DD && gn->type != NT_CEN);
    gridnodes_applymask(gn, mask);
}

void rule_mask_refuse(gridnodes* gn, int** mask)
{
    given(gn->type != NT_DD && gn->type != NT_CEN);
    if (gn->type == NT_COR || gn->type == NT_NONE)
        gu_quit("refused");
}

/* ---- subgrid -------------------------------------------------------------- */
gridnodes* code_subgrid(gridnodes* gn, int imin, int imax, int jmin, int jmax)
{
    given(gn->nx >= 1 && gn->ny >= 1);
    return gridnodes_subgrid(gn, imin, imax, jmin, jmax);
}

static gridnodes* spec_subgrid(gridnodes* gn, int imin, int imax, int jmin, int jmax, int rows)
{
    int lo_i = imin < 0 ? 0 : imin;
    int lo_j = jmin < 0 ? 0 : jmin;
    int hi_i = imax > gn->nx - 1 ? gn->nx - 1 : imax;
    int hi_j = jmax > gn->ny - 1 ? gn->ny - 1 : jmax;
    gridnodes* g;
    int i, j;

    if (lo_i == 0 && lo_j == 0 && hi_i == gn->nx - 1 && hi_j == gn->ny - 1)
        return spec_copy(gn, rows);
    if (lo_i > hi_i || lo_j > hi_j)
        gu_quit("empty range");
    g = sp_fresh(hi_i - lo_i + 1, hi_j - lo_j + 1, gn->type, gn);
    for (j = 0; j <= hi_j - lo_j; ++j)
        for (i = 0; i <= hi_i - lo_i; ++i) {
            g->gx[j][i] = gn->gx[lo_j + j][lo_i + i];
            g->gy[j][i] = gn->gy[lo_j + j][lo_i + i];
        }
    return g;
}

gridnodes* rule_subgrid(gridnodes* gn, int imin, int imax, int jmin, int jmax)
{
    return spec_subgrid(gn, imin, imax, jmin, jmax, 0);
}

gridnodes* rule_subgrid__rows(gridnodes* gn, int imin, int imax, int jmin, int jmax)
{
    return spec_subgrid(gn, imin, imax, jmin, jmax, 1);
}

/* ---- reading -------------------------------------------------------------- */
enum { FLAT, ROWS, ONELOOP, PAIRS, FLATPAIRS };
static gridnodes* spec_read(char* fname, NODETYPE type, int how)
{
    gridnodes* g = calloc(1, sizeof(gridnodes));
    char buf[BUFSIZE];
    FILE* f;
    int i, j;

    if (strcasecmp(fname, "stdin") == 0 || strcmp(fname, "-") == 0)
        f = stdin;
    else
        f = gu_fopen(fname, "r");
    g->type = type;
    g->maptype = GRIDMAP_TYPE_DEF;
    if (fgets(buf, BUFSIZE, f) == NULL)
        gu_quit("no header");
    if (sscanf(buf, "## %d x %d", &g->nx, &g->ny) != 2)
        gu_quit("bad header");
    if (g->nx < 1 || g->ny < 1)
        gu_quit("bad size");
    if ((double) g->nx * (double) g->ny > (double) INT_MAX)
        gu_quit("too big");
    if (type == NT_DD && (g->nx % 2 == 0 || g->ny % 2 == 0))
        gu_quit("even size");
    g->gx = gu_alloc2d(g->ny, g->nx, sizeof(double));
    g->gy = gu_alloc2d(g->ny, g->nx, sizeof(double));
    /* node (i,j) is line 1 + j * nx + i; rows follow each other in memory */
#define NODELINE(px, py) do { \
        if (fgets(buf, BUFSIZE, f) == NULL) \
            gu_quit("short file"); \
        if (sscanf(buf, "%lf %lf", px, py) != 2 || isnan(*(px)) || isnan(*(py))) \
            *(px) = *(py) = NaN; \
    } while (0)
    if (how == PAIRS || how == FLATPAIRS) {
        for (j = 0; j < g->ny; ++j)
            for (i = 0; i < g->nx; ++i) {
                double a, b;

                if (fgets(buf, BUFSIZE, f) == NULL)
                    gu_quit("short file");
                if (sscanf(buf, "%lf %lf", &a, &b) != 2 || isnan(a) || isnan(b))
                    a = b = NaN;
                if (how == PAIRS) {
                    g->gx[j][i] = a;
                    g->gy[j][i] = b;
                } else {
                    g->gx[0][j * g->nx + i] = a;
                    g->gy[0][j * g->nx + i] = b;
                }
            }
    } else if (how == ONELOOP) {
        for (i = 0; i < g->nx * g->ny; ++i)
            NODELINE(&g->gx[0][i], &g->gy[0][i]);
    } else
        for (j = 0; j < g->ny; ++j)
            for (i = 0; i < g->nx; ++i)
                if (how == ROWS)
                    NODELINE(&g->gx[j][i], &g->gy[j][i]);
                else
                    NODELINE(&g->gx[0][j * g->nx + i], &g->gy[0][j * g->nx + i]);
    if (f != stdin)
        fclose(f);
    return g;
}

/* three ways of naming the source of lines: "stdin" in any case, "-", a file */
#define SRC_STDIN strcasecmp(fname, "stdin") == 0
#define SRC_DASH strcasecmp(fname, "stdin") != 0 && strcmp(fname, "-") == 0
#define SRC_FILE strcasecmp(fname, "stdin") != 0 && strcmp(fname, "-") != 0
#define READ(name, cond) \
    gridnodes* rule_read_##name(char* fname, NODETYPE type) { given(cond); return spec_read(fname, type, FLAT); } \
    gridnodes* rule_read_##name##__rows(char* fname, NODETYPE type) { given(cond); return spec_read(fname, type, ROWS); } \
    gridnodes* rule_read_##name##__oneloop(char* fname, NODETYPE type) { given(cond); return spec_read(fname, type, ONELOOP); } \
    gridnodes* rule_read_##name##__pairs(char* fname, NODETYPE type) { given(cond); return spec_read(fname, type, PAIRS); } \
    gridnodes* rule_read_##name##__flatpairs(char* fname, NODETYPE type) { given(cond); return spec_read(fname, type, FLATPAIRS); } \
    gridnodes* code_read_##name(char* fname, NODETYPE type) { given(cond); return gridnodes_read(fname, type); }
READ(stdin, SRC_STDIN)
READ(dash, SRC_DASH)
READ(file, SRC_FILE)

/* ---- writing -------------------------------------------------------------- */
#define WRITE(name, ct, missing, valid) \
void code_##name(gridnodes* gn, char* fname) { gridnodes_write(gn, fname, ct); } \
void rule_##name(gridnodes* gn, char* fname) \
{ \
    FILE* f = strcasecmp(fname, "stdout") ? gu_fopen(fname, "w") : stdout; \
    int i, j; \
    fprintf(f, "## %d x %d\n", gn->nx, gn->ny); \
    for (j = 0; j < gn->ny; ++j) \
        for (i = 0; i < gn->nx; ++i) \
            if (isnan(gn->gx[j][i])) \
                fputs(missing, f); \
            else \
                valid; \
    if (f != stdout) \
        fclose(f); \
}

WRITE(write_xy, CT_XY, "NaN NaN\n", fprintf(f, "%.15g %.15g\n", gn->gx[j][i], gn->gy[j][i]))
WRITE(write_x, CT_X, "NaN\n", fprintf(f, "%.15g\n", gn->gx[j][i]))
WRITE(write_y, CT_Y, "NaN\n", fprintf(f, "%.15g\n", gn->gy[j][i]))

/* ---- objects: construction, filling, access, release ---------------------- */
gridnodes* code_newnodes(int nx, int ny, NODETYPE type) { return gridnodes_create(nx, ny, type); }

static gridnodes* spec_blank(int nx, int ny, NODETYPE type, double** x, double** y)
{
    gridnodes* g = malloc(sizeof(gridnodes));

    g->maptype = GRIDMAP_TYPE_BINARY;
    g->type = type;
    g->nextpoint = g->validated = 0;
    g->stats = NULL;
    g->ny = ny;
    g->nx = nx;
    g->gx = x;
    g->gy = y;
    return g;
}

gridnodes* rule_newnodes(int nx, int ny, NODETYPE type)
{
    double** x = gu_alloc2d(ny, nx, sizeof(double));
    double** y = gu_alloc2d(ny, nx, sizeof(double));

    return spec_blank(nx, ny, type, x, y);
}

gridnodes* code_wrapnodes(int nx, int ny, NODETYPE type, double** gx, double** gy) { return gridnodes_create2(nx, ny, type, gx, gy); }
gridnodes* rule_wrapnodes(int nx, int ny, NODETYPE type, double** gx, double** gy) { return spec_blank(nx, ny, type, gx, gy); }

/* points arrive row by row; after the last one filling starts over */
void code_nextpoint(gridnodes* gn, double x, double y)
{
    given(gn->nx > 0 && gn->ny > 0 && gn->nextpoint >= 0 && gn->nextpoint < gn->nx * gn->ny);
    gridnodes_readnextpoint(gn, x, y);
}

void rule_nextpoint(gridnodes* gn, double x, double y)
{
    int n = gn->nextpoint;

    given(gn->nx > 0 && gn->ny > 0 && gn->nextpoint >= 0 && gn->nextpoint < gn->nx * gn->ny);
    gn->gy[n / gn->nx][n % gn->nx] = y;
    gn->gx[n / gn->nx][n % gn->nx] = x;
    gn->nextpoint = (n + 1) % (gn->nx * gn->ny);
}

int code_columns(gridnodes* gn) { return gridnodes_getnx(gn); }
int rule_columns(gridnodes* gn) { return gn->nx; }
int code_rows(gridnodes* gn) { return gridnodes_getny(gn); }
int rule_rows(gridnodes* gn) { return gn->ny; }
double** code_xnodes(gridnodes* gn) { return gridnodes_getx(gn); }
double** rule_xnodes(gridnodes* gn) { return gn->gx; }
double** code_ynodes(gridnodes* gn) { return gridnodes_gety(gn); }
double** rule_ynodes(gridnodes* gn) { return gn->gy; }
int code_maptype(gridnodes* gn) { return gridnodes_getmaptype(gn); }
int rule_maptype(gridnodes* gn) { return gn->maptype; }
void code_usemap(gridnodes* gn, int type) { gridnodes_setmaptype(gn, type); }
void rule_usemap(gridnodes* gn, int type) { gn->maptype = type; }

/* number of cells of a node array, by its type */
static int spec_cells(NODETYPE type, int n)
{
    if (type == NT_CEN)
        return n;
    if (type == NT_COR)
        return n - 1;
    if (type != NT_DD)
        gu_quit("no type");
    return (n - 1) / 2;
}

int code_cellsacross(gridnodes* gn) { return gridnodes_getnce1(gn); }
int rule_cellsacross(gridnodes* gn) { return spec_cells(gn->type, gn->nx); }
int code_cellsup(gridnodes* gn) { return gridnodes_getnce2(gn); }
int rule_cellsup(gridnodes* gn) { return spec_cells(gn->type, gn->ny); }

void code_drop(gridnodes* gn) { gridnodes_destroy(gn); }
void rule_drop(gridnodes* gn)
{
    free(gn->stats);
    gu_free2d(gn->gy);
    gu_free2d(gn->gx);
    free(gn);
}

/* ---- statistics over complete cells ---------------------------------------- */
static double spec_skew(double ax, double ay, double bx, double by)
{
    double c = (ax * bx + ay * by) / hypot(ax, ay) / hypot(bx, by);

    return fabs(90.0 - acos(fmax(-1.0, fmin(1.0, c))) * 180.0 / M_PI);
}

static void spec_stats_over(gridnodes* g, gridstats* s)
{
    double** x = g->gx;
    double** y = g->gy;
    double skewsum = 0.0, skewmax = 0.0, ratiosum = 0.0, ratiomax = 1.0, xsum = 0.0, ysum = 0.0;
    int skewi = -1, skewj = -1, ratioi = -1, ratioj = -1, n = 0;
    int i, j, k;

    for (j = 0; j < g->ny - 1; ++j)
        for (i = 0; i < g->nx - 1; ++i)
            if (sp_cell_complete_cor(x, j, i)) {
                /* the four sides, taken in the direction of growing indices */
                double lox = x[j][i + 1] - x[j][i], loy = y[j][i + 1] - y[j][i];
                double hix = x[j + 1][i + 1] - x[j + 1][i], hiy = y[j + 1][i + 1] - y[j + 1][i];
                double lex = x[j + 1][i] - x[j][i], ley = y[j + 1][i] - y[j][i];
                double rix = x[j + 1][i + 1] - x[j][i + 1], riy = y[j + 1][i + 1] - y[j][i + 1];
                double d[4], across, along, ratio;

                d[0] = spec_skew(lox, loy, lex, ley);
                d[1] = spec_skew(rix, riy, lox, loy);
                d[2] = spec_skew(-hix, -hiy, rix, riy);
                d[3] = spec_skew(-hix, -hiy, lex, ley);
                for (k = 0; k < 4; ++k) {
                    skewsum += d[k];
                    if (d[k] > skewmax) {
                        skewmax = d[k];
                        skewi = i;
                        skewj = j;
                    }
                }
                along = hypot(x[j][i] + x[j][i + 1] - x[j + 1][i] - x[j + 1][i + 1], y[j][i] + y[j][i + 1] - y[j + 1][i] - y[j + 1][i + 1]);
                across = hypot(x[j][i] + x[j + 1][i] - x[j][i + 1] - x[j + 1][i + 1], y[j][i] + y[j + 1][i] - y[j][i + 1] - y[j + 1][i + 1]);
                ratio = along / across;
                if (ratio < 1.0)
                    ratio = 1.0 / ratio;
                ratiosum += ratio;
                if (ratio > ratiomax) {
                    ratiomax = ratio;
                    ratioi = i;
                    ratioj = j;
                }
                xsum += hypot(lox, loy) + hypot(hix, hiy);
                ysum += hypot(rix, riy) + hypot(lex, ley);
                ++n;
            }
    s->mdo = skewmax;
    s->imdo = skewi;
    s->jmdo = skewj;
    s->ado = skewsum / n / 4.0;
    s->mar = ratiomax;
    s->imar = ratioi;
    s->jmar = ratioj;
    s->aar = ratiosum / n;
    s->adx = xsum / 2.0 / n;
    s->ady = ysum / 2.0 / n;
}

static void spec_report(gridstats* s)
{
    if (gu_verbose) {
        fprintf(stderr, "## maximum deviation from orthogonality = %.3f deg, in cell (%d,%d)\n", s->mdo, s->imdo, s->jmdo);
        fprintf(stderr, "## mean deviation from orthogonality = %.3f deg\n", s->ado);
        fprintf(stderr, "## maximum aspect ratio = %.3f, in cell (%d,%d)\n", s->mar, s->imar, s->jmar);
        fprintf(stderr, "## mean aspect ratio = %.3f\n", s->aar);
        fprintf(stderr, "## mean cell size = %.3g x %.3g \n", s->adx, s->ady);
    }
}

/* corner nodes with nothing computed yet */
void code_stats_cor(gridnodes* gn)
{
    given(gn->type == NT_COR && gn->stats == NULL && gn->validated);
    gridnodes_calcstats(gn);
}

void rule_stats_cor(gridnodes* gn)
{
    given(gn->type == NT_COR && gn->stats == NULL && gn->validated);
    gn->stats = malloc(sizeof(gridstats));
    spec_stats_over(gn, gn->stats);
    spec_report(gn->stats);
}

/* what validation says: the number and share of complete cells */
static void spec_said_cells(gridnodes* gn)
{
    int i, j, n = 0;

    for (j = 1; j < gn->ny; ++j)
        for (i = 1; i < gn->nx; ++i)
            if (sp_cell_complete_cor(gn->gx, j - 1, i - 1))
                ++n;
    if (gu_verbose)
        fprintf(stderr, "##   %d valid cells (%.1f%%)\n", n, n * 100.0 / (gn->nx - 1) / (gn->ny - 1));
}

void code_said_cor(gridnodes* gn)
{
    gn->type = NT_COR;
    gridnodes_validate(gn);
}

void rule_said_cor(gridnodes* gn)
{
    gn->type = NT_COR;
    if (gu_verbose)
        fprintf(stderr, "## grid validation:\n");
    spec_validate_cor(gn);
    spec_said_cells(gn);
}

void code_said_other(gridnodes* gn)
{
    given(gn->type == NT_CEN || gn->type == NT_NONE);
    gridnodes_validate(gn);
}

void rule_said_other(gridnodes* gn)
{
    given(gn->type == NT_CEN || gn->type == NT_NONE);
    if (gu_verbose)
        fprintf(stderr, "## grid validation:\n## gridnodes_validate(): nothing to do for nodes of \"%s\" type\n", nodetype2str[gn->type]);
    gn->validated = 1;
}

/* whatever was computed before is replaced; nodes not validated yet are validated first */
void code_stats_again(gridnodes* gn)
{
    given(gn->type == NT_COR && gn->stats != NULL && gn->validated);
    gridnodes_calcstats(gn);
}

void rule_stats_again(gridnodes* gn)
{
    given(gn->type == NT_COR && gn->stats != NULL && gn->validated);
    spec_stats_over(gn, gn->stats);
    spec_report(gn->stats);
}

void code_stats_first(gridnodes* gn)
{
    given(gn->type == NT_COR && gn->stats == NULL && !gn->validated);
    gridnodes_calcstats(gn);
}

void rule_stats_first(gridnodes* gn)
{
    given(gn->type == NT_COR && gn->stats == NULL && !gn->validated);
    if (gu_verbose)
        fprintf(stderr, "## grid validation:\n");
    spec_validate_cor(gn);
    spec_said_cells(gn);
    gn->stats = malloc(sizeof(gridstats));
    spec_stats_over(gn, gn->stats);
    spec_report(gn->stats);
}

static void spec_nostats(gridstats* s)
{
    s->mdo = s->ado = s->mar = s->aar = s->adx = s->ady = NaN;
    s->imdo = s->jmdo = -1;
}

/* no statistics for centre and untyped nodes */
void code_stats_refuse(gridnodes* gn)
{
    given((gn->type == NT_CEN || gn->type == NT_NONE) && gn->stats == NULL);
    gridnodes_calcstats(gn);
}

void rule_stats_refuse(gridnodes* gn)
{
    given((gn->type == NT_CEN || gn->type == NT_NONE) && gn->stats == NULL);
    gn->stats = malloc(sizeof(gridstats));
    spec_nostats(gn->stats);
    if (gu_verbose)
        fprintf(stderr, "## gridnodes_calcstats(): do not know what to do with nodes of \"%s\" type\n", nodetype2str[gn->type]);
}

/* double density nodes are measured on their corner nodes */
void code_stats_dd(gridnodes* gn, int mx, int my)
{
    given_dd(gn, mx, my);
    given(gn->stats == NULL && gn->validated);
    gridnodes_calcstats(gn);
}

void rule_stats_dd(gridnodes* gn, int mx, int my)
{
    gridnodes* corners;

    given_dd(gn, mx, my);
    given(gn->stats == NULL && gn->validated);
    gn->stats = malloc(sizeof(gridstats));
    corners = gridnodes_transform(gn, NT_COR);
    spec_stats_over(corners, gn->stats);
    spec_report(gn->stats);
    gridnodes_destroy(corners);
}
