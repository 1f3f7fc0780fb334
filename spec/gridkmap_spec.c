/* Rules for the map that searches the nearest node. */
#include "given.h"
#include "gridkmap.c"

gridkmap* code_knit(int nce1, int nce2, double** gx, double** gy) { return gridkmap_build(nce1, nce2, gx, gy); }
gridkmap* rule_knit(int nce1, int nce2, double** gx, double** gy)
{
    gridkmap* m = malloc(sizeof(gridkmap));
    double* xy[2];

    m->gx = gx;
    m->gy = gy;
    m->nce1 = nce1;
    m->nce2 = nce2;
    m->tree = kd_create(2);
    /* all nodes of the grid, row by row, in shuffled order */
    xy[0] = gx[0];
    xy[1] = gy[0];
    kd_insertnodes(m->tree, (nce2 + 1) * (nce1 + 1), xy, 1);
    return m;
}

void code_unknit(gridkmap* m) { gridkmap_destroy(m); }
void rule_unknit(gridkmap* m)
{
    kd_destroy(m->tree);
    free(m);
}

/* Outside the bounding box of the nodes there is no cell.  Otherwise the up to four cells around the node nearest to
 * the point are tried in row order; the first complete one that contains the point is the answer. */
int code_locate(gridkmap* m, double x, double y, int* iout, int* jout)
{
    given(iout != jout);
    given(m->nce1 >= 0);
    given(m->nce2 >= 0);
    return gridkmap_xy2ij(m, x, y, iout, jout);
}
static inline int sp_locate(gridkmap* m, double x, double y, int* iout, int* jout, int before)
{
    double* box = kd_getminmax(m->tree);
    double** gx = m->gx;
    double** gy = m->gy;
    double p[2];
    size_t k;
    poly* pl;
    int i, j, ci, cj, hit = 0;

    given(iout != jout);
    given(m->nce1 >= 0);
    given(m->nce2 >= 0);
    if (x < box[0] || y < box[1] || x > box[2] || y > box[3])
        return 0;
    p[0] = x;
    p[1] = y;
    k = kd_getnodeorigid(m->tree, kd_findnearestnode(m->tree, p));
    pl = poly_create();
    i = k % (m->nce1 + 1);
    j = k / (m->nce1 + 1);
    for (cj = (j > 0) ? j - 1 : j; cj < ((j < m->nce2) ? j + 1 : j); ++cj)
        for (ci = (i > 0) ? i - 1 : i; ci < ((i < m->nce1) ? i + 1 : i); ++ci) {
            if (!isfinite(gx[cj][ci]) || !isfinite(gx[cj][ci + 1]) || !isfinite(gx[cj + 1][ci]) || !isfinite(gx[cj + 1][ci + 1]))
                continue;
            if (before)
                poly_clear(pl);
            poly_addpoint(pl, gx[cj][ci], gy[cj][ci]);
            poly_addpoint(pl, gx[cj][ci + 1], gy[cj][ci + 1]);
            poly_addpoint(pl, gx[cj + 1][ci + 1], gy[cj + 1][ci + 1]);
            poly_addpoint(pl, gx[cj + 1][ci], gy[cj + 1][ci]);
            poly_addpoint(pl, gx[cj][ci], gy[cj][ci]);
            if (poly_containspoint(pl, x, y)) {
                *iout = ci;
                *jout = cj;
                hit = 1;
                goto out;
            }
            if (!before)
                poly_clear(pl);
        }
  out:
    poly_destroy(pl);
    return hit;
}

int rule_locate(gridkmap* m, double x, double y, int* iout, int* jout) { return sp_locate(m, x, y, iout, jout, 0); }
/* a new polygon is empty: clearing it before each cell is the same as after each */
int rule_locate__before(gridkmap* m, double x, double y, int* iout, int* jout) { return sp_locate(m, x, y, iout, jout, 1); }

int code_kcells1(gridkmap* m) { return gridkmap_getnce1(m); }
int rule_kcells1(gridkmap* m) { return m->nce1; }
int code_kcells2(gridkmap* m) { return gridkmap_getnce2(m); }
int rule_kcells2(gridkmap* m) { return m->nce2; }
double** code_kxnodes(gridkmap* m) { return gridkmap_getxnodes(m); }
double** rule_kxnodes(gridkmap* m) { return m->gx; }
double** code_kynodes(gridkmap* m) { return gridkmap_getynodes(m); }
double** rule_kynodes(gridkmap* m) { return m->gy; }
