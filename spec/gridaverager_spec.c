/* Rules for gridaverager.c: sums and counts per cell. */
#include "given.h"
#include "gridaverager.c"

gridaverager* code_newavg(gridmap* gm)
{
    return ga_create(gm);
}

gridaverager* rule_newavg(gridmap* gm)
{
    int nce1 = gridmap_getnce1(gm), nce2 = gridmap_getnce2(gm);
    gridaverager* ga = malloc(sizeof(gridaverager));

    ga->gm = gm;
    ga->v = gu_alloc2d(nce2, nce1, sizeof(double));
    ga->n = gu_alloc2d(nce2, nce1, sizeof(int));
    return ga;
}

void code_dropavg(gridaverager* ga)
{
    ga_destroy(ga);
}

/* the map belongs to the caller */
void rule_dropavg(gridaverager* ga)
{
    gu_free2d(ga->n);
    gu_free2d(ga->v);
    free(ga);
}

void code_addpoints(gridaverager* ga, int n, point points[])
{
    ga_addpoints(ga, n, points);
}

/* a point counts once, in the cell it is in, and not at all if it is in none */
void rule_addpoints(gridaverager* ga, int n, point points[])
{
    int k;

    for (k = 0; k < n; ++k) {
        int i, j;

        if (!gridmap_xy2ij(ga->gm, points[k].x, points[k].y, &i, &j))
            continue;
        ga->n[j][i] += 1;
        ga->v[j][i] += points[k].z;
    }
}

void code_average(gridaverager* ga, point* p)
{
    ga_getvalue(ga, p);
}

/* the mean of the points added to the cell of p; missing where there are none */
void rule_average(gridaverager* ga, point* p)
{
    int i, j;
    double z = NaN;

    if (gridmap_xy2ij(ga->gm, p->x, p->y, &i, &j))
        if (ga->n[j][i] != 0)
            z = ga->v[j][i] / ga->n[j][i];
    p->z = z;
}

/* counts start at zero and only grow: positive where they are not zero */
void rule_average__grown(gridaverager* ga, point* p)
{
    int i, j;
    double z = NaN;

    if (gridmap_xy2ij(ga->gm, p->x, p->y, &i, &j))
        if (ga->n[j][i] > 0)
            z = ga->v[j][i] / ga->n[j][i];
    p->z = z;
}
