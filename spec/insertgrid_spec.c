/* Rules for the insertgrid program. */
#include "given.h"
#define main code_main
#include "insertgrid.c"
#undef main

/* node (i,j) of a grid, or nothing outside of it */
static int sp_inside(int i, int j, int nx, int ny)
{
    return i >= 0 && j >= 0 && i < nx && j < ny;
}

/* the slave grid g2 is laid over the master grid g1 with its first node at (i0,j0) */
static gridnodes* spec_combine(gridnodes* g1, gridnodes* g2, int i0, int j0, NODETYPE type)
{
    int nx1 = gridnodes_getnx(g1), ny1 = gridnodes_getny(g1);
    int nx2 = gridnodes_getnx(g2), ny2 = gridnodes_getny(g2);
    double** x1 = gridnodes_getx(g1);
    double** y1 = gridnodes_gety(g1);
    double** x2 = gridnodes_getx(g2);
    double** y2 = gridnodes_gety(g2);
    int nx = nx1 < i0 + nx2 ? i0 + nx2 : nx1;
    int ny = ny1 < j0 + ny2 ? j0 + ny2 : ny1;
    gridnodes* g = gridnodes_create(nx, ny, type);
    double** x = gridnodes_getx(g);
    double** y = gridnodes_gety(g);
    int i, j;

    for (j = 0; j < ny; ++j)
        for (i = 0; i < nx; ++i) {
            double px = NaN, py = NaN;

            if (sp_inside(i, j, nx1, ny1)) {
                px = x1[j][i];
                py = y1[j][i];
            }
            /* merging keeps the master's node where the slave has none */
            if (sp_inside(i - i0, j - j0, nx2, ny2) && (!merge || !isnan(x2[j - j0][i - i0]) || !sp_inside(i, j, nx1, ny1))) {
                px = x2[j - j0][i - i0];
                py = y2[j - j0][i - i0];
            }
            x[j][i] = px;
            y[j][i] = py;
        }
    return g;
}

/* wide, high: the slave grid sticks out of the master grid */
static int sp_insert(int argc, char* argv[], int wide, int high)
{
    char* f1;
    char* f2;
    int i0, j0;
    NODETYPE type;
    gridnodes* g1;
    gridnodes* g2;
    gridnodes* g3;

    parse_commandline(argc, argv, &f1, &f2, &i0, &j0, &type);
    given(i0 >= 0 && j0 >= 0);
    g1 = gridnodes_read(f1, NT_NONE);
    g2 = gridnodes_read(f2, NT_NONE);
    if (wide)
        given(i0 + gridnodes_getnx(g2) > gridnodes_getnx(g1));
    else
        given(i0 + gridnodes_getnx(g2) <= gridnodes_getnx(g1));
    if (high)
        given(j0 + gridnodes_getny(g2) > gridnodes_getny(g1));
    else
        given(j0 + gridnodes_getny(g2) <= gridnodes_getny(g1));
    g3 = spec_combine(g1, g2, i0, j0, type);
    gridnodes_validate(g3);
    gridnodes_write(g3, "stdout", CT_XY);
    gridnodes_destroy(g1);
    gridnodes_destroy(g2);
    gridnodes_destroy(g3);
    return 0;
}

int rule_within(int argc, char* argv[])
{
    return sp_insert(argc, argv, 0, 0);
}

int rule_wider(int argc, char* argv[])
{
    return sp_insert(argc, argv, 1, 0);
}

int rule_higher(int argc, char* argv[])
{
    return sp_insert(argc, argv, 0, 1);
}

int rule_beyond(int argc, char* argv[])
{
    return sp_insert(argc, argv, 1, 1);
}

/* what a command line asks for; node types by name, case ignored */
static int sp_nodetype(int argc, char* argv[], int i, int centres)
{
    if (i == argc)
        gu_quit("no node type");
    if (!strcasecmp(argv[i], "dd"))
        return NT_DD;
    if (!strcasecmp(argv[i], "co"))
        return NT_COR;
    if (!strcasecmp(argv[i], "ce") && centres)
        return NT_CEN;
    gu_quit("no such node type here");
    return 0;
}

typedef struct {
    char* master;
    char* slave;
    int i0, j0, type;
} sp_order;

void code_cli(int argc, char* argv[], sp_order* o)
{
    char* f1 = NULL;
    char* f2 = NULL;
    int i0 = INT_MAX, j0 = INT_MAX;
    NODETYPE type = NT_NONE;

    parse_commandline(argc, argv, &f1, &f2, &i0, &j0, &type);
    o->master = f1;
    o->slave = f2;
    o->i0 = i0;
    o->j0 = j0;
    o->type = type;
}

void rule_cli(int argc, char* argv[], sp_order* o)
{
    char* master = NULL;
    char* slave = NULL;
    int i0 = -1, j0 = -1, k;
    int type = NT_NONE;

    for (k = 1; k < argc; ++k) {
        char* a = argv[k];

        if (a[0] == '-' && a[1] != 0) {
            if (a[1] == 'h')
                info();
            else if (a[1] == 'i')
                type = sp_nodetype(argc, argv, ++k, 1);
            else if (a[1] == 'm')
                merge = 1;
            else if (a[1] == 'v')
                gu_verbose = 1;
            else
                usage();
        } else if (master == NULL)
            master = a;
        else if (slave == NULL)
            slave = a;
        else if (a[0] == '-')
            usage();
        else if (i0 == -1)
            i0 = atoi(a);
        else if (j0 == -1)
            j0 = atoi(a);
        else
            usage();
    }
    if (gu_verbose && argc == 2)
        version();
    if (master == NULL || slave == NULL || i0 == -1 || j0 == -1)
        usage();
    o->master = master;
    o->slave = slave;
    o->i0 = i0;
    o->j0 = j0;
    o->type = type;
}
