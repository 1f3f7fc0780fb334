/* Rules for the getnodes program. */
#include "given.h"
#define main code_main
#include "getnodes.c"
#undef main

void code_unfold(gridnodes* gn)
{
    gridnodes_tweaknpolar(gn);
}

/* longitudes are made continuous along columns; what still jumps along a row is cut */
void rule_unfold(gridnodes* gn)
{
    int nx = gridnodes_getnx(gn), ny = gridnodes_getny(gn);
    double** x = gridnodes_getx(gn);
    double** y = gridnodes_gety(gn);
    int i, j;

    for (i = 0; i < nx; ++i)
        for (j = 1; j < ny; ++j)
            if (fabs(x[j][i] - x[j - 1][i]) > 180.0)
                x[j][i] += 360.0;
    for (j = 0; j < ny; ++j)
        for (i = 1; i < nx; ++i)
            if (fabs(x[j][i] - x[j][i - 1]) > 180.0)
                x[j][i - 1] = y[j][i - 1] = NaN;
    for (j = 0; j < ny; ++j)
        for (i = 1; i < nx; ++i)
            if (fabs(y[j][i] - y[j][i - 1]) > 90.0)
                x[j][i - 1] = y[j][i - 1] = NaN;
}

static int sp_getnodes(int argc, char* argv[], int tweaked)
{
    char* fname = NULL;
    char* mname = NULL;
    NODETYPE in = NT_DD, out = NT_DD;
    COORDTYPE ct = CT_XY;
    int tweak = 0;
    gridnodes* gn;

    parse_commandline(argc, argv, &fname, &mname, &in, &out, &ct, &tweak);
    if (tweaked)
        given(tweak != 0);
    else
        given(tweak == 0);
    gn = gridnodes_read(fname, in);
    gridnodes_validate(gn);
    if (out != in) {
        gridnodes* old = gn;

        gn = gridnodes_transform(old, out);
        gridnodes_destroy(old);
    }
    if (mname != NULL) {
        int** mask = gu_readmask(mname, gridnodes_getnce1(gn), gridnodes_getnce2(gn));

        gridnodes_applymask(gn, mask);
        gu_free2d(mask);
    }
    if (tweak)
        rule_unfold(gn);
    if (gu_verbose)
        gridnodes_calcstats(gn);
    gridnodes_write(gn, "stdout", ct);
    gridnodes_destroy(gn);
    return 0;
}

int rule_plain(int argc, char* argv[])
{
    return sp_getnodes(argc, argv, 0);
}

int rule_polar(int argc, char* argv[])
{
    return sp_getnodes(argc, argv, 1);
}

/* what a command line asks for; node types by name, case ignored */
static int sp_nodetype(int argc, char* argv[], int i, int centres)
{
    if (i == argc)
        gu_quit("no node type");
    if (!strcasecmp(argv[i], "dd"))
        return NT_DD;
    if (!strcasecmp(argv[i], "co"))
        return NT_COR;
    if (!strcasecmp(argv[i], "ce") && centres)
        return NT_CEN;
    gu_quit("no such node type here");
    return 0;
}

static char* sp_operand(int argc, char* argv[], int i)
{
    if (i >= argc)
        gu_quit("nothing follows the option");
    return argv[i];
}

typedef struct {
    char* grid;
    char* mask;
    int in, out, ct, tweak;
} sp_order;

void code_cli(int argc, char* argv[], sp_order* o)
{
    char* g = NULL;
    char* m = NULL;
    NODETYPE in = NT_DD, out = NT_DD;
    COORDTYPE ct = CT_XY;
    int tweak = 0;

    parse_commandline(argc, argv, &g, &m, &in, &out, &ct, &tweak);
    o->grid = g;
    o->mask = m;
    o->in = in;
    o->out = out;
    o->ct = ct;
    o->tweak = tweak;
}

void rule_cli(int argc, char* argv[], sp_order* o)
{
    char* g = NULL;
    char* m = NULL;
    int in = NT_DD, out = NT_DD, ct = CT_XY, tweak = 0;
    int k;

    if (argc < 2)
        usage();
    for (k = 1; k < argc; ++k) {
        char* a = argv[k];

        if (a[0] != '-' || a[1] == 0)
            g = a;
        else if (a[1] == 'i')
            in = sp_nodetype(argc, argv, ++k, 1);
        else if (a[1] == 'o')
            out = sp_nodetype(argc, argv, ++k, 1);
        else if (a[1] == 'm')
            m = sp_operand(argc, argv, ++k);
        else if (a[1] == 'p')
            tweak = 1;
        else if (a[1] == 'x')
            ct = CT_X;
        else if (a[1] == 'y')
            ct = CT_Y;
        else if (a[1] == 'v')
            gu_verbose = 1;
        else if (a[1] == 'h')
            info();
        else
            usage();
    }
    if (gu_verbose && argc == 2)
        version();
    if (g == NULL)
        usage();
    o->grid = g;
    o->mask = m;
    o->in = in;
    o->out = out;
    o->ct = ct;
    o->tweak = tweak;
}
