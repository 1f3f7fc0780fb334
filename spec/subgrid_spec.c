/* Rules for the subgrid program. */
#include "given.h"
#define main code_main
#include "subgrid.c"
#undef main

int rule_window(int argc, char* argv[])
{
    char* fname = NULL;
    COORDTYPE ct = CT_XY;
    int imin = INT_MIN, imax = INT_MAX, jmin = INT_MIN, jmax = INT_MAX;
    gridnodes* whole;
    gridnodes* part;

    parse_commandline(argc, argv, &fname, &ct, &imin, &imax, &jmin, &jmax);
    whole = gridnodes_read(fname, NT_NONE);
    part = gridnodes_subgrid(whole, imin, imax, jmin, jmax);
    gridnodes_write(part, "stdout", ct);
    gridnodes_destroy(part);
    gridnodes_destroy(whole);
    return 0;
}

static char* sp_operand(int argc, char* argv[], int i)
{
    if (i >= argc)
        gu_quit("nothing follows the option");
    return argv[i];
}

typedef struct {
    char* grid;
    int ct, imin, imax, jmin, jmax;
} sp_order;

void code_cli(int argc, char* argv[], sp_order* o)
{
    char* g = NULL;
    COORDTYPE ct = CT_XY;
    int imin = INT_MIN, imax = INT_MAX, jmin = INT_MIN, jmax = INT_MAX;

    parse_commandline(argc, argv, &g, &ct, &imin, &imax, &jmin, &jmax);
    o->grid = g;
    o->ct = ct;
    o->imin = imin;
    o->imax = imax;
    o->jmin = jmin;
    o->jmax = jmax;
}

void rule_cli(int argc, char* argv[], sp_order* o)
{
    char* g = NULL;
    int imin = INT_MIN, imax = INT_MAX, jmin = INT_MIN, jmax = INT_MAX, ct = CT_XY;
    int k;

    if (argc < 2)
        usage();
    for (k = 1; k < argc; ++k) {
        char* a = argv[k];

        if (a[0] != '-' || a[1] == 0)
            g = a;
        else if (a[1] == 'i')
            sscanf(sp_operand(argc, argv, ++k), "%d:%d", &imin, &imax);
        else if (a[1] == 'j')
            sscanf(sp_operand(argc, argv, ++k), "%d:%d", &jmin, &jmax);
        else if (a[1] == 'x')
            ct = CT_X;
        else if (a[1] == 'y')
            ct = CT_Y;
        else if (a[1] == 'v')
            gu_verbose = 1;
        else if (a[1] == 'h')
            info();
        else
            usage();
    }
    if (gu_verbose && argc == 2)
        version();
    if (g == NULL)
        usage();
    o->grid = g;
    o->ct = ct;
    o->imin = imin;
    o->imax = imax;
    o->jmin = jmin;
    o->jmax = jmax;
}
