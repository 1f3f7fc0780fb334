/* Rules for the getbound program. */
#include "given.h"
#define main code_main
#include "getbound.c"
#undef main

int rule_boundary(int argc, char* argv[])
{
    char* fname = NULL;
    int ij = 0, compact = 0, nce1, nce2;
    NODETYPE nt = NT_DD;
    gridnodes* gn;
    poly* pl;

    parse_commandline(argc, argv, &fname, &compact, &ij, &nt);
    if (nt == NT_DD) {
        gridnodes* dd = gridnodes_read(fname, NT_DD);

        gridnodes_validate(dd);
        gn = gridnodes_transform(dd, NT_COR);
        gridnodes_destroy(dd);
    } else {
        gn = gridnodes_read(fname, NT_COR);
        gridnodes_validate(gn);
    }
    nce1 = gridnodes_getnce1(gn);
    nce2 = gridnodes_getnce2(gn);
    if (ij)
        pl = poly_formboundij(nce1, nce2, gridnodes_getx(gn));
    else
        pl = poly_formbound(nce1, nce2, gridnodes_getx(gn), gridnodes_gety(gn));
    if (compact)
        poly_compact(pl, 1.0e-10);
    poly_write(pl, stdout);
    poly_destroy(pl);
    gridnodes_destroy(gn);
    return 0;
}

/* what a command line asks for; node types by name, case ignored */
static int sp_nodetype(int argc, char* argv[], int i, int centres)
{
    if (i == argc)
        gu_quit("no node type");
    if (!strcasecmp(argv[i], "dd"))
        return NT_DD;
    if (!strcasecmp(argv[i], "co"))
        return NT_COR;
    if (!strcasecmp(argv[i], "ce") && centres)
        return NT_CEN;
    gu_quit("no such node type here");
    return 0;
}

typedef struct {
    char* grid;
    int compact, ij, nt;
} sp_order;

void code_cli(int argc, char* argv[], sp_order* o)
{
    char* g = NULL;
    int compact = 0, ij = 0;
    NODETYPE nt = NT_DD;

    parse_commandline(argc, argv, &g, &compact, &ij, &nt);
    o->grid = g;
    o->compact = compact;
    o->ij = ij;
    o->nt = nt;
}

void rule_cli(int argc, char* argv[], sp_order* o)
{
    char* g = NULL;
    int compact = 0, ij = 0, nt = NT_DD;
    int k;

    if (argc < 2)
        usage();
    for (k = 1; k < argc; ++k) {
        char* a = argv[k];

        if (a[0] != '-' || a[1] == 0)
            g = a;
        else if (a[1] == 'i')
            nt = sp_nodetype(argc, argv, ++k, 0);
        else if (a[1] == 'c')
            compact = 1;
        else if (a[1] == 'r')
            ij = 1;
        else if (a[1] == 'v')
            gu_verbose = 1;
        else if (a[1] == 'h')
            info();
        else
            usage();
    }
    if (gu_verbose && argc == 2)
        version();
    if (g == NULL)
        usage();
    o->grid = g;
    o->compact = compact;
    o->ij = ij;
    o->nt = nt;
}
