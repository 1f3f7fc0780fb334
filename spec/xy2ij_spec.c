/* Rules for the xy2ij program. */
#include "given.h"
#define main code_main
#include "xy2ij.c"
#undef main

int rule_convert(int argc, char* argv[])
{
    char* gfname = NULL;
    char* ofname = NULL;
    gridnodes* gn;
    gridmap* gm;
    FILE* f;
    char buf[BUFSIZE];

    parse_commandline(argc, argv, &gfname, &ofname);

    /* corner nodes, by way of double density ones if that is what the file has */
    if (nt == NT_DD) {
        gridnodes* dd = gridnodes_read(gfname, NT_DD);

        gridnodes_validate(dd);
        gn = gridnodes_transform(dd, NT_COR);
        gridnodes_destroy(dd);
    } else {
        gn = gridnodes_read(gfname, NT_COR);
        gridnodes_validate(gn);
    }
    gm = gridmap_build(gridnodes_getnce1(gn), gridnodes_getnce2(gn), gridnodes_getx(gn), gridnodes_gety(gn), gridmaptype);

    f = strcmp(ofname, "stdin") == 0 || strcmp(ofname, "-") == 0 ? stdin : gu_fopen(ofname, "r");

    /* one output line per input line, the rest of the line kept */
    while (fgets(buf, BUFSIZE, f) != NULL) {
        char rem[BUFSIZE] = "";
        double a, b, p, q;
        int ok;

        if (sscanf(buf, "%lf %lf %[^\n]", &a, &b, rem) < 2) {
            printf("%s", buf);
            continue;
        }
        if (reverse)
            ok = gridmap_fij2xy(gm, a, b, &p, &q);
        else
            ok = gridmap_xy2fij(gm, a, b, &p, &q);
        if (ok && !isnan(p))
            printf("%.15g %.15g %s\n", p, q, rem);
        else if (ok || force)
            printf("NaN NaN %s\n", rem);
        else
            gu_quit("outside");
    }
    if (f != stdin)
        fclose(f);
    gridmap_destroy(gm);
    gridnodes_destroy(gn);
    return 0;
}

/* what a command line asks for; node types by name, case ignored */
static int sp_nodetype(int argc, char* argv[], int i, int centres)
{
    if (i == argc)
        gu_quit("no node type");
    if (!strcasecmp(argv[i], "dd"))
        return NT_DD;
    if (!strcasecmp(argv[i], "co"))
        return NT_COR;
    if (!strcasecmp(argv[i], "ce") && centres)
        return NT_CEN;
    gu_quit("no such node type here");
    return 0;
}

typedef struct {
    char* grid;
    char* points;
} sp_order;

void code_cli(int argc, char* argv[], sp_order* o)
{
    char* g = NULL;
    char* p = NULL;

    parse_commandline(argc, argv, &g, &p);
    o->grid = g;
    o->points = p;
}

void rule_cli(int argc, char* argv[], sp_order* o)
{
    char* g = NULL;
    char* p = NULL;
    int k;

    if (argc < 2)
        usage();
    for (k = 1; k < argc; ++k) {
        char* a = argv[k];

        if (a[0] != '-')
            usage();
        else if (a[1] == 'i')
            nt = sp_nodetype(argc, argv, ++k, 0);
        else if (a[1] == 'f')
            force = 1;
        else if (a[1] == 'g')
            g = argv[++k];
        else if (a[1] == 'o')
            p = argv[++k];
        else if (a[1] == 'k')
            gridmaptype = GRIDMAP_TYPE_KDTREE;
        else if (a[1] == 'r')
            reverse = 1;
        else if (a[1] == 'v')
            gu_verbose = 1;
        else if (a[1] == 'h')
            info();
        else
            usage();
    }
    if (gu_verbose && argc == 2)
        version();
    if (g == NULL || p == NULL)
        usage();
    o->grid = g;
    o->points = p;
}
