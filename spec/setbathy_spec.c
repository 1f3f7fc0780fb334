/* Rules for the setbathy program. */
#include "given.h"
#define main code_main
#include "setbathy.c"
#undef main

static void sp_echo(FILE* f, char* buf, const char* fname, int line)
{
    if (fgets(buf, BUFSIZE, f) == NULL)
        gu_quit("%s: no line %d", fname, line);
    fputs(buf, stdout);
}

static void sp_line(FILE* f, char* buf, const char* fname, const char* z, int i, int j, int imin, int imax, int jmin, int jmax)
{
    if (fgets(buf, BUFSIZE, f) == NULL)
        gu_quit("%s: no line for (%d,%d)", fname, i, j);
    if (imin <= i && i <= imax && jmin <= j && j <= jmax)
        printf("%s\n", z);
    else
        fputs(buf, stdout);
}

/* flat: one loop over the lines instead of rows and columns; tidy: the input is closed at the end */
static int spec_setbathy(int argc, char* argv[], int flat, int tidy)
{
    char* fname = NULL;
    char* z = NULL;
    int imin = INT_MIN, imax = INT_MAX, jmin = INT_MIN, jmax = INT_MAX;
    int nx = -1, ny = -1, offset = 0;
    int std, i, j, k;
    char buf[BUFSIZE];
    FILE* f;

    parse_commandline(argc, argv, &fname, &imin, &imax, &jmin, &jmax, &nx, &ny, &offset, &z);
    std = strcmp(fname, "stdin") == 0 || strcmp(fname, "-") == 0;
    f = std ? stdin : gu_fopen(fname, "r");

    /* the leading lines go through */
    for (k = 0; k < offset; ++k)
        sp_echo(f, buf, fname, k);

    /* the size comes from -d or from the header */
    if (nx < 0) {
        if (fgets(buf, BUFSIZE, f) == NULL)
            gu_quit("%s: empty", fname);
        if (sscanf(buf, "## %d x %d", &nx, &ny) != 2)
            gu_quit("%s: no header", fname);
    }
    if (nx < 1 || ny < 1 || (double) nx * (double) ny > (double) INT_MAX)
        gu_quit("bad size");

    /* one line per node, row by row: those inside of the range are replaced */
    if (flat)
        for (k = 0; k < nx * ny; ++k)
            sp_line(f, buf, fname, z, k % nx, k / nx, imin, imax, jmin, jmax);
    else
        for (j = 0; j < ny; ++j)
            for (i = 0; i < nx; ++i)
                sp_line(f, buf, fname, z, i, j, imin, imax, jmin, jmax);

    /* the rest goes through */
    while (fgets(buf, BUFSIZE, f) != NULL)
        fputs(buf, stdout);
    if (tidy && f != stdin)
        fclose(f);
    return 0;
}

int rule_setbathy(int argc, char* argv[]) { return spec_setbathy(argc, argv, 0, 0); }
int rule_setbathy__flat(int argc, char* argv[]) { return spec_setbathy(argc, argv, 1, 0); }
int rule_setbathy__tidy(int argc, char* argv[]) { return spec_setbathy(argc, argv, 0, 1); }
int rule_setbathy__flat_tidy(int argc, char* argv[]) { return spec_setbathy(argc, argv, 1, 1); }

static char* sp_operand(int argc, char* argv[], int i)
{
    if (i >= argc)
        gu_quit("nothing follows the option");
    return argv[i];
}

typedef struct {
    char* fname;
    char* z;
    int imin, imax, jmin, jmax, nx, ny, offset;
} sp_order;

void code_cli(int argc, char* argv[], sp_order* o)
{
    char* fname = NULL;
    char* z = NULL;
    int imin = INT_MIN, imax = INT_MAX, jmin = INT_MIN, jmax = INT_MAX, nx = -1, ny = -1, offset = 0;

    parse_commandline(argc, argv, &fname, &imin, &imax, &jmin, &jmax, &nx, &ny, &offset, &z);
    o->fname = fname;
    o->z = z;
    o->imin = imin;
    o->imax = imax;
    o->jmin = jmin;
    o->jmax = jmax;
    o->nx = nx;
    o->ny = ny;
    o->offset = offset;
}

void rule_cli(int argc, char* argv[], sp_order* o)
{
    char* fname = NULL;
    char* z = NULL;
    int imin = INT_MIN, imax = INT_MAX, jmin = INT_MIN, jmax = INT_MAX, nx = -1, ny = -1, offset = 0;
    int k;

    for (k = 1; k < argc; ++k) {
        char* a = argv[k];

        if (a[0] != '-' || a[1] == 0)
            fname = a;
        else if (a[1] == 'v')
            gu_verbose = 1;
        else if (a[1] == 'i')
            sscanf(sp_operand(argc, argv, ++k), "%d:%d", &imin, &imax);
        else if (a[1] == 'j')
            sscanf(sp_operand(argc, argv, ++k), "%d:%d", &jmin, &jmax);
        else if (a[1] == 'd') {
            if (sscanf(sp_operand(argc, argv, ++k), "%dx%d", &nx, &ny) != 2)
                usage();
        } else if (a[1] == 'o')
            offset = atoi(sp_operand(argc, argv, ++k));
        else if (a[1] == 'z')
            z = sp_operand(argc, argv, ++k);
        else
            usage();
    }
    if (gu_verbose && argc == 2)
        version();
    if (fname == NULL || z == NULL)
        usage();
    o->fname = fname;
    o->z = z;
    o->imin = imin;
    o->imax = imax;
    o->jmin = jmin;
    o->jmax = jmax;
    o->nx = nx;
    o->ny = ny;
    o->offset = offset;
}
