/* Rules for the shared helpers: mask files, matrices, opening of files. */
#include "given.h"
#include "gucommon.c"

/* ---- mask files: one 0 or 1 per line, in row order -------------------------- */
static int spec_maskvalue(char* line, int zerofirst)
{
    int end = (int) strcspn(line, "\n");

    line[end] = 0;
    if (zerofirst) {
        if (strcmp(line, "0") == 0)
            return 0;
        if (strcmp(line, "1") != 0)
            gu_quit("neither 0 nor 1");
        return 1;
    }
    if (strcmp(line, "1") == 0)
        return 1;
    if (strcmp(line, "0") != 0)
        gu_quit("neither 0 nor 1");
    return 0;
}

static int** spec_readmask(FILE* f, int nx, int ny, int zerofirst)
{
    int** m = gu_alloc2d(ny, nx, sizeof(int));
    int i, j, ones = 0;

    for (j = 0; j < ny; ++j)
        for (i = 0; i < nx; ++i) {
            char line[BUFSIZE];

            if (fgets(line, BUFSIZE, f) == NULL)
                gu_quit("too short");
            m[j][i] = spec_maskvalue(line, zerofirst);
            if (m[j][i])
                ++ones;
        }
    if (f != stdin)
        fclose(f);
    if (gu_verbose)
        fprintf(stderr, "## mask: %d valid cells (%.1f%%), %d masked cells (%.1f%%)\n", ones, 100.0 * ones / (nx * ny), nx * ny - ones, 100.0 * (nx * ny - ones) / (nx * ny));
    return m;
}

int** code_mask_stdin(int nx, int ny) { return gu_readmask("stdin", nx, ny); }
int** rule_mask_stdin(int nx, int ny) { return spec_readmask(stdin, nx, ny, 0); }
int** rule_mask_stdin__zero(int nx, int ny) { return spec_readmask(stdin, nx, ny, 1); }
int** code_mask_dash(int nx, int ny) { return gu_readmask("-", nx, ny); }
int** rule_mask_dash(int nx, int ny) { return spec_readmask(stdin, nx, ny, 0); }
int** rule_mask_dash__zero(int nx, int ny) { return spec_readmask(stdin, nx, ny, 1); }

int** code_mask_file(char* fname, int nx, int ny)
{
    given(strcasecmp(fname, "stdin") != 0 && strcmp(fname, "-") != 0);
    return gu_readmask(fname, nx, ny);
}

int** rule_mask_file(char* fname, int nx, int ny)
{
    FILE* f;

    given(strcasecmp(fname, "stdin") != 0 && strcmp(fname, "-") != 0);
    f = gu_fopen(fname, "r");
    return spec_readmask(f, nx, ny, 0);
}

int** rule_mask_file__zero(char* fname, int nx, int ny)
{
    FILE* f;

    given(strcasecmp(fname, "stdin") != 0 && strcmp(fname, "-") != 0);
    f = gu_fopen(fname, "r");
    return spec_readmask(f, nx, ny, 1);
}

/* ---- matrices: one block, row pointers first, rows packed, all zero ---------- */
void* code_matrix(size_t nj, size_t ni, size_t unitsize) { given((long) nj >= 0 && (long) ni >= 0); return gu_alloc2d(nj, ni, unitsize); }

void* rule_matrix(size_t nj, size_t ni, size_t unitsize)
{
    size_t all = nj * (sizeof(void*) + ni * unitsize);
    char* block;
    char* row;
    size_t j;

    given((long) nj >= 0 && (long) ni >= 0);
    if (nj == 0 || ni == 0)
        gu_quit("empty");
    block = malloc(all);
    if (block == NULL)
        gu_quit("no storage");
    memset(block, 0, all);
    row = block + nj * sizeof(void*);
    for (j = 0; j < nj; ++j)
        ((void**) block)[j] = row + j * (ni * unitsize);
    return block;
}

void code_dropmatrix(void* m) { gu_free2d(m); }
void rule_dropmatrix(void* m) { free(m); }

FILE* code_open(const char* path, const char* mode) { return gu_fopen(path, mode); }

FILE* rule_open(const char* path, const char* mode)
{
    FILE* f = fopen(path, mode);

    if (f == NULL)
        gu_quit("cannot open");
    return f;
}
