/* Rules for polylines and polygons. */
#include "given.h"
#include "poly.c"

static void sp_include_point(extent* e, double x, double y)
{
    if (e->xmin > x)
        e->xmin = x;
    if (e->xmax < x)
        e->xmax = x;
    if (e->ymin > y)
        e->ymin = y;
    if (e->ymax < y)
        e->ymax = y;
}

static void sp_bound_all(poly* p)
{
    int i;

    p->e.xmin = p->e.ymin = DBL_MAX;
    p->e.xmax = p->e.ymax = -DBL_MAX;
    for (i = 0; i < p->n; ++i)
        sp_include_point(&p->e, p->x[i], p->y[i]);
}

static void sp_make_room(poly* p)
{
    if (p->n == p->nallocated) {
        p->nallocated = p->nallocated > 0 ? 2 * p->nallocated : 4;
        p->x = realloc(p->x, p->nallocated * sizeof(double));
        p->y = realloc(p->y, p->nallocated * sizeof(double));
    }
}

static void spec_add(poly* p, double x, double y)
{
    if (isnan(x) || isnan(y))
        gu_quit("NaN");
    sp_make_room(p);
    p->x[p->n] = x;
    p->y[p->n] = y;
    p->n++;
    sp_include_point(&p->e, x, y);
}

/* ---- point in polygon ----------------------------------------------------- */
/* Crossing number of the ray to the right, in half-crossings: an edge that ends on the
 * ray counts +1 or -1 by its vertical direction.  Points on an edge are inside. */
int rule_contains(poly* p, double x, double y)
{
    int halves = 0;
    int i;

    if (p->n <= 1)
        return 0;
    if (!(x >= p->e.xmin && x <= p->e.xmax && y >= p->e.ymin && y <= p->e.ymax))
        return 0;
    for (i = 0; i < p->n; ++i) {
        int k = (i + 1) % p->n;
        double ax = p->x[i] - x, ay = p->y[i] - y;
        double bx = p->x[k] - x, by = p->y[k] - y;

        if (ay == 0.0 && by == 0.0) {
            if (ax * bx <= 0.0)
                return 1;
        } else if (ay == 0.0) {
            if (ax == 0.0)
                return 1;
            if (ax > 0.0)
                halves += by > 0.0 ? 1 : -1;
        } else if (by == 0.0) {
            if (bx == 0.0)
                return 1;
            if (bx > 0.0)
                halves += ay < 0.0 ? 1 : -1;
        } else if (ay * by < 0.0) {
            if (ax > 0.0 && bx > 0.0)
                halves += 2;
            else if (ax * bx <= 0.0) {
                double cross = ax - (bx - ax) * ay / (by - ay);

                if (cross == 0.0)
                    return 1;
                if (cross > 0.0)
                    halves += 2;
            }
        }
    }
    return (halves / 2) % 2 != 0;
}

int code_contains(poly* p, double x, double y) { return poly_containspoint(p, x, y) != 0; }

int rule_isclosed(poly* p, double eps)
{
    int k = p->n - 1;

    return p->n > 1 && fabs(p->x[0] - p->x[k]) <= eps && fabs(p->y[0] - p->y[k]) <= eps;
}

int code_isclosed(poly* p, double eps) { return poly_isclosed(p, eps) != 0; }

int rule_findindex(poly* p, double x, double y)
{
    int i;

    for (i = 0; i < p->n; ++i)
        if (p->x[i] == x && p->y[i] == y)
            return i;
    return -1;
}

int code_findindex(poly* p, double x, double y) { return poly_findindex(p, x, y); }

/* ---- editing -------------------------------------------------------------- */
poly* code_create(void) { return poly_create(); }
poly* rule_create(void)
{
    poly* p = malloc(sizeof(poly));

    p->x = malloc(4 * sizeof(double));
    p->y = malloc(4 * sizeof(double));
    p->n = 0;
    p->nallocated = 4;
    sp_bound_all(p);
    return p;
}

void code_add(poly* p, double x, double y) { poly_addpoint(p, x, y); }
void rule_add(poly* p, double x, double y) { spec_add(p, x, y); }

void code_addat(poly* p, int k, double x, double y) { poly_addpointat(p, k, x, y); }
void rule_addat(poly* p, int k, double x, double y)
{
    if (k < 0)
        return;
    if (k >= p->n) {
        spec_add(p, x, y);
        return;
    }
    sp_make_room(p);
    memmove(p->x + k + 1, p->x + k, (p->n - k) * sizeof(double));
    memmove(p->y + k + 1, p->y + k, (p->n - k) * sizeof(double));
    p->x[k] = x;
    p->y[k] = y;
    p->n++;
    sp_include_point(&p->e, x, y);
}

void code_append(poly* p, poly* q) { given(p != q); poly_append(p, q); }
#define APPEND(name, grow) \
void name(poly* p, poly* q) \
{ \
    given(p != q); \
    { \
        int cap = p->nallocated; \
        grow \
        p->nallocated = cap; \
    } \
    memcpy(p->x + p->n, q->x, q->n * sizeof(double)); \
    memcpy(p->y + p->n, q->y, q->n * sizeof(double)); \
    p->n += q->n; \
    sp_bound_all(p); \
}
#define MORE cap = cap > 0 ? 2 * cap : 4
#define MOVE do { p->x = realloc(p->x, cap * sizeof(double)); p->y = realloc(p->y, cap * sizeof(double)); } while (0)
APPEND(rule_append, while (cap < p->n + q->n) MORE; if (cap != p->nallocated) MOVE;)
APPEND(rule_append__when, { int grown = cap < p->n + q->n; while (cap < p->n + q->n) MORE; if (grown) MOVE; })
APPEND(rule_append__peeled, if (cap < p->n + q->n) { do MORE; while (cap < p->n + q->n); MOVE; })

double code_area(poly* p) { return poly_area(p); }
double rule_area(poly* p)
{
    double twice = 0.0;
    int i;

    for (i = 0; i < p->n; ++i) {
        int k = (i + 1) % p->n;

        twice += (p->x[i] - p->x[k]) * (p->y[i] + p->y[k]);
    }
    return 0.5 * twice;
}

void code_clear(poly* p) { poly_clear(p); }
void rule_clear(poly* p)
{
    p->n = 0;
    p->e.xmin = p->e.ymin = DBL_MAX;
    p->e.xmax = p->e.ymax = -DBL_MAX;
}

poly* code_copypoly(poly* p) { return poly_copy(p); }
poly* rule_copypoly(poly* p)
{
    poly* q = malloc(sizeof(poly));

    q->n = p->n;
    q->nallocated = p->nallocated;
    q->e.xmin = p->e.xmin;
    q->e.xmax = p->e.xmax;
    q->e.ymin = p->e.ymin;
    q->e.ymax = p->e.ymax;
    q->x = malloc(p->nallocated * sizeof(double));
    q->y = malloc(p->nallocated * sizeof(double));
    memcpy(q->x, p->x, p->n * sizeof(double));
    memcpy(q->y, p->y, p->n * sizeof(double));
    return q;
}

void code_close(poly* p) { given(p->n >= 1); poly_close(p); }
void rule_close(poly* p)
{
    given(p->n >= 1);
    if (!rule_isclosed(p, 0.0))
        spec_add(p, p->x[0], p->y[0]);
}

void code_delete(poly* p, int k) { poly_deletepoint(p, k); }
void rule_delete(poly* p, int k)
{
    double x = p->x[k], y = p->y[k];

    memmove(p->x + k, p->x + k + 1, (p->n - k - 1) * sizeof(double));
    memmove(p->y + k, p->y + k + 1, (p->n - k - 1) * sizeof(double));
    p->n--;
    if (p->e.xmin == x || p->e.xmax == x || p->e.ymin == y || p->e.ymax == y)
        sp_bound_all(p);
}

void code_destroypoly(poly* p) { poly_destroy(p); }
void rule_destroypoly(poly* p) { free(p->x); free(p->y); free(p); }

/* the first point stays; each later point is kept if it passes the test against the last one kept */
#define FILTER(name, test) \
void rule_##name(poly* p, double d) \
{ \
    double* x = p->x; \
    double* y = p->y; \
    int i, last = 0; \
    if (p->n <= 1) \
        return; \
    for (i = 1; i < p->n; ++i) \
        if (test) { \
            ++last; \
            x[last] = x[i]; \
            y[last] = y[i]; \
        } \
    if (p->n != last + 1) { \
        p->n = last + 1; \
        sp_bound_all(p); \
    } \
}

FILTER(resample, !(fabs(x[last] - x[i]) <= d && fabs(y[last] - y[i]) <= d))
FILTER(despike, hypot(x[last] - x[i], y[last] - y[i]) < d)
void code_resample(poly* p, double d) { poly_resample(p, d); }
void code_despike(poly* p, double d) { poly_despike(p, d); }

void code_reverse(poly* p) { poly_reverse(p); }
void rule_reverse(poly* p)
{
    int i;

    if (p->n <= 1)
        return;
    for (i = 0; i < p->n / 2; ++i) {
        double tx = p->x[i], ty = p->y[i];

        p->x[i] = p->x[p->n - 1 - i];
        p->y[i] = p->y[p->n - 1 - i];
        p->x[p->n - 1 - i] = tx;
        p->y[p->n - 1 - i] = ty;
    }
}

/* ---- text form ------------------------------------------------------------ */
void code_writepoly(poly* p, FILE* f) { poly_write(p, f); }
void rule_writepoly(poly* p, FILE* f)
{
    int i;

    fprintf(f, "## %d\n", p->n);
    for (i = 0; i < p->n; ++i)
        fprintf(f, "%.15g %.15g\n", p->x[i], p->y[i]);
}

static int sp_blank(char* s)
{
    for (; *s && isspace(*s); ++s)
        ;
    return *s == 0;
}

int code_readpoly(poly* p, FILE* f) { return poly_read(p, f); }
int rule_readpoly(poly* p, FILE* f)
{
    char line[2048];
    double x, y;
    char* s;

    /* leading comments and blank lines are skipped; the points end at the first line without two numbers */
    do {
        s = fgets(line, 2048, f);
    } while (s && (line[0] == '#' || sp_blank(line)));
    if (s == NULL)
        return 0;
    while (sscanf(line, "%lf %lf", &x, &y) == 2) {
        spec_add(p, x, y);
        if (fgets(line, 2048, f) == NULL)
            break;
    }
    return p->n;
}

/* ---- removal of redundant points ------------------------------------------ */
static int sp_same(poly* p, int a, int b, double eps)
{
    return fabs(p->x[a] - p->x[b]) <= eps && fabs(p->y[a] - p->y[b]) <= eps;
}

static int sp_collinear(poly* p, int a, int b, int c, double eps)
{
    return fabs((p->x[a] - p->x[b]) * (p->y[c] - p->y[b]) - (p->x[c] - p->x[b]) * (p->y[a] - p->y[b])) <= eps;
}

void code_compact(poly* p, double eps) { poly_compact(p, eps); }
void rule_compact(poly* p, double eps)
{
    int n = p->n;
    int left = n - 1, mid = 0, right = 1, kept = 0;
    int* id;
    int i;

    if (n <= 4)
        return;
    id = malloc(n * sizeof(int));
    for (i = 0; i < n - 1 && sp_same(p, left, 0, eps); ++i)
        --left;
    for (i = 0; i < n; ++i) {
        if (!sp_same(p, right, mid, eps)) {
            if (!sp_collinear(p, left, mid, right, eps)) {
                id[kept] = mid;
                ++kept;
                left = mid;
            }
            mid = right;
        }
        right = (right + 1) % n;
    }
    if (kept != n) {
        for (i = 0; i < kept; ++i) {
            p->x[i] = p->x[id[i]];
            p->y[i] = p->y[id[i]];
        }
        p->n = kept;
    }
    free(id);
    p->x = realloc(p->x, p->n * sizeof(double));
    p->y = realloc(p->y, p->n * sizeof(double));
    p->nallocated = p->n;
}

/* ---- boundary of a grid ---------------------------------------------------- */
/* The trace starts at the first present node in row order, heading down, and at every node turns as far to the left
 * as present nodes allow; it ends back at the start or in a dead end. */
static int sp_step_i(int d) { int s[] = { 0, 1, 0, -1 }; return s[d]; }
static int sp_step_j(int d) { int s[] = { 1, 0, -1, 0 }; return s[d]; }
#define PRESENT (ni >= 0 && nj >= 0 && ni <= nce1 && nj <= nce2 && !isnan(x[nj][ni]))
#define LOOK ni = i + sp_step_i(d); nj = j + sp_step_j(d);
#define TURN_ONE LOOK while (!PRESENT && d != back) { d = (d + 1) % 4; LOOK }
#define TURN_TWO for (;;) { LOOK if (PRESENT) break; if (d == back) break; d = (d + 1) % 4; }
#define TRACE(name, NODEX, NODEY, TURN) \
static poly* name(int nce1, int nce2, double** x, double** y) \
{ \
    poly* pl = poly_create(); \
    int i, j, i0, j0, d = 0; \
    for (j = 0; j < nce2 + 1; ++j) \
        for (i = 0; i < nce1 + 1; ++i) \
            if (!isnan(x[j][i])) \
                goto start; \
  start: \
    if (j == nce2 + 1) \
        return pl; \
    i0 = i; \
    j0 = j; \
    poly_addpoint(pl, NODEX, NODEY); \
    do { \
        int back = (d + 2) % 4; \
        int ni, nj; \
        d = (d + 3) % 4; \
        TURN \
        if (d == back) \
            break; \
        i = ni; \
        j = nj; \
        poly_addpoint(pl, NODEX, NODEY); \
    } while (i != i0 || j != j0); \
    poly_close(pl); \
    return pl; \
}
TRACE(trace_xy, x[j][i], y[j][i], TURN_ONE)
TRACE(trace_ij, i, j, TURN_ONE)
TRACE(trace_xy_two, x[j][i], y[j][i], TURN_TWO)
TRACE(trace_ij_two, i, j, TURN_TWO)
poly* rule_bound__two(int nce1, int nce2, double** x, double** y) { given(nce1 >= 0 && nce2 >= 0 && x != NULL && y != NULL); return trace_xy_two(nce1, nce2, x, y); }
poly* rule_boundij__two(int nce1, int nce2, double** x) { given(nce1 >= 0 && nce2 >= 0); return trace_ij_two(nce1, nce2, x, x); }
poly* code_bound(int nce1, int nce2, double** x, double** y) { given(nce1 >= 0 && nce2 >= 0 && x != NULL && y != NULL); return poly_formbound(nce1, nce2, x, y); }
poly* rule_bound(int nce1, int nce2, double** x, double** y) { given(nce1 >= 0 && nce2 >= 0 && x != NULL && y != NULL); return trace_xy(nce1, nce2, x, y); }
poly* code_boundij(int nce1, int nce2, double** x) { given(nce1 >= 0 && nce2 >= 0); return poly_formboundij(nce1, nce2, x); }
poly* rule_boundij(int nce1, int nce2, double** x) { given(nce1 >= 0 && nce2 >= 0); return trace_ij(nce1, nce2, x, x); }
