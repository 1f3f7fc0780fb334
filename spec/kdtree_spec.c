/* Rules for the kd-tree. */
#include "given.h"
#include "kdtree.c"

/* ---- life ------------------------------------------------------------------ */
kdtree* code_create(int ndim) { return kd_create(ndim); }
kdtree* rule_create(int ndim)
{
    kdtree* t = malloc(sizeof(kdtree));
    double* box = malloc(2 * ndim * sizeof(double));
    int d;

    t->min = box;
    t->max = box + ndim;
    t->ndim = ndim;
    t->nodes = NULL;
    t->coords = NULL;
    t->nnodes = t->nallocated = 0;
    for (d = 0; d < ndim; ++d) {
        box[d] = DBL_MAX;
        box[ndim + d] = -DBL_MAX;
    }
    return t;
}

void code_destroy(kdtree* t) { kd_destroy(t); }
void rule_destroy(kdtree* t)
{
    given(t->nallocated > 0);
    free(t->nodes);
    free(t->coords);
    free(t->min);
    free(t);
}
void code_destroy_empty(kdtree* t) { kd_destroy(t); }
void rule_destroy_empty(kdtree* t)
{
    given(t->nallocated == 0);
    given(t->nodes == NULL && t->coords == NULL);
    free(t->min);
    free(t);
}

/* ---- insertion ------------------------------------------------------------- */
/* From the root, a point smaller in the direction of the node goes left, any other right; directions alternate with
 * depth; the new node becomes a leaf and remembers its number. */
static void sp_hang(kdtree* t, const double* c, size_t orig)
{
    size_t* link = &t->nodes[0].id;
    int dir = 0;
    kdnode* nu;
    size_t k;

    while (*link != SIZE_MAX) {
        kdnode* p = &t->nodes[*link];

        dir = (p->dir + 1) % t->ndim;
        if (c[p->dir] < t->coords[p->id * t->ndim + p->dir])
            link = &p->left;
        else
            link = &p->right;
    }
    k = t->nnodes;
    memcpy(t->coords + k * t->ndim, c, t->ndim * sizeof(double));
    nu = t->nodes + k;
    nu->id = k;
    nu->id_orig = orig;
    nu->dir = dir;
    nu->left = nu->right = SIZE_MAX;
    *link = nu->id;
}

static void sp_widen(kdtree* t, const double* c)
{
    int d;

    for (d = 0; d < t->ndim; ++d) {
        if (c[d] < t->min[d])
            t->min[d] = c[d];
        if (c[d] > t->max[d])
            t->max[d] = c[d];
    }
}

static void sp_room(kdtree* t, size_t n)
{
    t->nallocated = n;
    t->nodes = realloc(t->nodes, n * sizeof(kdnode));
    t->coords = realloc(t->coords, n * t->ndim * sizeof(double));
}

void code_insert(kdtree* t, const double* c, size_t orig) { kd_insertnode(t, c, orig); }
void rule_insert(kdtree* t, const double* c, size_t orig)
{
    if (!isfinite(c[0]))
        return;
    if (t->nnodes == t->nallocated) {
        sp_room(t, t->nallocated ? 2 * t->nallocated : 1024);
        if (t->nnodes == 0)
            t->nodes[0].id = SIZE_MAX;
    }
    sp_hang(t, c, orig);
    sp_widen(t, c);
    t->nnodes++;
}

/* A bulk insertion takes the points in order, or in a fixed shuffled order, and numbers them by position. */
static void sp_bulk(kdtree* t, size_t n, double** src, int shuffled, int early)
{
    int before = t->nnodes;
    size_t* order = NULL;
    double* c;
    size_t k, d;

    if (n == 0)
        return;
    if (t->nallocated - t->nnodes < n) {
        sp_room(t, t->nallocated + n);
        if (t->nallocated == n)
            t->nodes[0].id = SIZE_MAX;
    }
    if (shuffled) {
        order = malloc(n * sizeof(size_t));
        for (k = 0; k < n; ++k)
            order[k] = k;
        srand48(5555);
        for (k = 0; k < n; ++k) {
            size_t m = (size_t) (drand48() * n);
            size_t x = order[k];

            order[k] = order[m];
            order[m] = x;
        }
    }
    c = malloc(t->ndim * sizeof(double));
    for (k = 0; k < n; ++k) {
        int p = shuffled ? order[k] : k;

        if (early && !isfinite(src[0][p]))
            continue;
        for (d = 0; d < t->ndim; ++d)
            c[d] = src[d][p];
        if (early || isfinite(c[0])) {
            sp_hang(t, c, p + before);
            t->nnodes++;
            for (d = 0; d < t->ndim; ++d) {
                if (c[d] < t->min[d])
                    t->min[d] = c[d];
                if (c[d] > t->max[d])
                    t->max[d] = c[d];
            }
        }
    }
    if (shuffled)
        free(order);
    free(c);
}
void code_bulk_order(kdtree* t, size_t n, double** src) { given((long) n >= 0); kd_insertnodes(t, n, src, 0); }
void rule_bulk_order(kdtree* t, size_t n, double** src) { given((long) n >= 0); sp_bulk(t, n, src, 0, 0); }
void rule_bulk_order__early(kdtree* t, size_t n, double** src) { given((long) n >= 0); sp_bulk(t, n, src, 0, 1); }
void code_bulk_shuffled(kdtree* t, size_t n, double** src) { given((long) n >= 0); kd_insertnodes(t, n, src, 1); }
void rule_bulk_shuffled(kdtree* t, size_t n, double** src) { given((long) n >= 0); sp_bulk(t, n, src, 1, 0); }
void rule_bulk_shuffled__early(kdtree* t, size_t n, double** src) { given((long) n >= 0); sp_bulk(t, n, src, 1, 1); }

/* ---- nearest node ---------------------------------------------------------- */
static double sp_away(const double* a, const double* b, int ndim)
{
    double s = 0.0;
    int d;

    for (d = 0; d < ndim; ++d)
        s += (a[d] - b[d]) * (a[d] - b[d]);
    return s;
}

size_t code_nearest(const kdtree* t, const double* c) { return kd_findnearestnode(t, c); }
size_t rule_nearest(const kdtree* t, const double* c)
{
    size_t best;
    double dist;
    double* box;
    int d;

    if (t->nnodes == 0)
        return SIZE_MAX;
    box = malloc(2 * t->ndim * sizeof(double));
    for (d = 0; d < 2 * t->ndim; ++d)
        box[d] = t->min[d];
    dist = sp_away(t->coords, c, t->ndim);
    _kd_findnearestnode(t, 0, c, &best, &dist, box);
    free(box);
    return best;
}

/* One step: the side of the point first, with the box cut at the node; then the node itself; then the other side if
 * its box is closer than the best so far.  The box is as it was afterwards. */
void rule_nearstep(const kdtree* t, const size_t k, const double* c, size_t* best, double* dist, double* box)
{
    const kdnode* n = t->nodes + k;
    const double* pc = t->coords + k * t->ndim;
    int isleft = c[n->dir] - pc[n->dir] <= 0.0;
    size_t side[2];
    double* wall[2];
    double old, d2;

    side[0] = isleft ? n->left : n->right;
    side[1] = isleft ? n->right : n->left;
    wall[0] = isleft ? box + t->ndim + n->dir : box + n->dir;
    wall[1] = isleft ? box + n->dir : box + t->ndim + n->dir;

    if (side[0] != SIZE_MAX) {
        old = *wall[0];
        *wall[0] = pc[n->dir];
        _kd_findnearestnode(t, side[0], c, best, dist, box);
        *wall[0] = old;
    }
    d2 = sp_away(pc, c, t->ndim);
    if (d2 <= *dist) {
        *best = k;
        *dist = d2;
    }
    if (side[1] != SIZE_MAX) {
        double s = 0.0;
        int d;

        old = *wall[1];
        *wall[1] = pc[n->dir];
        for (d = 0; d < t->ndim; ++d) {
            if (c[d] < box[d])
                s += (box[d] - c[d]) * (box[d] - c[d]);
            else if (c[d] > box[t->ndim + d])
                s += (box[t->ndim + d] - c[d]) * (box[t->ndim + d] - c[d]);
        }
        if (s < *dist)
            _kd_findnearestnode(t, side[1], c, best, dist, box);
        *wall[1] = old;
    }
}

/* ---- nodes in range -------------------------------------------------------- */
static void sp_note(kdset* s, size_t k, double dist, int ordered)
{
    resnode* r = malloc(sizeof(resnode));

    r->id = k;
    r->dist = dist;
    if (s->root == NULL) {
        s->root = r;
        s->toread = NULL;
        s->size = 0;
        s->beingread = 0;
        r->next = NULL;
    } else if (ordered && s->root->dist > dist) {
        r->next = s->root;
        s->root = r;
    } else {
        resnode* a = s->root;

        if (ordered)
            while (a->next && a->next->dist < dist)
                a = a->next;
        r->next = a->next;
        a->next = r;
    }
}

kdset* code_range(const kdtree* t, const double* c, double range, int ordered) { return kd_findnodeswithinrange(t, c, range, ordered); }
kdset* rule_range(const kdtree* t, const double* c, double range, int ordered)
{
    kdset* s = malloc(sizeof(kdset));

    s->root = NULL;
    s->size = 0;
    s->size = _kd_findnodeswithinrange(t, t->nnodes ? 0 : -1, c, range, s, ordered);
    return s;
}

int rule_rangestep(const kdtree* t, int k, const double* c, double range, kdset* s, int ordered)
{
    const kdnode* n;
    const double* pc;
    double d2, dx;
    int found = 0;

    if (k < 0)
        return 0;
    n = t->nodes + k;
    pc = t->coords + n->id * t->ndim;
    d2 = sp_away(pc, c, t->ndim);
    if (d2 <= range * range) {
        sp_note(s, k, d2, ordered);
        found = 1;
    }
    dx = c[n->dir] - pc[n->dir];
    found += _kd_findnodeswithinrange(t, (dx <= 0.0) ? n->left : n->right, c, range, s, ordered);
    if (fabs(dx) <= range)
        found += _kd_findnodeswithinrange(t, (dx <= 0.0) ? n->right : n->left, c, range, s, ordered);
    return found;
}

/* ---- results and access ---------------------------------------------------- */
size_t code_read(kdset* s, double* dist) { return kdset_read(s, dist); }
size_t rule_read(kdset* s, double* dist)
{
    if (s && s->root) {
        if (!s->beingread) {
            s->beingread = 1;
            s->toread = s->root;
        }
        if (s->toread) {
            resnode* r = s->toread;

            s->toread = r->next;
            *dist = sqrt(r->dist);
            return r->id;
        }
    }
    *dist = NAN;
    return SIZE_MAX;
}

void code_drop(kdset* s) { kdset_free(s); }
void rule_drop(kdset* s)
{
    resnode* r;

    if (!s)
        return;
    for (r = s->root; r;) {
        resnode* n = r->next;

        free(r);
        r = n;
    }
    s->root = NULL;
    s->size = 0;
    free(s);
}
size_t code_count(const kdset* s) { return kdset_getsize(s); }
size_t rule_count(const kdset* s) { return s->size; }
size_t code_size(kdtree* t) { return kd_getsize(t); }
size_t rule_size(kdtree* t) { return t->nnodes; }
double* code_coords(const kdtree* t, size_t k) { return kd_getnodecoords(t, k); }
double* rule_coords(const kdtree* t, size_t k) { return t->coords + k * t->ndim; }
size_t code_orig(const kdtree* t, size_t k) { given(t->nodes[k].id_orig <= INT32_MAX); return kd_getnodeorigid(t, k); }
size_t rule_orig(const kdtree* t, size_t k) { given(t->nodes[k].id_orig <= INT32_MAX); return t->nodes[k].id_orig; }
double* code_box(const kdtree* t) { return kd_getminmax(t); }
double* rule_box(const kdtree* t) { return t->min; }
