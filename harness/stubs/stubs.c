/* Stand-ins for the nn and csa libraries: each interpolator gives a known surface. A step
 * that was left out or done in the wrong order gives a value far away from any expected.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "nn.h"
#include "csa.h"
#include "surface.h"

NN_RULE nn_rule = SIBSON;
char* nn_version = "0";
char* csa_version = "0";
int nn_verbose = 0;

struct delaunay { surface f; };
struct nnpi { delaunay* d; };
struct lpi { delaunay* d; };
struct csa { int n; point* p; int ready; surface f; };

void points_read(char* fname, int dim, int* n, point** points)
{
    FILE* f = (strcmp(fname, "stdin") == 0 || strcmp(fname, "-") == 0) ? stdin : fopen(fname, "r");
    char buf[1024];
    int size = 16;

    if (f == NULL) {
        fprintf(stderr, "error: nn: points_read(): could not open %s\n", fname);
        exit(1);
    }
    *n = 0;
    *points = malloc(size * sizeof(point));
    while (fgets(buf, sizeof(buf), f) != NULL) {
        point p;

        if (buf[0] == '#' || sscanf(buf, "%lf %lf %lf", &p.x, &p.y, &p.z) != dim)
            continue;
        if (*n == size) {
            size *= 2;
            *points = realloc(*points, size * sizeof(point));
        }
        (*points)[(*n)++] = p;
    }
    if (f != stdin)
        fclose(f);
}

static void eval(surface* f, int rule, point* p)
{
    p->z = (f->n < 1 || !(f->s > 0.0) || !(surface_margin(f, rule, p->x, p->y) > 0.0)) ? NAN : surface_value(f, rule, p->x, p->y);
}

delaunay* delaunay_build(int np, point points[], int ns, int segments[], int nh, double holes[])
{
    delaunay* d = malloc(sizeof(delaunay));

    surface_init(&d->f, np, &points[0].x, &points[0].y, &points[0].z, 3);
    if (ns != 0 || nh != 0)
        d->f.mz += 1.0e6;
    return d;
}
void delaunay_destroy(delaunay* d) { free(d); }

nnpi* nnpi_create(delaunay* d)
{
    nnpi* nn = malloc(sizeof(nnpi));

    nn->d = d;
    return nn;
}
void nnpi_destroy(nnpi* nn) { free(nn); }
void nnpi_interpolate_point(nnpi* nn, point* p) { eval(&nn->d->f, nn_rule == SIBSON ? 1 : 2, p); }

lpi* lpi_build(delaunay* d)
{
    lpi* l = malloc(sizeof(lpi));

    l->d = d;
    return l;
}
void lpi_destroy(lpi* l) { free(l); }
void lpi_interpolate_point(lpi* l, point* p) { eval(&l->d->f, 3, p); }

csa* csa_create() { return calloc(1, sizeof(csa)); }
void csa_destroy(csa* a)
{
    free(a->p);
    free(a);
}
void csa_addpoints(csa* a, int n, point points[])
{
    a->p = realloc(a->p, (a->n + n + 1) * sizeof(point));
    memcpy(&a->p[a->n], points, n * sizeof(point));
    a->n += n;
    a->ready = 0;
}
void csa_calculatespline(csa* a)
{
    surface_init(&a->f, a->n, &a->p[0].x, &a->p[0].y, &a->p[0].z, 3);
    a->ready = 1;
}
void csa_approximatepoint(csa* a, point* p)
{
    eval(&a->f, 0, p);
    if (!a->ready)
        p->z = 1.0e9;
}
