/* The surface the stand-in interpolators produce: a known function of the position, of the
 * interpolation rule and of moments of the data, not available (NaN) in part of the plane.
 * Shared by the stand-ins (stubs.c) and the oracle (c23.cpp).
 */
#if !defined(_SURFACE_H)
#define _SURFACE_H
#include <math.h>

typedef struct {
    int n;
    double mx, my, mz, mxz, myz;        /* means */
    double s;                           /* spread */
} surface;

static void surface_init(surface* f, int n, const double* x, const double* y, const double* z, int stride)
{
    int i;

    f->n = n;
    f->mx = f->my = f->mz = f->mxz = f->myz = 0.0;
    f->s = 0.0;
    for (i = 0; i < n; ++i) {
        f->mx += x[i * stride] / n;
        f->my += y[i * stride] / n;
        f->mz += z[i * stride] / n;
    }
    for (i = 0; i < n; ++i) {
        double a = fabs(x[i * stride] - f->mx), b = fabs(y[i * stride] - f->my);

        f->s += (a + b) / n;
        f->mxz += (x[i * stride] - f->mx) * (z[i * stride] - f->mz) / n;
        f->myz += (y[i * stride] - f->my) * (z[i * stride] - f->mz) / n;
    }
}

/* how far the position is into the part where there is a value, in units of the spread */
static double surface_margin(const surface* f, int rule, double x, double y)
{
    double u = (x - f->mx) / f->s, v = (y - f->my) / f->s;

    return 0.8 - sin(3.0 * u + rule) * cos(2.0 * v - rule);
}

static double surface_value(const surface* f, int rule, double x, double y)
{
    double u = (x - f->mx) / f->s, v = (y - f->my) / f->s;

    return f->mz + 100.0 * rule + 7.0 * u + 3.0 * v + (f->mxz * u + f->myz * v) / f->s + (40.0 + 5.0 * rule) * sin((2.0 + rule) * u) + 30.0 * cos((3.0 + rule) * v) + 0.01 * f->n;
}
#endif
