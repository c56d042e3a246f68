// Direct sum, in a translation unit of its own so that it can be optimised.
#include "fmm_standin.hpp"
void fmm_monitor::direct_sum(size_t nsrc, const double *const *s, const double *q, size_t ntgt,
                             const double *const *t, double *pot)
    {
    const double *sx = s[0], *sy = s[1], *sz = s[2];
    for (size_t j = 0; j < ntgt; j++)
        {
        double x = t[0][j], y = t[1][j], z = t[2][j], v = 0;
        for (size_t i = 0; i < nsrc; i++)
            {
            double dx = sx[i] - x, dy = sy[i] - y, dz = sz[i] - z;
            v += q[i] / __builtin_sqrt(dx * dx + dy * dy + dz * dz);
            }
        pot[j] = v;
        }
    }
