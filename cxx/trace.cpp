// Trace unit, linked into the real solver with --wrap (see lib/fgbuild.py): one event per call of
// LinAlgebra::solve, i.e. per integration attempt, with the state before and after it.
//   FG_FAIL_AT=n1,n2,..  these calls (1-based) report a solver failure, leaving the nodes alone
//   FG_FAIL_FROM=n       every call from the n-th on fails
//   FG_SIG_SOLVE=n:sig   signal raised before the solve of the n-th call
//   FG_STATE=path        magnetization before (CURRENT) and after (NEXT) each call, in mesh order
#include <math.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include "linear_algebra.h"
#include "time_integration.h"

namespace fmm_monitor { void event(const char *json); }

static unsigned long long mix(unsigned long long h, const double *p, int n)
    {
    for (int i = 0; i < n; i++)
        {
        unsigned long long x;
        memcpy(&x, p + i, 8);
        h = (h ^ x) * 1099511628211ull;
        h ^= h >> 29;
        }
    return h;
    }

struct State
    {
    unsigned long long hash = 14695981039346656037ull;
    double norm = 0;   // largest | |u| - 1 |
    long nan = 0;      // magnetic nodes with a nan
    };

static State look(const LinAlgebra *a, int step)
    {
    State s;
    for (int i = 0; i < a->NOD; i++)
        {
        if (!a->msh->magNode[i]) continue;
        const Eigen::Vector3d &u = a->msh->node[i].d[step].u;
        s.hash = mix(s.hash, u.data(), 3);
        double d = fabs(u.norm() - 1);
        if (d != d) s.nan++;
        else if (d > s.norm) s.norm = d;
        }
    return s;
    }

static bool listed(long n)
    {
    const char *p = getenv("FG_FAIL_AT");
    while (p && *p)
        {
        char *e;
        long v = strtol(p, &e, 10);
        if (e == p) break;
        if (v == n) return true;
        p = *e ? e + 1 : e;
        }
    p = getenv("FG_FAIL_FROM");
    return p && n >= atol(p);
    }

static void dump(const LinAlgebra *a, long n, char phase, double t, int step)
    {
    static FILE *f = getenv("FG_STATE") ? fopen(getenv("FG_STATE"), "w") : nullptr;
    if (!f) return;
    fprintf(f, "%ld %c %.17g", n, phase, t);
    for (int i = 0; i < a->NOD; i++)
        {
        const int k = a->msh->getNodeIndex(i);
        const Eigen::Vector3d &u = a->msh->node[k].d[step].u;
        if (a->msh->magNode[k]) fprintf(f, " %.10g %.10g %.10g", u[0], u[1], u[2]);
        else fprintf(f, " nan nan nan");
        }
    fputc('\n', f);
    fflush(f);
    }

extern "C" bool __real__ZN10LinAlgebra5solveERK6timing(LinAlgebra *, const timing &);

extern "C" bool __wrap__ZN10LinAlgebra5solveERK6timing(LinAlgebra *self, const timing &t)
    {
    static long n = 0;
    n++;
    const State cur = look(self, Nodes::CURRENT);
    const State nxt0 = look(self, Nodes::NEXT);
    const double tt = t.get_t(), dt = t.get_dt();
    const bool injected = listed(n);
    dump(self, n, 'a', tt, Nodes::CURRENT);
    if (const char *p = getenv("FG_SIG_SOLVE"))
        {
        long k = 0;
        int sig = 0;
        if (sscanf(p, "%ld:%d", &k, &sig) == 2 && k == n) raise(sig);
        }
    const bool err = injected ? true : __real__ZN10LinAlgebra5solveERK6timing(self, t);
    const State cur1 = look(self, Nodes::CURRENT);
    const State nxt = look(self, Nodes::NEXT);
    double tang = 0, upd = 0, vmax = 0, move = 0;
    if (!err)
        for (int i = 0; i < self->NOD; i++)
            {
            if (!self->msh->magNode[i]) continue;
            const auto &d = self->msh->node[i].d;
            const Eigen::Vector3d &u = d[Nodes::CURRENT].u, &v = d[Nodes::NEXT].v,
                                  &w = d[Nodes::NEXT].u;
            vmax = fmax(vmax, v.norm());
            if (v.norm() > 0) tang = fmax(tang, fabs(v.dot(u)));
            Eigen::Vector3d x = u + dt * v;
            x.normalize();
            upd = fmax(upd, (x - w).norm());
            move = fmax(move, (w - u).norm());
            }
    double res = 0;  // true residual of the linear system, relative to its right-hand side
    if (!err)
        {
        std::vector<double> y(self->Xw.size());
        self->K.mult(self->Xw, y);
        std::vector<char> dir(y.size(), 0);
        for (int i : self->lvd) dir[i] = 1;
        double r2 = 0, b2 = 0;
        for (size_t i = 0; i < y.size(); i++)
            if (!dir[i])
                {
                r2 += (y[i] - self->L_rhs[i]) * (y[i] - self->L_rhs[i]);
                b2 += self->L_rhs[i] * self->L_rhs[i];
                }
        res = b2 > 0 ? sqrt(r2 / b2) : sqrt(r2);
        }
    char b[1000];
    snprintf(b, sizeof b,
             "{\"ev\":\"solve\",\"n\":%ld,\"t\":\"%.17g\",\"dt\":\"%.17g\",\"err\":%d,\"inj\":%d,"
             "\"hc\":\"%llx\",\"hc1\":\"%llx\",\"hn0\":\"%llx\",\"hn\":\"%llx\",\"cnorm\":\"%.3g\","
             "\"nnorm\":\"%.3g\",\"cnan\":%ld,\"nnan\":%ld,\"tang\":\"%.6g\",\"upd\":\"%.3g\","
             "\"vmax\":\"%.17g\",\"said\":\"%.17g\",\"move\":\"%.17g\",\"res\":\"%.6g\"}",
             n, tt, dt, (int) err, (int) injected, cur.hash, cur1.hash, nxt0.hash, nxt.hash,
             cur.norm, nxt.norm, cur.nan, nxt.nan, tang, upd, vmax, self->get_v_max(), move, res);
    fmm_monitor::event(b);
    dump(self, n, 'b', tt + dt, Nodes::NEXT);
    return err;
    }
