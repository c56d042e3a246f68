// Instrumented side of the ScalFMM stand-in: event log, fault injection, direct sum.
//   FG_MON=<file>        append one JSON line per event
//   FG_MON_DUMP=<prefix> write every FMM evaluation (sources, charges, targets, potentials) to
//                        <prefix><n>.bin (doubles)
//   FG_SIG_AT=<n>:<sig>  raise signal <sig> at the start of the n-th evaluation (1-based)
//   FG_NAN_AT=<n>        fault injection: the n-th evaluation returns NaN potentials
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "fmm_standin.hpp"

namespace fmm_monitor
    {
static long n_exec = 0, n_src = 0, n_tgt = 0, n_out = 0;
static double max_abs = 0;
static const double *const *dump_s;
static const double *const *dump_t;
static const double *dump_q;
static const long long *dump_si;
static size_t dump_ns;

static FILE *log_file()
    {
    static FILE *f = nullptr;
    static bool init = false;
    if (!init)
        {
        init = true;
        const char *p = getenv("FG_MON");
        if (p && *p) f = fopen(p, "a");
        }
    return f;
    }

void event(const char *json)
    {
    FILE *f = log_file();
    if (!f) return;
    fputs(json, f);
    fputc('\n', f);
    fflush(f);
    }

void inserted(bool target, long long, double x, double y, double z, double hw, double cx,
              double cy, double cz)
    {
    (target ? n_tgt : n_src)++;
    double m = fmax(fabs(x - cx), fmax(fabs(y - cy), fabs(z - cz)));
    if (m > max_abs || m != m) max_abs = m;
    if (!(m <= hw)) n_out++;  // the octree contract: every particle lies in the box
    }

void before_execute(size_t nsrc, const double *const *s, const double *q, const long long *si,
                    size_t ntgt, const double *const *t, const long long *)
    {
    n_exec++;
    const char *sig = getenv("FG_SIG_AT");
    if (sig)
        {
        long n = 0;
        int no = 0;
        if (sscanf(sig, "%ld:%d", &n, &no) == 2 && n == n_exec) raise(no);
        }
    dump_s = s; dump_t = t; dump_q = q; dump_si = si; dump_ns = nsrc;
    if (!log_file()) return;
    double sq = 0, sa = 0, d[3] = {0, 0, 0};
    long nan = 0;
    for (size_t i = 0; i < nsrc; i++)
        {
        if (q[i] != q[i]) nan++;
        sq += q[i];
        sa += fabs(q[i]);
        for (int k = 0; k < 3; k++) d[k] += q[i] * s[k][i];
        }
    char b[600];
    snprintf(b, sizeof b,
             "{\"ev\":\"fmm\",\"n\":%ld,\"nsrc\":%zu,\"ntgt\":%zu,\"out\":%ld,\"maxabs\":%.17g,"
             "\"q\":\"%.17g\",\"qa\":\"%.17g\",\"d\":[\"%.17g\",\"%.17g\",\"%.17g\"],\"nan\":%ld}",
             n_exec, nsrc, ntgt, n_out, max_abs, sq, sa, d[0], d[1], d[2], nan);
    event(b);
    }

void after_execute(size_t ntgt, const double *pot, const long long *ti)
    {
    const char *nan = getenv("FG_NAN_AT");
    if (nan && atol(nan) == n_exec)
        for (size_t i = 0; i < ntgt; i++) const_cast<double *>(pot)[i] = NAN;
    const char *p = getenv("FG_MON_DUMP");
    if (!p) return;
    char name[4096];
    snprintf(name, sizeof name, "%s%ld.bin", p, n_exec);
    FILE *f = fopen(name, "wb");
    if (!f) return;
    double h[2] = {(double) dump_ns, (double) ntgt};
    fwrite(h, sizeof h, 1, f);
    for (int k = 0; k < 3; k++) fwrite(dump_s[k], sizeof(double), dump_ns, f);
    fwrite(dump_q, sizeof(double), dump_ns, f);
    for (size_t i = 0; i < dump_ns; i++) { double v = dump_si[i]; fwrite(&v, sizeof v, 1, f); }
    for (int k = 0; k < 3; k++) fwrite(dump_t[k], sizeof(double), ntgt, f);
    for (size_t i = 0; i < ntgt; i++) { double v = ti[i]; fwrite(&v, sizeof v, 1, f); }
    fwrite(pot, sizeof(double), ntgt, f);
    fclose(f);
    }
    }  // namespace fmm_monitor
