// Common part of the in-process harnesses: seeded generator, line protocol read by lib/fgharness.py.
#ifndef FG_HARNESS_H
#define FG_HARNESS_H
#include <math.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <map>
#include <random>
#include <string>

namespace H
    {
inline std::mt19937_64 &gen()
    {
    static std::mt19937_64 g;
    return g;
    }
inline double uni(double a = 0, double b = 1) { return a + (b - a) * (gen()() >> 11) * 0x1p-53; }
inline int pick(int n) { return (int) (gen()() % (unsigned long long) n); }
inline bool coin(double p = 0.5) { return uni() < p; }
inline double gauss()
    {
    double u = uni(1e-300, 1), v = uni();
    return sqrt(-2 * log(u)) * cos(2 * M_PI * v);
    }
inline double logu(double a, double b) { return pow(10, uni(a, b)); }

inline std::map<std::string, double> &maxima()
    {
    static std::map<std::string, double> m;
    return m;
    }
inline std::map<std::string, long> &counts()
    {
    static std::map<std::string, long> m;
    return m;
    }
inline void maximum(const std::string &k, double v)
    {
    auto it = maxima().find(k);
    if (it == maxima().end()) maxima()[k] = v;
    else if (v > it->second) it->second = v;
    }
inline void count(const std::string &k, long n = 1) { counts()[k] += n; }
inline int &failures(const char *key)
    {
    static std::map<std::string, int> n;
    return n[key];
    }
inline void fail(const char *key, const char *fmt, ...)
    {
    if (++failures(key) > 6) return;
    char b[2000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    for (char *p = b; *p; p++)
        if (*p == '\n' || *p == '\t') *p = ' ';
    printf("\n@FAIL\t%s\t%s\n", key, b);
    fflush(stdout);
    }
inline void kase(const std::string &key) { printf("\n@CASE\t%s\n", key.c_str()); }
inline void start(int argc, char **argv, long &n)
    {
    n = argc > 1 ? atol(argv[1]) : 100;
    gen().seed(argc > 2 ? strtoull(argv[2], nullptr, 10) : 1);
    for (int i = 0; i < 10; i++) gen()();
    }
inline int finish()
    {
    for (auto &x : maxima()) printf("\n@MAX\t%s\t%.6g\n", x.first.c_str(), x.second);
    for (auto &x : counts()) printf("\n@COUNT\t%s\t%ld\n", x.first.c_str(), x.second);
    printf("\n@END\n");
    fflush(stdout);
    return 0;
    }
    }  // namespace H
#endif
