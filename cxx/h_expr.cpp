// Random JavaScript expressions, evaluated by the real ExpressionParser and by this generator.
#include <string.h>
#include <cmath>
#include <memory>
#include <vector>
#include "harness.h"
#include "expression_parser.h"
using std::string;

struct E
    {
    string js;
    double v;
    };
static double X[3];
static string lit(double a)
    {
    char b[40];
    int k = H::pick(4);
    if (k == 0) snprintf(b, sizeof b, "%.17g", a);
    else if (k == 1) snprintf(b, sizeof b, "%.17e", a);
    else if (k == 2) snprintf(b, sizeof b, "%.20g", a);
    else snprintf(b, sizeof b, "(%.17G)", a);
    return a < 0 || std::signbit(a) ? "(" + string(b) + ")" : b;
    }
static double value()
    {
    switch (H::pick(8))
        {
        case 0: return H::pick(10);
        case 1: return -H::pick(1000);
        case 2: return H::logu(-12, 12);
        case 3: return -H::logu(-12, 12);
        case 4: return H::uni(-1, 1);
        case 5: return 1e-9 * H::uni(-500, 500);
        default: return H::gauss() * 3;
        }
    }
typedef double (*F1)(double);
static double fsign(double x) { return x > 0 ? 1 : x < 0 ? -1 : x; }
static double fround(double x) { return x == 0 ? x : (x > -0.5 && x < 0) ? -0.0 : floor(x) + (x - floor(x) >= 0.5 ? 1 : 0); }
static const struct { const char *n; F1 f; } FUN[] = { { "sin", sin }, { "cos", cos }, { "tan", tan }, { "exp", exp },
    { "log", log }, { "sqrt", sqrt }, { "abs", fabs }, { "floor", floor }, { "ceil", ceil }, { "atan", atan },
    { "asin", asin }, { "acos", acos }, { "sign", fsign }, { "round", fround }, { "trunc", trunc } };
static const char *VAR[] = { "x", "y", "z" };
static bool timeOnly;
static double jmin(double a, double b)
    {
    if (std::isnan(a) || std::isnan(b)) return NAN;
    if (a == 0 && b == 0) return std::signbit(a) ? a : b;
    return a < b ? a : b;
    }

static E gen(int depth)
    {
    if (depth == 0 || H::coin(0.1))
        {
        if (H::coin(0.6))
            {
            if (timeOnly) return { "t", X[0] };
            int i = H::pick(3);
            return { VAR[i], X[i] };
            }
        if (H::coin(0.1)) return H::coin() ? E{ "PI", M_PI } : E{ "Math.E", M_E };
        double a = value();
        return { lit(a), a };
        }
    E a = gen(depth - 1), b;
    switch (H::pick(12))
        {
        case 0: b = gen(depth - 1); return { "(" + a.js + "+" + b.js + ")", a.v + b.v };
        case 1: b = gen(depth - 1); return { "(" + a.js + " - " + b.js + ")", a.v - b.v };
        case 2: b = gen(depth - 1); return { "((" + a.js + ")*(" + b.js + "))", a.v * b.v };
        case 3: b = gen(depth - 1); return { "((" + a.js + ")/(" + b.js + "))", a.v / b.v };
        case 4: b = gen(depth - 1);
            {
            E c = gen(depth - 1), d = gen(depth - 1);
            return { "(" + a.js + "<" + b.js + " ? " + c.js + " : " + d.js + ")", a.v < b.v ? c.v : d.v };
            }
        case 5: b = gen(depth - 1); return { "min(" + a.js + "," + b.js + ")", jmin(a.v, b.v) };
        case 6: b = gen(depth - 1); return { "Math.max(" + a.js + "," + b.js + ")", -jmin(-a.v, -b.v) };
        case 7: b = gen(depth - 1); return { "atan2(" + a.js + "," + b.js + ")", atan2(a.v, b.v) };
        case 8: return { "(-(" + a.js + "))", -a.v };
        case 9: { int n = 2 + H::pick(3); return { "pow(" + a.js + "," + std::to_string(n) + ")", pow(a.v, n) }; }
        case 10: b = gen(depth - 1); return { "(function(q,r){ var s=q; s-=r; return s; })(" + a.js + "," + b.js + ")", a.v - b.v };
        default:
            {
            auto &f = FUN[H::pick(sizeof FUN / sizeof *FUN)];
            return { (H::coin(0.2) ? string("Math.") : string("")) + f.n + "(" + a.js + ")", f.f(a.v) };
            }
        }
    }
static bool close(double a, double b, double rel)
    {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) == std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return a == b;
    return fabs(a - b) <= rel * fmax(fabs(a), fabs(b));
    }
// f and a bound of its sensitivity |x f'(x)|
static const struct { const char *n; F1 f; } HYP[] = { { "expm1", expm1 }, { "log1p", log1p }, { "cosh", cosh }, { "sinh", sinh },
    { "tanh", tanh }, { "acosh", acosh }, { "asinh", asinh }, { "atanh", atanh } };
static double arg(const string &n)
    {
    double a = H::coin(0.7) ? H::logu(-20, 2.8) : H::logu(-300, 300);
    if (n == "acosh") a = H::coin() ? 1 + H::logu(-12, 3) : fmax(1, a);
    if (n == "atanh") a = H::coin() ? 1 - H::logu(-12, 0) : fmin(1, a);
    if (n == "log1p" && H::coin(0.3)) a = -(1 - H::logu(-12, 0)) ;
    else if (n != "acosh" && H::coin()) a = -a;
    if (n == "log1p" && a < -1) a = -a;
    static const double sp[] = { 0, -0.0, 1, -1, INFINITY, -INFINITY, NAN, 2e-8, 1e-5, -1e-5, 1e8, 20, -20, 710, -710, 20.0000001 };
    if (H::coin(0.1)) a = sp[H::pick(sizeof sp / sizeof *sp)];
    return a;
    }

int main(int argc, char **argv)
    {
    long n;
    H::start(argc, argv, n);
    auto P = std::make_unique<ExpressionParser>();
    auto Q = std::make_unique<ExpressionParser>();
    Q->set_function("function(a) { return a*2+1; }");
    long evals = 0;
    for (long k = 0; k < n; k++)
        {
        if (H::coin(0.02)) P = std::make_unique<ExpressionParser>();
        timeOnly = H::coin(0.4);
        int depth = 1 + H::pick(4);
        double pts[4][3];
        for (auto &p : pts)
            for (double &c : p) c = value();
        std::mt19937_64 save = H::gen();
        // the same tree for several points: the value changes, the text does not
        std::vector<std::array<double, 3>> want;
        string js[3];
        for (auto &p : pts)
            {
            H::gen() = save;
            memcpy(X, p, sizeof X);
            std::array<double, 3> w;
            for (int i = 0; i < 3; i++)
                {
                E e = gen(depth);
                js[i] = e.js;
                w[i] = e.v;
                }
            want.push_back(w);
            }
        int form = H::pick(3);
        string par = timeOnly ? "t" : "x,y,z";
        if (form == 0) P->set_expressions(par, js[0], js[1], js[2]);
        else if (form == 1) P->set_function("function(" + par + ") { return [" + js[0] + "," + js[1] + "," + js[2] + "]; }");
        else if (!timeOnly && H::coin()) P->set_function("function(x,y,z,regions) {\n  // comment\n  var v = [];\n  v.push(" + js[0] + ");\n  v[1]=" + js[1]
                + ";\n  v[2]=" + js[2] + "; return regions.includes('b c') && regions.length==2 && regions[0]=='\xc3\xa9' ? v : [0,0,0];\n}\n");
        else P->set_function("function (" + par + ") {\n  var v = [0,0,0];\n  v[0]=" + js[0] + ";\n  v[1]=" + js[1]
                + ";\n  v[2]=" + js[2] + ";\n  return v; }");
        int np = P->parameter_count();
        for (int rep = 0; rep < 8; rep++)
            {
            int j = H::pick(4);
            Eigen::Vector3d p(pts[j][0], pts[j][1], pts[j][2]);
            Eigen::Vector3d v = timeOnly ? P->get_vector(p.x())
                : np == 4 ? P->get_vector(p, { "\xc3\xa9", "b c" }) : P->get_vector(p);
            evals++;
            for (int i = 0; i < 3; i++)
                if (!close(v[i], want[j][i], 1e-15))
                    H::fail("expression", "%s at (%.17g, %.17g, %.17g): %.17g instead of %.17g", js[i].c_str(),
                            p[0], p[1], p[2], v[i], want[j][i]);
            if (H::coin(0.2))
                {
                double a = value(), s = Q->get_scalar(a);
                if (s != a * 2 + 1) H::fail("scalar", "a*2+1 at %.17g: %.17g", a, s);
                }
            }
        H::kase(string(timeOnly ? "t" : "xyz") + std::to_string(form) + "d" + std::to_string(depth) + js[0].substr(0, 12));
        }
    // extra functions
    for (auto &h : HYP)
        {
        ExpressionParser R;
        R.set_function(string("function(a) { return ") + h.n + "(a); }");
        for (long k = 0; k < 4 * n; k++)
            {
            double a = arg(h.n), got = R.get_scalar(a), w = h.f(a);
            evals++;
            double d = (h.f(a * (1 + 1e-13)) - h.f(a * (1 - 1e-13))) / 2e-13;  // x f'(x)
            // 1e-10, and where differences from 1 are formed the rounding of 1
            double tol = fmin(4e-8 * fabs(w), 1e-10 * fabs(w) + 1e-15) + (std::isfinite(d) ? 4e-16 * fabs(d) : 0);
            if (string(h.n) == "acosh" && a > 1 && a < 1.1) tol += 1e-15 / sqrt(a - 1);
            bool ok = std::isnan(w) || std::isinf(w) ? close(got, w, 0) : fabs(got - w) <= tol;
            // overflow may come up to a factor of the largest number earlier
            if (!ok && fabs(w) > 1e300 && std::isinf(got)) ok = true;
            if (std::isfinite(w) && w != 0) H::maximum(string("relative error of ") + h.n, fabs(got - w) / fabs(w));
            if (!ok) H::fail("function", "%s(%.17g) = %.17g instead of %.17g", h.n, a, got, w);
            }
        H::kase(string("function ") + h.n);
        }
    // many evaluations do not fill anything up
        {
        ExpressionParser R;
        R.set_expressions("x,y,z", "x+1", "y", "z*2");
        Eigen::Vector3d p(1, 2, 3);
        for (long k = 0; k < 200000; k++)
            {
            p.x() = k;
            Eigen::Vector3d v = R.get_vector(p);
            evals++;
            if (v.x() != k + 1 || v.y() != 2 || v.z() != 6)
                {
                H::fail("sequence", "evaluation %ld gives (%g,%g,%g)", k, v.x(), v.y(), v.z());
                break;
                }
            if (k % 5000 == 0) R.set_expressions("x,y,z", "x+1", "y", "z*2");
            }
        H::kase("sequence");
        }
    H::count("evaluations", evals);
    return H::finish();
    }
