// C11: verdicts and results of the iterative solvers, sparse matrix against dense arithmetic.
#include <sstream>
#include <string.h>
#include "algebra/algebra.h"
#include "algebra/bicg.h"
#include "algebra/cg.h"
#include "harness.h"

using namespace algebra;
typedef std::vector<double> V;
typedef std::map<std::pair<int, int>, long double> Dense;

static double nrm(const V &x)
    {
    long double s = 0;
    for (double v : x) s += (long double) v * v;
    return (double) sqrtl(s);
    }

struct Sys
    {
    int n;
    MatrixShape shape;
    std::vector<std::vector<std::pair<int, double>>> adds;  // additive contributions, per row
    Dense D;
    void add(int i, int j, double v)
        {
        shape[i].insert(j);
        adds[i].push_back({j, v});
        D[{i, j}] += (long double) v;
        }
    explicit Sys(int n_) : n(n_), shape(n_), adds(n_) {}
    };

static void laplacian(Sys &s, int nodes, int dim, double w, double shift, int kind)
    {
    // random connected graph on the nodes; identity blocks of size dim, plus local blocks
    for (int e = 0; e < 3 * nodes; e++)
        {
        int a = e < nodes - 1 ? e + 1 : H::pick(nodes), b = e < nodes - 1 ? H::pick(e + 1) : H::pick(nodes);
        if (a == b) continue;
        double c = w * H::uni(0.2, 1.0);
        for (int d = 0; d < dim; d++)
            {
            s.add(dim * a + d, dim * a + d, c);
            s.add(dim * b + d, dim * b + d, c);
            s.add(dim * a + d, dim * b + d, -c);
            s.add(dim * b + d, dim * a + d, -c);
            }
        }
    for (int i = 0; i < nodes; i++)
        {
        for (int d = 0; d < dim; d++) s.add(dim * i + d, dim * i + d, shift * H::uni(0.5, 1.5));
        if (kind == 2)
            {
            double r = H::uni(0.5, 1.5);
            s.add(2 * i, 2 * i + 1, r * shift);
            s.add(2 * i + 1, 2 * i, -r * shift);
            }
        if (kind == 3)
            for (int d = 0; d < 3; d++)
                {
                double r = H::gauss() * shift;
                s.add(3 * i + d, 3 * i + (d + 1) % 3, r);
                s.add(3 * i + (d + 1) % 3, 3 * i + d, -r);
                }
        }
    }

static void solvers(long idx)
    {
    static const char *kinds[] = {"spd", "llg", "spin", "random", "singular", "nan", "indefinite", "spd"};
    std::string kind = kinds[idx % 8];
    int nodes = H::coin(0.03) ? 400 : 1 + H::pick(H::coin() ? 6 : 40);
    int dim = kind == "llg" ? 2 : kind == "spin" ? 3 : 1;
    int n = nodes * dim;
    Sys s(n);
    double sc = H::coin(0.3) ? 1.0 : H::logu(-60, 60);
    bool sym = kind == "spd" || kind == "singular";
    if (kind == "spd") laplacian(s, nodes, 1, sc * H::uni(0, 2), sc * H::uni(0.1, 1), 1);
    else if (kind == "llg") laplacian(s, nodes, 2, sc * H::uni(0, 1), sc, 2);
    else if (kind == "spin") laplacian(s, nodes, 3, sc * H::uni(0, 1), sc, 3);
    else if (kind == "singular") laplacian(s, nodes, 1, sc, 0.0, 1);
    else if (kind == "nan") { laplacian(s, nodes, 1, sc, sc, 1); sym = true; }
    else
        for (int i = 0; i < n; i++)
            for (int k = 0; k <= 4; k++)
                {
                int j = k ? H::pick(n) : i;
                s.add(i, j, sc * (k ? H::gauss() : (kind == "indefinite" && H::coin() ? -1 : 1)
                                               * H::uni(0.5, 4)));
                }
    SparseMatrix A(s.shape);
    for (int i = 0; i < n; i++)
        for (auto &e : s.adds[i]) A.add(i, e.first, e.second);
    double bs = H::coin(0.3) ? 1.0 : H::logu(-60, 60);
    V b(n), x(n), xd(n, 0.0);
    for (double &v : b) v = bs * H::gauss();
    bool zero = H::coin(0.05);
    if (zero) std::fill(b.begin(), b.end(), 0.0);
    int algo = H::pick(sym ? 5 : 3);  // 0 bicg, 1 bicg_dir(xd), 2 bicg_dir, 3 cg, 4 cg_dir
    static const char *names[] = {"bicg", "bicg_dir(xd)", "bicg_dir", "cg", "cg_dir"};
    bool dir = algo == 1 || algo == 2 || algo == 4, withxd = algo == 1 || algo == 4;
    std::vector<char> con(n, 0);
    std::vector<int> ld;
    if (dir)
        {
        double f = H::coin(0.1) ? 1.0 : H::coin(0.1) ? 0.0 : H::uni(0, 0.6);
        for (int i = 0; i < n; i++)
            if (H::uni() < f)
                {
                con[i] = 1;
                ld.push_back(i);
                if (H::coin(0.05)) ld.push_back(i);
                if (withxd) xd[i] = (bs / sc) * H::gauss();
                }
        for (int i = (int) ld.size() - 1; i > 0; i--) std::swap(ld[i], ld[H::pick(i + 1)]);
        }
    bool poisoned = false;
    if (kind == "nan")
        {
        // nan or infinity in the equations of a free unknown
        std::vector<int> fr;
        for (int i = 0; i < n; i++) if (!con[i]) fr.push_back(i);
        double bad = H::coin() ? NAN : INFINITY;
        if (!fr.empty())
            {
            int i = fr[H::pick((int) fr.size())];
            poisoned = true;
            if (H::coin()) b[i] = bad;
            else { A.set(i, i, bad); s.D[{i, i}] = bad; }
            }
        }
    int guess = zero ? 0 : H::pick(3);
    double xs = bs / sc;
    for (int i = 0; i < n; i++)
        x[i] = con[i] ? 0.0 : guess == 0 ? 0.0 : (guess == 1 ? 1.0 : 300.0) * xs * H::gauss();
    V x0 = x, b0 = b;
    double tol = H::logu(-9, -3);
    int maxit = H::coin(0.25) ? H::pick(4) : 2000 + 20 * n;
    iteration<double> it(names[algo], tol, H::coin(0.02), maxit);
    if (H::coin(0.3))
        {
        // an object that has already monitored another solve
        it.set_rhsnorm(12345.0);
        it.finished(H::coin() ? 0.0 : NAN);
        it.reset();
        }
    switch (algo)
        {
        case 0: bicg<double>(it, A, x, b); break;
        case 1: bicg_dir<double>(it, A, x, b, xd, ld); break;
        case 2: bicg_dir<double>(it, A, x, b, ld); break;
        case 3: cg<double>(it, A, x, b); break;
        case 4: cg_dir<double>(it, A, x, b, xd, ld); break;
        }
    std::string key = std::string(names[algo]) + "/" + kind;
    char ctx[400];
    snprintf(ctx, sizeof ctx, "%s n=%d matrix scale %.2g rhs scale %.2g tol %.2g max(iter) %d guess %d "
             "constrained %zu status %d after %d iterations", key.c_str(), n, sc, bs, tol, maxit, guess,
             ld.size(), (int) it.status, it.get_iteration());
    H::count("verdict " + std::to_string((int) it.status));
    H::count("solves");
    H::kase(key + "/" + std::to_string((int) it.status) + "/" + std::to_string(guess) + "/" +
            std::to_string(zero) + "/" + std::to_string(maxit < 10 ? maxit : 99) + "/" +
            std::to_string(n > 20) + std::to_string(ld.size() > 0));
    if (memcmp(b.data(), b0.data(), n * sizeof(double)))
        H::fail("rhs-modified", "%s: right-hand side modified", ctx);
    for (auto &e : s.D)
        {
        double got = A(e.first.first, e.first.second), want = (double) e.second;
        if (!(fabs(got - want) <= 1e-12 * sc * 50) && !(got != got && want != want) && got != want)
            { H::fail("matrix-modified", "%s: entry (%d,%d) is %g, was %g", ctx, e.first.first,
                      e.first.second, got, want); break; }
        }
    if (it.get_iteration() > std::max(maxit, 0) + 1 || (maxit > 0 && it.get_iteration() > maxit))
        H::fail("iterations", "%s: more iterations than allowed", ctx);
    if (it.status == UNDEFINED) H::fail("undefined", "%s: no verdict", ctx);
    // independent residual of the constrained problem
    V r(n, 0.0);
    long double anorm = 0, bn2 = 0;
    std::vector<long double> acc(n, 0.0L);
    std::vector<long double> axd(n, 0.0L);
    for (auto &e : s.D)
        {
        acc[e.first.first] += e.second * x[e.first.second];
        axd[e.first.first] += e.second * xd[e.first.second];
        anorm += e.second * e.second;
        }
    long double r2 = 0;
    bool nan = false;
    for (int i = 0; i < n; i++)
        {
        if (x[i] != x[i]) nan = true;
        if (con[i]) continue;
        long double d = b[i] - acc[i], bb = b[i] - (withxd ? axd[i] : 0.0L);
        r2 += d * d;
        bn2 += bb * bb;
        }
    double res = (double) sqrtl(r2), bn = (double) sqrtl(bn2);
    if (it.status == CONVERGED)
        {
        double slack = 1e-15 * (double) sqrtl(anorm) * (nrm(x) + nrm(x0)) + 1e-15 * nrm(b);
        double grow = kind == "random" || kind == "indefinite" ? 1e7 : 300;
        if (bn > 0 || res > 0)
            H::maximum("(residual - tol*rhs) / rounding, " + kind, (res - tol * bn) / (slack + 1e-300));
        if (nan || !(res <= tol * bn * 1.0001 + grow * slack))
            H::fail("converged-residual", "%s: reported as converged, residual %g, allowed %g%s", ctx, res,
                    tol * bn, nan ? " (nan in the solution)" : "");
        if (poisoned) H::fail("converged-nan", "%s: converged with nan or inf in the input", ctx);
        for (int i = 0; i < n; i++)
            if (con[i] && x[i] != (withxd ? xd[i] : 0.0))
                {
                H::fail("constrained", "%s: constrained unknown %d is %.17g, prescribed %.17g", ctx, i, x[i],
                        withxd ? xd[i] : 0.0);
                break;
                }
        if (fabs(it.get_res()) > tol * it.get_rhsnorm() * 1.0001)
            H::fail("reported-residual", "%s: converged with reported residual %g, rhs norm %g", ctx,
                    it.get_res(), it.get_rhsnorm());
        if (bn > 0 && fabs(it.get_rhsnorm() - bn) > 1e-6 * bn)
            {
            // the reference of the tolerance is the right-hand side of the reduced system
            bool cancel = bn < 1e-6 * (nrm(b) + 1e-300);
            if (!cancel) H::fail("rhsnorm", "%s: right-hand side norm %g, should be %g", ctx,
                                 it.get_rhsnorm(), bn);
            }
        }
    else
        {
        bool easy = (kind == "spd" || kind == "llg") && maxit > 100;
        if (easy) H::fail("easy", "%s: a well-conditioned system was not solved (residual %g of %g)", ctx,
                          res, bn);
        if (it.status == ITER_OVERFLOW && it.get_iteration() < maxit)
            H::fail("overflow-early", "%s: iteration limit reported too early", ctx);
        }
    if (maxit <= 3 && it.status != CONVERGED && it.status != ITER_OVERFLOW && kind == "spd")
        H::fail("limit-status", "%s: unexpected verdict at the iteration limit", ctx);
    }

static void matrices(long)
    {
    int n = H::coin(0.1) ? 1 + H::pick(1500) : 1 + H::pick(30);
    MatrixShape shape(n);
    int fill = 1 + H::pick(6);
    for (int i = 0; i < n; i++)
        {
        if (H::coin(0.9)) shape[i].insert(i);
        for (int k = 0; k < fill; k++) shape[i].insert(H::pick(n));
        if (H::coin(0.05)) shape[i].clear();
        }
    SparseMatrix A(shape);
    Dense D;
    auto verify = [&](const char *when)
        {
        for (int i = 0; i < n; i++)
            for (int q = 0; q < 12 + (n < 31 ? n : 0); q++)
                {
                int j = n < 31 && q < n ? q : H::pick(n);
                auto it = D.find({i, j});
                double want = it == D.end() ? 0.0 : (double) it->second, got = A(i, j);
                if (!(fabs(got - want) <= 1e-12)) { H::fail("entry", "%s: entry (%d,%d) of %d is %.17g, sum of "
                    "what was added is %.17g", when, i, j, n, got, want); return; }
                }
        V x(n), y(n, NAN);
        for (double &v : x) v = H::gauss();
        A.mult(x, y);
        std::vector<long double> z(n, 0.0L);
        for (auto &e : D) z[e.first.first] += e.second * x[e.first.second];
        for (int i = 0; i < n; i++)
            if (!(fabsl(y[i] - z[i]) <= 1e-12))
                { H::fail("product", "%s: component %d of the product is %.17g, dense %.17g", when, i, y[i],
                          (double) z[i]); return; }
        V y2(n, 3.0);
        mult(A, x, y2);
        if (memcmp(y.data(), y2.data(), n * sizeof(double))) H::fail("product2", "%s: two products differ", when);
        bool diag = true;
        for (int i = 0; i < n; i++) if (A(i, i) == 0) diag = false;
        if (diag)
            {
            V d(n, NAN);
            A.build_diag_precond<double>(d);
            for (int i = 0; i < n; i++)
                if (!(fabs(d[i] * A(i, i) - 1) < 1e-12))
                    { H::fail("precond", "%s: diagonal preconditioner %g for entry %g", when, d[i], A(i, i)); break; }
            }
        };
    verify("empty");
    for (int round = 0; round < 3; round++)
        {
        long adds = (long) n * (1 + H::pick(6));
        for (long k = 0; k < adds; k++)
            {
            int i = H::pick(n);
            if (shape[i].empty()) continue;
            auto p = shape[i].begin();
            std::advance(p, H::pick((int) shape[i].size()));
            double v = H::pick(16) - 8 + 0.25 * H::pick(4);
            if (H::coin(0.9)) { A.add(i, *p, v); D[{i, *p}] += (long double) v; }
            else { A.set(i, *p, v); D[{i, *p}] = v; }
            }
        verify("after additions");
        if (H::coin(0.5)) { A.clear(); D.clear(); verify("after clear"); }
        }
    H::count("matrices");
    H::kase("matrix/" + std::to_string(n > 30) + "/" + std::to_string(fill));
    // vector helpers
    V a(n), b(n), c(n);
    for (int i = 0; i < n; i++) { a[i] = H::gauss(); b[i] = H::gauss(); }
    V a0 = a, b0 = b;
    double al = H::gauss();
    long double dd = 0;
    for (int i = 0; i < n; i++) dd += (long double) a[i] * b[i];
    if (!(fabsl(dot(a, b) - dd) < 1e-10)) H::fail("dot", "dot of %d components: %g, %g", n, dot(a, b), (double) dd);
    if (!(fabs(norm(a) - nrm(a)) < 1e-10)) H::fail("norm", "norm of %d components: %g, %g", n, norm(a), nrm(a));
    p_direct(a, b, c);
    for (int i = 0; i < n; i++) if (c[i] != a[i] * b[i]) { H::fail("p_direct", "component %d of %d", i, n); break; }
    add(a, b);
    for (int i = 0; i < n; i++) if (b[i] != b0[i] + a[i]) { H::fail("add", "component %d of %d", i, n); break; }
    b = b0;
    sub(a, b);
    for (int i = 0; i < n; i++) if (b[i] != b0[i] - a[i]) { H::fail("sub", "component %d of %d", i, n); break; }
    b = b0;
    scaled_add(a, al, b);
    for (int i = 0; i < n; i++) if (!(fabs(b[i] - (b0[i] + al * a[i])) < 1e-14 * 16)) { H::fail("scaled_add", "component %d of %d", i, n); break; }
    scaled(al, a);
    for (int i = 0; i < n; i++) if (a[i] != a0[i] * al) { H::fail("scaled", "component %d of %d", i, n); break; }
    std::vector<int> mask;
    for (int i = 0; i < n; i++) if (H::coin(0.3)) mask.push_back(i);
    c = a0;
    applyMask(mask, c);
    size_t m = 0;
    for (int i = 0; i < n; i++)
        {
        bool in = m < mask.size() && mask[m] == i;
        if (in) m++;
        if (c[i] != (in ? 0.0 : a0[i])) { H::fail("mask", "component %d of %d", i, n); break; }
        }
    }

int main(int argc, char **argv)
    {
    long n;
    H::start(argc, argv, n);
    for (long i = 0; i < n; i++)
        {
        solvers(i);
        if (i % 10 == 0) matrices(i);
        }
    return H::finish();
    }
