// C05: the element matrices and vectors of the real Tet/Tri against an independent weak form,
// written here in long double, in barycentric coordinates, on a quadrature rule of its own.
#include <array>
#include <vector>
#include "config.h"
#include "harness.h"
#include "tetra.h"
#include "triangle.h"

typedef long double R;
typedef std::array<R, 3> V3;

static V3 cv(const Eigen::Vector3d &v) { return {v[0], v[1], v[2]}; }
static R dot(const V3 &a, const V3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static V3 cross(const V3 &a, const V3 &b)
    {
    return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
    }
static V3 operator+(const V3 &a, const V3 &b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
static V3 operator-(const V3 &a, const V3 &b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static V3 operator*(R s, const V3 &a) { return {s * a[0], s * a[1], s * a[2]}; }
static R norm(const V3 &a) { return sqrtl(dot(a, a)); }

static Eigen::Vector3d rdir()
    {
    Eigen::Vector3d v;
    do
        {
        for (int k = 0; k < 3; k++) v[k] = H::gauss();
        } while (v.norm() < 0.1);
    if (H::coin(0.15))
        {
        v.setZero();
        v[H::pick(3)] = H::coin() ? 1 : -1;
        }
    return v.normalized();
    }

// symmetric rules: barycentric points and weights (sum 1)
struct Rule
    {
    std::vector<std::vector<R>> b;
    std::vector<R> w;
    };
static Rule tetRule(int npi)
    {
    Rule r;
    r.b.push_back({.25L, .25L, .25L, .25L});
    if (npi == 1)
        {
        r.w = {1};
        return r;
        }
    r.w.push_back(-0.8L);
    for (int j = 0; j < 4; j++)
        {
        std::vector<R> x(4, 1 / 6.0L);
        x[j] = 0.5L;
        r.b.push_back(x);
        r.w.push_back(0.45L);
        }
    return r;
    }
static Rule triRule(int npi)
    {
    Rule r;
    R t = 1 / 3.0L;
    r.b.push_back({t, t, t});
    if (npi == 1)
        {
        r.w = {1};
        return r;
        }
    r.w.push_back(-27 / 48.0L);
    for (int j = 0; j < 3; j++)
        {
        std::vector<R> x(3, 0.2L);
        x[j] = 0.6L;
        r.b.push_back(x);
        r.w.push_back(25 / 48.0L);
        }
    return r;
    }

struct Geo  // a tetrahedron: nodes by global index, any order
    {
    std::array<int, 4> n;
    std::array<V3, 4> g;
    R vol;
    };
static Geo geometry(const std::vector<Nodes::Node> &nd, std::array<int, 4> n)
    {
    Geo t;
    t.n = n;
    V3 p[4];
    for (int i = 0; i < 4; i++) p[i] = cv(nd[n[i]].p);
    V3 a = p[1] - p[0], b = p[2] - p[0], c = p[3] - p[0];
    R det = dot(a, cross(b, c));
    t.vol = fabsl(det) / 6;
    t.g[1] = (1 / det) * cross(b, c);
    t.g[2] = (1 / det) * cross(c, a);
    t.g[3] = (1 / det) * cross(a, b);
    t.g[0] = (R) -1 * (t.g[1] + t.g[2] + t.g[3]);
    return t;
    }

template <class F>
static V3 lin(const std::vector<R> &b, const Geo &t, F f)
    {
    V3 s = {0, 0, 0};
    for (int i = 0; i < 4; i++) s = s + b[i] * f(t.n[i]);
    return s;
    }

static void randomNodes(std::vector<Nodes::Node> &nd, double L, int style)
    {
    Eigen::Vector3d m0 = rdir();
    for (auto &n : nd)
        {
        Eigen::Vector3d u = style == 0 ? m0 : style == 1 ? (m0 + 0.1 * rdir()).normalized() : rdir();
        n.d[0].u = u;
        n.d[1].u = rdir();  // must not matter
        Eigen::Vector3d v = rdir();
        v -= v.dot(u) * u;
        double vs = H::coin(0.3) ? 0 : H::logu(8, 12.5);
        n.d[0].v = vs * v;
        n.d[1].v = 1e11 * rdir();
        n.d[0].phi = H::coin(0.2) ? 0 : H::gauss() * H::logu(3, 6) * L;
        n.d[0].phiv = H::coin(0.3) ? 0 : H::gauss() * H::logu(3, 6) * L * 1e11;
        n.d[1].phi = H::gauss() * 1e5 * L;
        n.d[1].phiv = H::gauss() * 1e16 * L;
        n.setBasis(H::uni(0, 7));
        }
    }

static R alphaEff(R dt, R alpha, R h)
    {
    // stabilised damping: alpha + g dt h / 2 where the field helps, its inverse where it opposes,
    // limited to 10 %
    R x = (R) gamma0 * dt / 2, lim = 0.1L * alpha;
    if (h > 0) return alpha + std::min(x * h, lim);
    return alpha / (1 + std::min(-x * h / alpha, lim / alpha));
    }

static void tetCase()
    {
    double L = H::logu(-9, -7);
    std::vector<Nodes::Node> nd(4 + H::pick(3));
    double stretch = H::coin(0.3) ? H::logu(-2, 2) : 1;
    Eigen::Vector3d org = H::coin() ? Eigen::Vector3d(0, 0, 0) : Eigen::Vector3d(50 * L * rdir());
    std::array<int, 4> id;
    R q;
    do
        {
        for (auto &n : nd)
            {
            n.p = L * Eigen::Vector3d(H::uni(-1, 1), H::uni(-1, 1), stretch * H::uni(-1, 1));
            n.p += org;
            }
        std::vector<int> all(nd.size());
        for (size_t i = 0; i < all.size(); i++) all[i] = i;
        for (int i = 0; i < 4; i++) std::swap(all[i], all[i + H::pick(all.size() - i)]);
        for (int i = 0; i < 4; i++) id[i] = all[i];
        q = geometry(nd, id).vol / (L * L * L * stretch);
        } while (q < 0.003);
    int style = H::pick(3);
    randomNodes(nd, L, style);
    Tetra::prm par;
    par.regName = "x";
    par.alpha_LLG = H::coin(0.5) ? H::logu(-3, 0) : H::uni(0.05, 1.5);
    par.A = H::logu(-12, -10);
    par.Ms = H::logu(4, 6.3);
    par.K = H::coin(0.4) ? 0 : (H::coin() ? 1 : -1) * H::logu(2, 6.5);
    par.uk = rdir();
    par.K3 = H::coin(0.6) ? 0 : (H::coin() ? 1 : -1) * H::logu(2, 6);
    Eigen::Matrix3d Q = Eigen::Quaterniond(Eigen::Vector4d(H::gauss(), H::gauss(), H::gauss(), 0.1)
                                                   .normalized()).toRotationMatrix();
    if (H::coin(0.3)) Q.setIdentity();
    par.ex = Q.col(0);
    par.ey = Q.col(1);
    par.ez = Q.col(2);
    par.P = par.N0 = par.sigma = par.lsd = par.lsf = 0;
    double dtmax = H::logu(-14, -11), dtmin = dtmax * H::logu(-6, -0.1);
    timing t(1e-9, dtmin, dtmax);
    const double dt = H::coin(0.2) ? dtmax : dtmin * pow(dtmax / dtmin, H::uni());
    t.set_dt(dt);
    t.set_t(H::uni(0, 1e-9));
    Tetra::Tet tet(nd, 0, {id[0] + 1, id[1] + 1, id[2] + 1, id[3] + 1});
    // applied field: linear in the position, through the element's own Gauss points
    Eigen::Vector3d h0 = (H::coin(0.2) ? 0 : H::logu(2, 6)) * rdir();
    Eigen::Matrix3d h1 = Eigen::Matrix3d::Zero();
    bool spacefield = H::coin();
    if (spacefield) h1 = Eigen::Matrix3d::Random() * h0.norm() / L;
    auto fieldAt = [&](const Eigen::Vector3d &p) -> Eigen::Vector3d { return h0 + h1 * (p - org); };
    Eigen::Matrix<double, 3, Tetra::NPI> G = tet.getPtGauss(), Hext;
    for (int j = 0; j < Tetra::NPI; j++) Hext.col(j) = fieldAt(G.col(j));
    Eigen::Matrix<double, 3, Tetra::NPI> Hst;
    Hst.setZero();
    bool st = H::coin(0.4);
    Eigen::Vector3d s0 = H::logu(2, 5) * rdir(), s1 = H::logu(2, 5) * rdir() / L;
    auto hstAt = [&](const Eigen::Vector3d &p) -> Eigen::Vector3d
        { return st ? Eigen::Vector3d(s0 + (p - org)[0] * s1) : Eigen::Vector3d(0, 0, 0); };
    if (st)
        {
        for (int j = 0; j < Tetra::NPI; j++) Hst.col(j) = hstAt(G.col(j));
        tet.extraField = [&](Eigen::Ref<Eigen::Matrix<double, 3, Tetra::NPI>> X) { X += Hst; };
        }
    Nodes::index dirs[4] = {Nodes::IDX_UNDEF, Nodes::IDX_X, Nodes::IDX_Y, Nodes::IDX_Z};
    if (H::coin(0.3))
        {  // whatever a previous attempt left must not matter
        tet.Kp.setRandom();
        tet.Lp.setRandom();
        }
    tet.integrales(par, t, [&](void) { return Hext; }, dirs[H::coin(0.7) ? 0 : H::pick(4)], 0.0);

    // --- reference, on the nodes as the element orders them (it may swap two) -------------
    std::array<int, 4> ord;
    for (int i = 0; i < 4; i++) ord[i] = tet.ind[i];
    std::array<int, 4> sa = ord, sb = id;
    std::sort(sa.begin(), sa.end());
    std::sort(sb.begin(), sb.end());
    if (sa != sb)
        {
        H::fail("element-nodes", "the element does not have the nodes it was given");
        return;
        }
    Geo g = geometry(nd, ord);
    Rule rule = tetRule(Tetra::NPI);
    const R Ms = par.Ms, mu = mu0, Ab = 2 * (R) par.A / (mu * Ms), th = 0.5L * dt;
    auto U = [&](int i) { return cv(nd[i].d[0].u); };
    auto W = [&](int i) { return cv(nd[i].d[0].v); };
    auto P = [&](int i) { return cv(nd[i].p); };
    R grad[3][3] = {};  // d u_c / d x_d
    V3 hd = {0, 0, 0}, hv = {0, 0, 0};
    for (int i = 0; i < 4; i++)
        {
        for (int c = 0; c < 3; c++)
            for (int d = 0; d < 3; d++) grad[c][d] += U(ord[i])[c] * g.g[i][d];
        hd = hd - (R) nd[ord[i]].d[0].phi * g.g[i];
        hv = hv - (R) nd[ord[i]].d[0].phiv * g.g[i];
        }
    R g2 = 0;
    for (auto &r : grad)
        for (R x : r) g2 += x * x;
    R x = (R) dt / (100 * (R) dtmax);
    R pre = 1 + x * fabsl(logl(x));
    std::array<V3, 4> B = {}, Bk = {};
    std::array<R, 4> la = {}, lm = {}, sb4 = {};
    V3 e[3] = {cv(par.ex), cv(par.ey), cv(par.ez)}, uk = cv(par.uk);
    for (size_t j = 0; j < rule.w.size(); j++)
        {
        const auto &b = rule.b[j];
        const R w = rule.w[j] * g.vol;
        V3 u = lin(b, g, U), v = lin(b, g, W), p = lin(b, g, P);
        Eigen::Vector3d pd((double) p[0], (double) p[1], (double) p[2]);
        V3 hext = cv(fieldAt(pd)), hst = cv(hstAt(pd));
        V3 h = hd + hext + hst + th * hv, hk = h;
        R heff = dot(u, hd + hext + hst) - Ab * g2;
        R mag = norm(hd) + norm(hext) + norm(hst) + norm(th * hv);
        if (par.K != 0)
            {
            R k = 2 * (R) par.K / (mu * Ms);
            V3 a = (k * (dot(uk, u) + th * dot(uk, v))) * uk;
            h = h + a;
            hk = hk + a;
            heff += k * dot(uk, u) * dot(uk, u);
            mag += fabsl(k) * (1 + th * norm(v));
            }
        if (par.K3 != 0)
            {
            R k = 2 * (R) par.K3 / (mu * Ms);
            R s = 0;
            V3 known = {0, 0, 0};
            for (int c = 0; c < 3; c++)
                {
                R a = dot(e[c], u), da = dot(e[c], v);
                h = h - (k * (a * (1 - a * a) + th * da * (1 - 3 * a * a))) * e[c];
                hk = hk - (k * a * (1 - a * a)) * e[c];
                s += a * a * (1 - a * a);
                known[c] = th * da * e[0][c] * (1 - 3 * a * a);
                }
            hk = hk - k * known;
            heff -= k * s;
            mag += 4 * fabsl(k) * (1 + th * norm(v));
            }
        V3 so = (dot(hst, u) * th) * v;
        h = h - so;
        hk = hk - so;
        mag += norm(so);
        R ae = alphaEff(dt, par.alpha_LLG, heff);
        for (int i = 0; i < 4; i++)
            {
            la[i] += w * b[i] * ae;
            lm[i] += w * b[i];
            B[i] = B[i] + (w * b[i]) * h;
            Bk[i] = Bk[i] + (w * b[i]) * hk;
            sb4[i] += fabsl(w * b[i]) * mag;
            }
        }
    for (int i = 0; i < 4; i++)
        {
        V3 ex = {0, 0, 0};
        R m = 0;
        for (int c = 0; c < 3; c++)
            for (int d = 0; d < 3; d++)
                {
                ex[c] -= Ab * g.vol * g.g[i][d] * grad[c][d];
                m += fabsl(Ab * g.vol * g.g[i][d]) * norm(g.g[0]);
                for (int k = 1; k < 4; k++) m += fabsl(Ab * g.vol * g.g[i][d]) * norm(g.g[k]);
                }
        B[i] = B[i] + ex;
        Bk[i] = Bk[i] + ex;
        sb4[i] += m;
        }
    R scale = 0;
    for (R s : sb4) scale = std::max(scale, s);
    auto bas = [&](int i, int s) { return cv(s ? nd[i].ep : nd[i].eq); };  // rows: eq then ep
    double worst = 0, worstk = 0;
    for (int s = 0; s < 2; s++)
        for (int i = 0; i < 4; i++)
            {
            R l = tet.Lp(s * 4 + i);
            worst = std::max(worst, (double) (fabsl(l - dot(bas(ord[i], s), B[i])) / scale));
            worstk = std::max(worstk, (double) (fabsl(l - dot(bas(ord[i], s), Bk[i])) / scale));
            }
    if (!(worst < 1e-11))
        {
        if (par.K3 != 0 && worstk < 1e-11)
            H::fail("cubic-second-order", "cubic anisotropy: the second-order term of the right-hand "
                    "side is off by %.2g of the vector's size (K3=%g, dt=%g)", worst, par.K3, dt);
        else
            H::fail("tet-vector", "right-hand side of a tetrahedron differs from the weak form by "
                    "%.3g of its size (K=%g K3=%g spin field %d, space field %d, texture %d, dt=%g)",
                    worst, par.K, par.K3, (int) st, (int) spacefield, style, dt);
        }
    else
        H::maximum("tet vector", worst);
    // matrix
    R ks = 0, kw = 0;
    for (int i = 0; i < 4; i++)
        {
        ks = std::max(ks, fabsl(la[i]) + fabsl(lm[i]) + pre * th * (R) gamma0 * Ab * g.vol * dot(g.g[i], g.g[i]));
        }
    for (int r = 0; r < 2; r++)
        for (int i = 0; i < 4; i++)
            for (int c = 0; c < 2; c++)
                for (int j = 0; j < 4; j++)
                    {
                    V3 a = bas(ord[i], r), b = bas(ord[j], 1 - c);  // columns: ep then eq
                    R want = pre * th * (R) gamma0 * Ab * g.vol * dot(g.g[i], g.g[j]) * dot(a, b);
                    if (i == j) want += la[i] * dot(a, b) + lm[i] * dot(a, cross(U(ord[i]), b));
                    kw = std::max(kw, fabsl(want - (R) tet.Kp(r * 4 + i, c * 4 + j)) / ks);
                    }
    if (!(kw < 1e-11))
        H::fail("tet-matrix", "matrix of a tetrahedron differs from the weak form by %.3Lg of its size "
                "(alpha=%g dt=%g of %g, K=%g K3=%g spin field %d)", kw, par.alpha_LLG, dt, dtmax,
                par.K, par.K3, (int) st);
    else
        H::maximum("tet matrix", (double) kw);
    // energy: without the velocity terms and spin field, - mu0 Ms L is the gradient of the energy
    if (!st && (par.K3 == 0 || style == 0))
        {
        auto nd2 = nd;
        for (auto &n : nd2)
            {
            n.d[0].v.setZero();
            n.d[0].phiv = 0;
            }
        Tetra::Tet t2(nd2, 0, {id[0] + 1, id[1] + 1, id[2] + 1, id[3] + 1});
        t2.integrales(par, t, [&](void) { return Hext; }, Nodes::IDX_UNDEF, 0.0);
        auto energy = [&](const std::vector<V3> &m)
            {
            R E = 0, gg[3][3] = {};
            for (int i = 0; i < 4; i++)
                for (int c = 0; c < 3; c++)
                    for (int d = 0; d < 3; d++) gg[c][d] += m[ord[i]][c] * g.g[i][d];
            for (auto &r : gg)
                for (R y : r) E += (R) par.A * g.vol * y * y;
            for (size_t j = 0; j < rule.w.size(); j++)
                {
                V3 u = {0, 0, 0};
                for (int i = 0; i < 4; i++) u = u + rule.b[j][i] * m[ord[i]];
                V3 p = lin(rule.b[j], g, P);
                Eigen::Vector3d pd((double) p[0], (double) p[1], (double) p[2]);
                R d = -(R) par.K * dot(uk, u) * dot(uk, u);
                R a0 = dot(e[0], u), a1 = dot(e[1], u), a2 = dot(e[2], u);
                d += (R) par.K3 * (a0 * a0 * a1 * a1 + a1 * a1 * a2 * a2 + a2 * a2 * a0 * a0);
                d -= mu * Ms * dot(u, cv(fieldAt(pd)) + hd);
                E += rule.w[j] * g.vol * d;
                }
            return E;
            };
        std::vector<V3> m(nd.size());
        for (size_t i = 0; i < nd.size(); i++) m[i] = U(i);
        double we = 0;
        for (int s = 0; s < 2; s++)
            for (int i = 0; i < 4; i++)
                {
                const R h = 1e-4L;
                auto a = m, b = m;
                a[ord[i]] = a[ord[i]] + h * bas(ord[i], s);
                b[ord[i]] = b[ord[i]] - h * bas(ord[i], s);
                R dE = (energy(a) - energy(b)) / (2 * h);
                we = std::max(we, (double) (fabsl(-dE / (mu * Ms) - (R) t2.Lp(s * 4 + i)) / scale));
                }
        H::count("energy gradients");
        if (!(we < 1e-7))
            H::fail("energy-gradient", "right-hand side is not minus the gradient of the energy over "
                    "mu0 Ms: off by %.3g of its size (K=%g K3=%g)", we, par.K, par.K3);
        else
            H::maximum("energy gradient", we);
        }
    char key[200];
    snprintf(key, sizeof key, "tet K%d K3%d st%d xf%d tex%d hs%d", (par.K > 0) - (par.K < 0),
             (par.K3 > 0) - (par.K3 < 0), st, spacefield, style, (int) (2 * log10(1 + h0.norm())));
    H::kase(key);
    }

static void triCase()
    {
    double L = H::logu(-9, -7);
    std::vector<Nodes::Node> nd(3 + H::pick(3));
    Eigen::Vector3d org = H::coin() ? Eigen::Vector3d(0, 0, 0) : Eigen::Vector3d(50 * L * rdir());
    std::array<int, 3> id = {0, 1, 2};
    R area;
    do
        {
        for (auto &n : nd) n.p = org + L * Eigen::Vector3d(H::uni(-1, 1), H::uni(-1, 1), H::uni(-1, 1));
        for (int i = 0; i < 3; i++) std::swap(id[i], id[H::pick(3)]);
        V3 a = cv(nd[id[1]].p) - cv(nd[id[0]].p), b = cv(nd[id[2]].p) - cv(nd[id[0]].p);
        area = norm(cross(a, b)) / 2;
        } while (area < 0.01 * L * L);
    int style = H::pick(3);
    randomNodes(nd, L, style);
    Triangle::prm par;
    par.regName = "s";
    par.suppress_charges = H::coin(0.2);
    par.Ks = (H::coin() ? 1 : -1) * H::logu(-5, -1);
    par.uk = rdir();
    double dMs = (H::coin() ? 1 : -1) * H::logu(4, 6.3);
    Triangle::Tri tri(nd, 0, {id[0] + 1, id[1] + 1, id[2] + 1});
    tri.dMs = dMs;
    if (H::coin(0.3)) tri.Lp.setRandom();
    tri.integrales(par);
    Rule rule = triRule(Triangle::NPI);
    auto m = [&](int i) { return cv(nd[i].d[0].u); };
    V3 uk = cv(par.uk);
    double worst = 0, we = 0;
    auto energy = [&](const std::array<V3, 3> &u)
        {
        R E = 0;
        for (size_t j = 0; j < rule.w.size(); j++)
            {
            V3 x = rule.b[j][0] * u[0] + rule.b[j][1] * u[1] + rule.b[j][2] * u[2];
            E -= (R) par.Ks * rule.w[j] * area * dot(uk, x) * dot(uk, x);
            }
        return E;
        };
    R scale = fabsl(2 * (R) par.Ks / ((R) mu0 * dMs)) * area;
    for (int s = 0; s < 2; s++)
        for (int i = 0; i < 3; i++)
            {
            R want = 0;
            std::array<V3, 3> u = {m(tri.ind[0]), m(tri.ind[1]), m(tri.ind[2])};
            V3 b = cv(s ? nd[tri.ind[i]].ep : nd[tri.ind[i]].eq);
            for (size_t j = 0; j < rule.w.size(); j++)
                {
                V3 x = rule.b[j][0] * u[0] + rule.b[j][1] * u[1] + rule.b[j][2] * u[2];
                want += rule.w[j] * rule.b[j][i] * area * 2 * (R) par.Ks / ((R) mu0 * fabsl((R) dMs))
                        * dot(uk, x) * dot(uk, b);
                }
            worst = std::max(worst, (double) (fabsl(want - (R) tri.Lp(s * 3 + i)) / scale));
            auto ua = u, ub = u;
            const R h = 1e-4L;
            ua[i] = ua[i] + h * b;
            ub[i] = ub[i] - h * b;
            R dE = (energy(ua) - energy(ub)) / (2 * h);
            we = std::max(we, (double) (fabsl(-dE / ((R) mu0 * fabsl((R) dMs)) - (R) tri.Lp(s * 3 + i)) / scale));
            }
    if (!(worst < 1e-12))
        H::fail("tri-vector", "surface anisotropy: vector of a triangle differs from the weak form by "
                "%.3g of its size (Ks=%g, dMs=%g)", worst, par.Ks, dMs);
    if (!(we < 1e-8))
        H::fail("tri-energy", "surface anisotropy: not minus the gradient of its energy, off by %.3g "
                "(Ks=%g, dMs=%g)", we, par.Ks, dMs);
    H::maximum("triangle vector", worst);
    char key[100];
    snprintf(key, sizeof key, "tri Ks%d dMs%d tex%d", par.Ks > 0, dMs > 0, style);
    H::kase(key);
    }

int main(int argc, char **argv)
    {
    long n;
    H::start(argc, argv, n);
    srand(H::pick(1 << 30));  // Eigen's Random
    for (long i = 0; i < n; i++)
        {
        if (H::coin(0.2)) triCase();
        else tetCase();
        H::count("elements");
        }
    return H::finish();
    }
