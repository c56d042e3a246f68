// h_settings n seed FILE...: for each group of files (separated by "--"), reads them in order with
// the real Settings class and prints what it holds with all its digits, one JSON object per line.
#include "harness.h"
#include "settings.h"

static std::string js(const std::string &s)
    {
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s)
        {
        if (c == '"' || c == '\\' || c < 32) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
        }
    return o + '"';
    }
static std::string num(double x)
    {
    if (std::isnan(x)) return "null";
    if (std::isinf(x)) return x > 0 ? "1e999" : "-1e999";
    char b[40];
    snprintf(b, sizeof b, "%.17g", x);
    return b;
    }
static std::string vec(const Eigen::Vector3d &v)
    {
    if (std::isnan(v.norm())) return "null";
    return "[" + num(v.x()) + "," + num(v.y()) + "," + num(v.z()) + "]";
    }
static const char *boo(bool b) { return b ? "true" : "false"; }

static void dump(Settings &s)
    {
    std::string o = "{\"time_step\":" + num(s.time_step) + ",\"tf\":" + num(s.tf) + ",\"scale\":" + num(s.getScale())
        + ",\"save_period\":" + std::to_string(s.save_period) + ",\"dir\":" + js(s.r_path_output_dir)
        + ",\"sim\":" + js(s.getSimName()) + ",\"pb\":" + js(s.getPbName()) + ",\"cols\":[";
    for (size_t i = 0; i < s.evol_columns.size(); i++) o += (i ? "," : "") + js(s.evol_columns[i]);
    o += "],\"vol\":{";
    bool first = true;
    for (auto &p : s.paramTetra)
        {
        if (p.regName == "__default__") continue;
        o += (first ? "" : ",") + js(p.regName) + ":{\"Ae\":" + num(p.A) + ",\"Ms\":" + num(p.Ms) + ",\"K\":" + num(p.K)
            + ",\"uk\":" + vec(p.uk) + ",\"K3\":" + num(p.K3) + ",\"ex\":" + vec(p.ex) + ",\"ey\":" + vec(p.ey)
            + ",\"ez\":" + vec(p.ez) + ",\"alpha_LLG\":" + num(p.alpha_LLG) + ",\"sigma\":" + num(p.sigma)
            + ",\"dens_state\":" + num(p.N0) + ",\"P\":" + num(p.P) + ",\"l_sd\":" + num(p.lsd) + ",\"l_sf\":" + num(p.lsf) + "}";
        first = false;
        }
    o += "},\"surf\":{";
    first = true;
    for (auto &p : s.paramTriangle)
        {
        if (p.regName == "__default__") continue;
        o += (first ? "" : ",") + js(p.regName) + ":{\"suppress_charges\":" + boo(p.suppress_charges) + ",\"Ks\":" + num(p.Ks)
            + ",\"uk\":" + vec(p.uk) + ",\"jn\":" + num(p.jn) + ",\"V\":" + num(p.V) + ",\"uP\":" + vec(p.uP) + ",\"s\":" + vec(p.s) + "}";
        first = false;
        }
    o += "},\"initial_time\":" + num(s.initial_time) + ",\"recenter\":" + boo(s.recenter) + ",\"direction\":"
        + std::to_string((int) s.recentering_direction) + ",\"threshold\":" + num(s.threshold) + ",\"spin_acc\":" + boo(s.spin_acc)
        + ",\"V_file\":" + boo(s.V_file) + ",\"nb_threads\":" + std::to_string(s.scalfmmNbTh) + ",\"maxiter\":"
        + std::to_string(s.MAXITER) + ",\"tol\":" + num(s.TOL) + ",\"dumax\":" + num(s.DUMAX) + ",\"dtmin\":" + num(s.dt_min)
        + ",\"dtmax\":" + num(s.dt_max) + ",\"restore\":" + js(s.restoreFileName);
    // behaviour of the expressions
    Eigen::Vector3d p(0.25, -1.5, 3);
    o += ",\"m\":" + (s.restoreFileName.empty() ? vec(s.getMagType() == POSITION_ONLY ? s.getMagnetization(p)
            : s.getMagnetization(p, { "vol", "b" })) : std::string("null"));
    if (s.getFieldType() == RtoR3) o += ",\"B\":" + vec(s.getField(0.75));
    else o += ",\"B\":" + vec(s.getFieldSpace(p) * s.getFieldTime(0.75));
    o += "}";
    printf("\n@JSON\t%s\n", o.c_str());
    }

int main(int argc, char **argv)
    {
    long n;
    H::start(argc, argv, n);
    int i = 3;
    while (i < argc)
        {
        Settings s;
        for (; i < argc && std::string(argv[i]) != "--"; i++) s.read(argv[i]);
        i++;
        dump(s);
        }
    return H::finish();
    }
