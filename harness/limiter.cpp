// Cockburn-Shu slope limiter on the centre element of a four element mesh (and on one with land sides).
#include "swe.hpp"
#include "problem/SWE/problem_slope_limiter/swe_CS_sl_serial.hpp"
using namespace SWE;
static const double DIR[4][3] = {{1, 0.5, -0.25}, {-0.75, 1, 0.5}, {0.5, -1, 1}, {0.25, 0.75, -1}};
// keep clear of the switching points: which side of one a value lies on is a matter of rounding
static int sign(double x) {
    if (x > 1e-6) return 1;
    if (x < -1e-6) return -1;
    if (!sx_known(x) || x > 1e-11 || x < -1e-11) sx_cut();
    return 0;
}
static bool positive(double x) { return sign(x) > 0; }
// the limiter written down independently: vertex values of the limited target
static void oracle(const hx::MeshDef& def, uint t, const double mean[4][3], const double dev[3][3], double nu, double M, double out[3][3]) {
    auto bary = [&](uint e, int k) { return (def.xyz[def.tri[e][0]][k] + def.xyz[def.tri[e][1]][k] + def.xyz[def.tri[e][2]][k]) / 3; };
    double nb[3][3], d[3][2], dl[3][3], bed = bary(t, 2), h = mean[t][0] + bed, u = mean[t][1] / h, v = mean[t][2] / h, c = std::sqrt(9.8125 * h);
    auto mid = [&](int b, int k) { return (def.xyz[def.tri[t][(b + 1) % 3]][k] + def.xyz[def.tri[t][(b + 2) % 3]][k]) / 2 - bary(t, k); };
    for (int b = 0; b < 3; ++b) {
        uint n0 = def.tri[t][(b + 1) % 3], n1 = def.tri[t][(b + 2) % 3], other = 9;
        for (uint e = 0; e < 4; ++e)
            for (int i = 0; i < 3; ++i)
                if (e != t && def.tri[e][i] == n1 && def.tri[e][(i + 1) % 3] == n0) other = e;
        for (int k = 0; k < 2; ++k) d[b][k] = other == 9 ? 2 * mid(b, k) : bary(other, k) - bary(t, k);
        for (int w = 0; w < 3; ++w) nb[b][w] = other == 9 ? 0 : mean[other][w] - mean[t][w];
    }
    for (int b = 0; b < 3; ++b) {
        int b2 = (b + 1) % 3;
        double mx = mid(b, 0), my = mid(b, 1), rr = mx * mx + my * my, r = std::sqrt(rr), nx = mx / r, ny = my / r;
        double det = d[b][0] * d[b2][1] - d[b2][0] * d[b][1];
        double al = (mx * d[b2][1] - d[b2][0] * my) / det, be = (d[b][0] * my - mx * d[b][1]) / det;
        // left eigenvectors applied to a perturbation: (-c, 0, c) speeds
        auto chr = [&](double z, double qx, double qy, double* w) {
            double un = u * nx + v * ny, qn = qx * nx + qy * ny;
            w[0] = ((un + c) * z - qn) / (2 * c);
            w[1] = -(v * nx - u * ny) * z - ny * qx + nx * qy;
            w[2] = ((c - un) * z + qn) / (2 * c);
        };
        double own[3], ngh[3], lim[3];
        // deviation at the midpoint of edge b: average of the two vertices on it
        double o[3], g[3];
        for (int w = 0; w < 3; ++w) {
            o[w] = (dev[w][(b + 1) % 3] + dev[w][(b + 2) % 3]) / 2;
            g[w] = al * nb[b][w] + be * nb[b2][w];
        }
        chr(o[0], o[1], o[2], own);
        chr(g[0], g[1], g[2], ngh);
        for (int w = 0; w < 3; ++w) {
            if (std::abs(own[w]) <= M * rr) lim[w] = own[w];
            else if (sign(own[w]) * sign(ngh[w]) <= 0) lim[w] = 0;
            else lim[w] = sign(own[w]) * sign(own[w] - nu * ngh[w]) > 0 ? nu * ngh[w] : own[w];
        }
        dl[0][b] = lim[0] + lim[2];
        dl[1][b] = (u - c * nx) * lim[0] - ny * lim[1] + (u + c * nx) * lim[2];
        dl[2][b] = (v - c * ny) * lim[0] + nx * lim[1] + (v + c * ny) * lim[2];
    }
    for (int w = 0; w < 3; ++w) {
        double pos = 0, neg = 0;
        bool up[3];
        for (int b = 0; b < 3; ++b) {
            up[b] = positive(dl[w][b]);
            up[b] ? pos += dl[w][b] : neg -= dl[w][b];
        }
        int more = sign(pos - neg);
        double f = more > 0 ? neg / pos : 1, k = more < 0 ? pos / neg : 1;
        for (int b = 0; b < 3; ++b) dl[w][b] *= up[b] ? f : k;
        for (int i = 0; i < 3; ++i) out[w][i] = mean[t][w] + dl[w][(i + 1) % 3] + dl[w][(i + 2) % 3] - dl[w][i];
    }
}
extern "C" void sx_harness() {
    sx_option("snap", 1e-13); sx_option("ite", 0); sx_option("abs_fork", 1);
    auto def = hx::mesh4();
    if (hx::param("FLAT")) {  // affine image of four equilateral triangles: non-negative weights of the neighbours
        double P[6][2] = {{0, 0}, {2, 0.5}, {0.5, 1.5}, {2.5, 2}, {-1.5, 1}, {1.5, -1}};
        for (int i = 0; i < 6; ++i) def.xyz[i][0] = P[i][0], def.xyz[i][1] = P[i][1];
    }
    hx::Sim<DISC::Problem> s(PORD, hx::stepper_input(2, 2, 0.125));
    auto& sl = s.input.problem_input.slope_limit;
    sl.type = SlopeLimitingType::CockburnShu; sl.M = hx::param("TVB") ? 100 : 0; sl.nu = 1.5;
    hx::fill(s.input.mesh_input.mesh_data, def);
    DISC::Problem::initialize_problem_parameters(s.input.problem_input);
    s.init();
    Global::g = 9.8125;
    bool lin = hx::param("LIN"), flat = hx::param("FLAT"), dry = hx::param("DRY"), tvb = hx::param("TVB");
    uint target = hx::param("T", 0);
    int fam = flat || dry ? 0 : sx_choice("family", hx::param("FAMS", 4));
    // mean states of the elements and vertex slopes of the target
    double mean[4][3], dev[3][3] = {};
    for (uint e = 0; e < 4; ++e)
        for (uint v = 0; v < 3; ++v) mean[e][v] = v == 0 ? 0.125 * e : 2.0 * v - 0.5 * e;
    double lc[3][3] = {};
    if (lin) {
        double a = hx::real(-1, 1, "slope"), b = hx::real(-1, 1, "slope2");
        for (uint v = 0; v < 3; ++v)
            for (uint k = 1; k < 3; ++k) lc[v][k] = a * DIR[(fam + v) % 4][k] / 4 + b * DIR[(fam + v + 2) % 4][2 - k] / 4;
    } else if (flat) {
        // water at rest whose mean level in the target is not below that of any neighbour
        int up = sx_choice("extremum", 2), kk = sx_choice("pattern", 3);
        double jump = hx::real(0.001, 1, "jump");
        for (uint e = 0; e < 4; ++e) {
            mean[e][1] = mean[e][2] = 0;
            mean[e][0] = e == 0 ? 0.25 : 0.25 + (up ? -1 : 1) * jump * ((e + kk) % 3 + 1) * 0.5;
        }
        dev[0][0] = hx::real(-1, 1, "dev", 0); dev[0][1] = hx::real(-1, 1, "dev", 1); dev[0][2] = -dev[0][0] - dev[0][1];
    } else {
        double a = hx::real(-1, 1, "slope"), b = hx::param("ONE") ? 0.375 : hx::real(-1, 1, "jump"), c = tvb ? hx::real(-1, 1, "slope2") : 0.125;
        for (uint v = 0; v < 3; ++v) {
            for (uint i = 0; i < 3; ++i) dev[v][i] = a * DIR[(fam + v) % 4][i] + c * DIR[(fam + v + 1) % 4][(i + fam) % 3];
            double m = (dev[v][0] + dev[v][1] + dev[v][2]) / 3;
            for (uint i = 0; i < 3; ++i) dev[v][i] -= m;
            for (uint e = 0; e < 4; ++e)
                if (e != target) mean[e][v] += b * DIR[(e + fam) % 4][v];
        }
    }
    double xb[2];
    for (uint k = 0; k < 2; ++k) xb[k] = (def.xyz[def.tri[0][0]][k] + def.xyz[def.tri[0][1]][k] + def.xyz[def.tri[0][2]][k]) / 3;
    std::map<uint, HybMatrix<double, 3>> q0;
    std::map<uint, bool> wet;
    s.each([&](auto& e) {
        uint id = e.GetID();
        HybMatrix<double, 3> vx(3, 3);
        for (uint v = 0; v < 3; ++v)
            for (uint i = 0; i < 3; ++i) {
                auto& x = def.xyz[def.tri[id][i]];
                vx(v, i) = lin ? mean[0][v] + lc[v][1] * (x[0] - xb[0]) + lc[v][2] * (x[1] - xb[1]) : mean[id][v] + (id == target ? dev[v][i] : 0);
            }
        auto& st = e.data.state[0];
        st.q = e.ProjectLinearToBasis(vx);
        if (id == target && !lin)
            for (uint d = 3; d < e.data.get_ndof(); ++d)
                for (uint v = 0; v < 3; ++v) st.q(v, d) = hx::real(-0.25, 0.25, "mode", v, d);
        wet[id] = true;
        if (dry) wet[id] = sx_choice(hx::nm("wet", id).c_str(), 2);
        e.data.wet_dry_state.wet = wet[id];
        q0[id] = st.q;
    });
    s.each([&](auto& e) { slope_limiting_prepare_element_kernel(s.stepper, e); });
    s.disc.mesh.CallForEachInterface([&](auto& f) { slope_limiting_prepare_interface_kernel(s.stepper, f); });
    s.disc.mesh.CallForEachBoundary([&](auto& b) { slope_limiting_prepare_boundary_kernel(s.stepper, b); });
    s.each([&](auto& e) {
        uint id = e.GetID();
        if (id != target && !dry) return;
        auto& st = e.data.state[0];
        bool near_dry = !wet[id];
        for (uint i = 0; i < 3; ++i) near_dry |= e.GetNeighborID()[i] < 4 && !wet[e.GetNeighborID()[i]];
        if (dry && !near_dry) return;
        slope_limiting_kernel(s.stepper, e);
        for (uint v = 0; v < 3; ++v) {
            sx_observe(hx::nm("q", v).c_str(), st.q(v, 1));
            hx::close(hx::integral(e, row(st.q, v)), hx::integral(e, row(q0[id], v)), 1e-9, "mean", v);
            if (hx::param("MEAN")) {
                double exp[3][3];
                oracle(def, target, mean, dev, 1.5, 0, exp);
                HybMatrix<double, 3> got = e.ProjectBasisToLinear(st.q);
                for (uint i = 0; i < 3; ++i) hx::close(got(v, i), exp[v][i], 1e-8, "limited", v, i);
            }
            if (lin || near_dry || tvb)
                for (uint d = 0; d < e.data.get_ndof(); ++d) hx::close(st.q(v, d), q0[id](v, d), 1e-9, "unchanged", v, d);
            if (flat)
                for (uint d = 1; d < e.data.get_ndof(); ++d)
                    if (d < 3) hx::close(st.q(v, d), 0, 1e-6, "flat", v, d);
        }
    });
}
