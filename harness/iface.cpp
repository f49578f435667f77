// Interfaces of the explicit solver: wet/dry exchange and levees, symbolic trace states and normals.
#include "mesh.hpp"
#include "problem/SWE/discretization_RKDG/rkdg_swe_problem.hpp"
#include "problem/SWE/discretization_RKDG/kernels_preprocessor/rkdg_swe_kernels_preprocessor.hpp"
#include "problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_kernels_processor.hpp"
#include "problem/SWE/discretization_RKDG/kernels_preprocessor/rkdg_swe_pre_serial.hpp"
#include "problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_serial_step.hpp"
using namespace SWE;
using H3 = HybMatrix<double, 3>;
struct St { double b, ze, h, u, v, qx, qy; };
template <typename B>
St put(B& bd, uint gp, const std::string& nm, double b, double ze, double h, double u, double v, double sp) {
    (void)nm;
    St s{b, ze, h, u, v, h * u, h * v};
    bd.q_at_gp(0, gp) = ze; bd.q_at_gp(1, gp) = s.qx; bd.q_at_gp(2, gp) = s.qy;
    bd.aux_at_gp(0, gp) = b; bd.aux_at_gp(1, gp) = h; bd.aux_at_gp(2, gp) = sp;
    return s;
}
extern "C" void sx_harness() {
    auto def = hx::mesh2();
    hx::Sim<RKDG::Problem> s(1, hx::stepper_input(2, 2, 0.125));
#ifdef LEVEE
    double H[2] = {hx::real(-1, 1, "crest", 0), hx::real(-1, 1, "crest", 1)};
    double Cs[2] = {hx::real(0.5, 1, "csub", 0), hx::real(0.5, 1, "csub", 1)};
    double Cp[2] = {hx::real(0.5, 1, "csup", 0), hx::real(0.5, 1, "csup", 1)};
    // the two sides of the levee have their own nodes, a levee width apart: 0|4 and 2|5
    def.xyz.push_back({{def.xyz[0][0] - 0.275, def.xyz[0][1] + 0.25, 6}});
    def.xyz.push_back({{def.xyz[2][0] - 0.275, def.xyz[2][1] + 0.25, 6}});
    def.tri[1] = {{5, 3, 4}};
    def.bt[{2, 0}] = def.bt[{4, 5}] = BoundaryTypes::levee;
    int order = sx_choice("levee key order", 3);  // pairs may be given from either side
    for (int k = 0; k < 2; ++k) {
        LeveeInput li; li.H_barrier = H[k]; li.C_subcritical = Cs[k]; li.C_supercritical = Cp[k];
        uint a = k ? 2 : 0, b = k ? 5 : 4;
        if (order == 1 || (order == 2 && k)) std::swap(a, b);
        s.input.problem_input.levee_is_data[{a, b}] = li;
    }
#endif
    hx::fill(s.input.mesh_input.mesh_data, def);
#ifdef LEVEE
    s.input.mesh_input.mesh_data.elements[0].neighbor_ID[1] = 1;
    s.input.mesh_input.mesh_data.elements[1].neighbor_ID[1] = 0;
#endif
    s.init();
    double g = hx::real(1, 20, "g");
    Global::g = g;
    double sp = hx::real(0.5, 1, "sp");
    uint seen = 0;
    s.disc.mesh.CallForEachInterface([&](auto& f) {
        using T = std::decay_t<decltype(f.specialization)>;
        auto& bi = f.data_in.boundary[f.bound_id_in];
        auto& be = f.data_ex.boundary[f.bound_id_ex];
        uint ngp = columns(bi.q_at_gp);
        double nx, ny;
        hx::unit("n", nx, ny);
        for (uint gp = 0; gp < ngp; ++gp) {
            f.surface_normal_in(0, gp) = nx; f.surface_normal_in(1, gp) = ny;
            f.surface_normal_ex(0, gp) = -nx; f.surface_normal_ex(1, gp) = -ny;
        }
#ifndef LEVEE
        if (!std::is_same<T, RKDG::ISP::Internal>::value) return;
        ++seen;
        int wi = sx_choice("wet_in", 2), we = sx_choice("wet_ex", 2);
        f.data_in.wet_dry_state.wet = wi; f.data_ex.wet_dry_state.wet = we;
        // one integration point at a time is general, the others are benign
        std::vector<St> si(ngp), se(ngp);
        for (uint gp = 0; gp < ngp; ++gp) {
            bool sym = gp == 0;
            double b = sym ? hx::real(-1, 5, "bath") : 4.0;
            double hi = sym ? hx::real(0.05, 8, "h_in") : 3.0, he = sym ? hx::real(0.05, 8, "h_ex") : 3.0;
            si[gp] = put(bi, gp, "in", b, hi - b, hi, sym ? hx::real(-4, 4, "u_in") : 0.0, sym ? hx::real(-4, 4, "v_in") : 0.0, sp);
            se[gp] = put(be, ngp - gp - 1, "ex", b, he - b, he, sym ? hx::real(-4, 4, "u_ex") : 0.0, sym ? hx::real(-4, 4, "v_ex") : 0.0, sp);
        }
        // the flux that both sides would see if they were wet
        H3 F(3, 1);
        RKDG::LLF_flux(g, column(bi.q_at_gp, 0), column(be.q_at_gp, ngp - 1), column(bi.aux_at_gp, 0), column(f.surface_normal_in, 0), column(F, 0));
        double m = F(0, 0);
        f.specialization.ComputeFlux(f);
        auto Fi = column(bi.F_hat_at_gp, 0);
        auto Fe = column(be.F_hat_at_gp, ngp - 1);
        // nothing is lost at the edge, whatever is wet
        hx::close(Fi[0] + Fe[0], 0, 1e-9, "exchange.mass");
        // a dry element never gives water away
        if (!wi) hx::ge(0, Fi[0], 1e-9, "exchange.dry.in");
        if (!we) hx::ge(0, Fe[0], 1e-9, "exchange.dry.ex");
        if (wi && we) {
            for (uint i = 0; i < 3; ++i) {
                hx::close(Fi[i], F(i, 0), 1e-9, "exchange.wet.in", i);
                hx::close(Fe[i], -F(i, 0), 1e-9, "exchange.wet.ex", i);
            }
        } else {
            // water that a wet element gives away is the amount it would give to a wet neighbour
            if (m > 1e-6 && wi) hx::close(Fi[0], m, 1e-9, "exchange.donor.in");
            if (m < -1e-6 && we) hx::close(Fi[0], m, 1e-9, "exchange.donor.ex");
            // no exchange with a dry donor: it feels nothing, the other side a wall
            if (m > 1e-6 && !wi) {
                for (uint i = 0; i < 3; ++i) hx::close(Fi[i], 0, 1e-12, "exchange.none.in", i);
                hx::close(Fe[1] * -ny + Fe[2] * sp * nx, 0, 1e-6, "exchange.wall.ex");
            }
            if (m < -1e-6 && !we) {
                for (uint i = 0; i < 3; ++i) hx::close(Fe[i], 0, 1e-12, "exchange.none.ex", i);
                hx::close(Fi[1] * -ny + Fi[2] * sp * nx, 0, 1e-6, "exchange.wall.in");
            }
            // a dry receiver gets the momentum of the water but no pressure; the donor is not affected by its dryness
            H3 G(3, 1);
            if (m > 1e-6 && wi && !we) {
                RKDG::LLF_flux(0.0, column(be.q_at_gp, ngp - 1), column(bi.q_at_gp, 0), column(be.aux_at_gp, ngp - 1), column(f.surface_normal_ex, ngp - 1), column(G, 0));
                for (uint i = 1; i < 3; ++i) hx::close(Fi[i], F(i, 0), 1e-9, "exchange.giver.in", i);
                for (uint i = 1; i < 3; ++i) hx::close(Fe[i], G(i, 0), 1e-9, "exchange.receiver.ex", i);
            }
            if (m < -1e-6 && we && !wi) {
                RKDG::LLF_flux(0.0, column(bi.q_at_gp, 0), column(be.q_at_gp, ngp - 1), column(bi.aux_at_gp, 0), column(f.surface_normal_in, 0), column(G, 0));
                for (uint i = 1; i < 3; ++i) hx::close(Fe[i], -F(i, 0), 1e-9, "exchange.giver.ex", i);
                for (uint i = 1; i < 3; ++i) hx::close(Fi[i], G(i, 0), 1e-9, "exchange.receiver.in", i);
            }
        }
#else
        if (!std::is_same<T, RKDG::ISP::Levee>::value) return;
        ++seen;
        f.data_in.wet_dry_state.wet = 1; f.data_ex.wet_dry_state.wet = 1;
        uint k = sx_choice("gp", ngp);
        // crest and coefficients at the point: linear between the end nodes of the edge
        DynRowVector<double> ls = row(f.ComputeFgpIN([&](Point<2>& p) {
            StatVector<double, 1> r;
            double dx = def.xyz[2][0] - def.xyz[0][0], dy = def.xyz[2][1] - def.xyz[0][1];
            r[0] = ((p[0] - def.xyz[0][0]) * dx + (p[1] - def.xyz[0][1]) * dy) / (dx * dx + dy * dy);
            return r;
        }), 0);
        double l = ls[k];
        hx::ok(f.data_in.get_nnode() == 3 && l > 0 && l < 1, "levee.side");
        double Hc = (1 - l) * H[0] + l * H[1], cs = (1 - l) * Cs[0] + l * Cs[1], cp = (1 - l) * Cp[0] + l * Cp[1];
        sx_option("near", 1);
        for (uint gp = 0; gp < ngp; ++gp)
            if (gp != k) {
                put(bi, gp, "in", 5, -2, 3, 0, 0, 1);
                put(be, ngp - gp - 1, "ex", 5, -2, 3, 0, 0, 1);
            }
        double di = hx::real(-1, 2, "above_in"), de = hx::real(-1, 2, "above_ex");
        double zi = Hc + di, ze = Hc + de, Bi = hx::real(3, 6, "bath_in"), Be = hx::real(3, 6, "bath_ex");
        uint ke = ngp - k - 1;
#if LEVEE == 1
        // not overtopped, or level on both sides: two walls
        double tol = 0.005;
        int c = sx_choice("case", 2);
        if (c == 0) { sx_assume_ge(tol, di); sx_assume_ge(tol, de); }
        else { sx_assume_ge(di, de - tol); sx_assume_ge(de + tol, di); }
        St a = put(bi, k, "in", Bi, zi, zi + Bi, hx::real(-2, 2, "u_in"), hx::real(-2, 2, "v_in"), sp);
        St b = put(be, ke, "ex", Be, ze, ze + Be, hx::real(-2, 2, "u_ex"), hx::real(-2, 2, "v_ex"), sp);
        (void)a; (void)b;
        f.specialization.ComputeFlux(f);
        hx::close(bi.F_hat_at_gp(0, k), 0, 1e-7, "levee.closed.in");
        hx::close(be.F_hat_at_gp(0, ke), 0, 1e-7, "levee.closed.ex");
        hx::close(bi.F_hat_at_gp(1, k) * -ny + bi.F_hat_at_gp(2, k) * sp * nx, 0, 1e-6, "levee.traction.in");
        hx::close(be.F_hat_at_gp(1, ke) * ny + be.F_hat_at_gp(2, ke) * -sp * nx, 0, 1e-6, "levee.traction.ex");
#else
        // overtopped: with both sides running at the weir discharge, that discharge crosses, from high to low
        int up = sx_choice("upstream", 2);
        double hu = up ? de : di, hd = up ? di : de;
        sx_assume_ge(hu, 0.02); sx_assume_ge(hu, hd + 0.02);
        double q;
        if (hd > 2 * hu / 3) q = cs * hd * std::sqrt(2 * g * (hu - hd));
        else q = cp * (2 * hu / 3) * std::sqrt(g * (2 * hu / 3));
        double d = up ? -1 : 1;  // direction along the interior normal
        auto at = [&](auto& bd, uint p, double B, double z) {
            bd.q_at_gp(0, p) = z; bd.q_at_gp(1, p) = d * q * nx; bd.q_at_gp(2, p) = d * q * ny;
            bd.aux_at_gp(0, p) = B; bd.aux_at_gp(1, p) = z + B; bd.aux_at_gp(2, p) = 1;
        };
        at(bi, k, Bi, zi); at(be, ke, Be, ze);
        f.specialization.ComputeFlux(f);
        hx::close(bi.F_hat_at_gp(0, k), d * q, 1e-6, "levee.discharge.in");
        hx::close(be.F_hat_at_gp(0, ke), -d * q, 1e-6, "levee.discharge.ex");
        // pressure and momentum of that state
        double pin = g * (zi * zi / 2 + zi * Bi), pex = g * (ze * ze / 2 + ze * Be);
        hx::close(bi.F_hat_at_gp(1, k), (q * q / (zi + Bi) + pin) * nx, 1e-5, "levee.momentum.in.x");
        hx::close(bi.F_hat_at_gp(2, k), (q * q / (zi + Bi) + pin) * ny, 1e-5, "levee.momentum.in.y");
        hx::close(be.F_hat_at_gp(1, ke), -(q * q / (ze + Be) + pex) * nx, 1e-5, "levee.momentum.ex.x");
        hx::close(be.F_hat_at_gp(2, ke), -(q * q / (ze + Be) + pex) * ny, 1e-5, "levee.momentum.ex.y");
#endif
#endif
    });
    hx::ok(seen == 1, "seen");
}
