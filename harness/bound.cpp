// Boundary conditions of the explicit solver: symbolic trace states, normals, forcing and time.
#include "mesh.hpp"
#include "problem/SWE/discretization_RKDG/rkdg_swe_problem.hpp"
#include "problem/SWE/discretization_RKDG/kernels_preprocessor/rkdg_swe_kernels_preprocessor.hpp"
#include "problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_kernels_processor.hpp"
#include "problem/SWE/discretization_RKDG/kernels_preprocessor/rkdg_swe_pre_serial.hpp"
#include "problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_serial_step.hpp"
using namespace SWE;
using H3 = HybMatrix<double, 3>;
#ifndef SPLO
#define SPLO 1
#endif
struct W { double h, u, v, b, sp, nx, ny, ze, qx, qy; };
// symbolic trace state at integration point gp of a boundary
template <typename B, typename N>
W state(B& bd, N&& normal, uint gp, const std::string& nm, double nx, double ny, double sp) {
    W w;
    w.b = hx::real(5, 9, nm + "bath", gp);
    w.ze = hx::real(-1, 1, nm + "ze", gp);
    w.qx = hx::real(-20, 20, nm + "qx", gp);
    w.qy = hx::real(-20, 20, nm + "qy", gp);
#ifdef ALONG
    { double a = w.qx; w.qx = -a * ny; w.qy = a * sp * nx; }
#endif
    w.h = w.ze + w.b;
    w.sp = sp;
    w.nx = nx; w.ny = ny;
    bd.q_at_gp(0, gp) = w.ze; bd.q_at_gp(1, gp) = w.qx; bd.q_at_gp(2, gp) = w.qy;
    bd.aux_at_gp(0, gp) = w.b; bd.aux_at_gp(1, gp) = w.h; bd.aux_at_gp(2, gp) = w.sp;
    normal(0, gp) = nx; normal(1, gp) = ny;
    return w;
}
template <typename F>
void wall(const W& w, const F& f, const char* nm, uint gp) {
    double mx = w.sp * w.nx, my = w.ny;  // physical normal (not normalised)
    hx::close(f[0], 0, 1e-7, std::string(nm) + ".mass", gp);
    // no tangential traction; the wall pushes back against water running into it
    double pe = Global::g * (w.ze * w.ze / 2 + w.ze * w.b);
    hx::close(f[1] * -my + f[2] * mx, 0, 1e-6, std::string(nm) + ".traction", gp);
#ifdef ALONG  // water running along the wall only feels the pressure
    hx::close(f[1], pe * mx, 1e-6, std::string(nm) + ".pressure.x", gp);
    hx::close(f[2], pe * my, 1e-6, std::string(nm) + ".pressure.y", gp);
#endif
}
template <typename B>
void expect(B& bd, const H3& normal, const W& w, uint gp, double ze, double qx, double qy, const char* nm) {
    H3 qi(3, 1), qe(3, 1), aux(3, 1), F(3, 1);
    HybMatrix<double, 2> n(2, 1);
    (void)normal;
    qi(0, 0) = w.ze; qi(1, 0) = w.qx; qi(2, 0) = w.qy;
    qe(0, 0) = ze; qe(1, 0) = qx; qe(2, 0) = qy;
    aux(0, 0) = w.b; aux(1, 0) = w.h; aux(2, 0) = w.sp;
    n(0, 0) = w.nx; n(1, 0) = w.ny;
    RKDG::LLF_flux(Global::g, column(qi, 0), column(qe, 0), column(aux, 0), column(n, 0), column(F, 0));
    for (uint i = 0; i < 3; ++i) hx::close(bd.F_hat_at_gp(i, gp), F(i, 0), 1e-6, nm, gp, i);
}
extern "C" void sx_harness() {
    sx_option("near", 1);
    auto def = hx::mesh2();
    hx::Sim<RKDG::Problem> s(1, hx::stepper_input(2, 2, 0.125));
    auto& pi = s.input.problem_input;
    double amp[2][2], ph[2][2], fr[2], ff[2], eq[2];
#if defined(TIDE) || defined(FLOW)
    for (int c = 0; c < 2; ++c) {
        fr[c] = hx::real(0, 1e-3, "frequency", c);
        ff[c] = hx::real(0.5, 1.5, "factor", c);
        eq[c] = hx::real(0, 360, "equilibrium", c);
        for (int k = 0; k < 2; ++k) {
            amp[c][k] = hx::real(0, 0.25, "amplitude", c, k);
            ph[c][k]  = hx::real(0, 360, "phase", c, k);
        }
    }
#endif
    // forced edge: nodes 1 -> 2 of element 0
#if defined(TIDE)
    def.bt[{1, 2}] = BoundaryTypes::tide;
    TideBoundary tb;
    for (int k = 0; k < 2; ++k) {
        TideNode t;
        for (int c = 0; c < 2; ++c) {
            t.frequency.push_back(fr[c]); t.forcing_fact.push_back(ff[c]); t.equilib_arg.push_back(eq[c]);
            t.amplitude.push_back(amp[c][k]); t.phase.push_back(ph[c][k]);
        }
        tb.tide_nodes[1 + k] = t;
    }
    TideBoundary other = tb;  // a second boundary that lacks one of the nodes
    other.tide_nodes.erase(2);
    for (auto& t : other.tide_nodes) t.second.amplitude[0] = 99;
    pi.tide_bc_data = {other, tb};
#elif defined(FLOW)
    def.bt[{1, 2}] = BoundaryTypes::flow;
    FlowBoundary tb;
    for (int k = 0; k < 2; ++k) {
        FlowNode t;
        for (int c = 0; c < 2; ++c) {
            t.frequency.push_back(fr[c]); t.forcing_fact.push_back(ff[c]); t.equilib_arg.push_back(eq[c]);
            t.amplitude.push_back(amp[c][k]); t.phase.push_back(ph[c][k]);
        }
        tb.flow_nodes[1 + k] = t;
    }
    FlowBoundary other = tb;
    other.flow_nodes.erase(2);
    for (auto& t : other.flow_nodes) t.second.amplitude[0] = 99;
    pi.flow_bc_data = {other, tb};
#elif defined(FUNC)
    def.bt[{1, 2}] = BoundaryTypes::function;
#endif
    hx::fill(s.input.mesh_input.mesh_data, def);
    s.init();
    Global::g = hx::real(1, 20, "g");
    double dt = hx::real(0, 1000, "dt");
    s.stepper = ESSPRKStepper(hx::stepper_input(2, 2, 0.125));
#ifdef RAMP
    { auto si = hx::stepper_input(2, 2, 0.125); si.ramp_duration = 2.0; s.stepper = ESSPRKStepper(si); }
#endif
    s.stepper.SetDT(dt);
    int k = sx_choice("stages", 4);
    for (int i = 0; i < k; ++i) ++s.stepper;
    double t = (k / 2) * dt + (k % 2) * dt, ramp = 1;
#ifdef RAMP
    ramp = k ? std::tanh(2 * (t / 86400) / 2.0) : 0;
#endif
    double sp = hx::real(SPLO, 1, "sp");
    uint seen = 0;
    s.disc.mesh.CallForEachBoundary([&](auto& bound) {
        using BCT = std::decay_t<decltype(bound.boundary_condition)>;
        auto& bd = bound.data.boundary[bound.bound_id];
        uint ngp = columns(bd.q_at_gp);
        std::vector<W> ws;
#if defined(LAND)
        if (std::is_same<BCT, RKDG::BC::Land>::value && !seen) {
            ++seen;
            for (uint gp = 0; gp < ngp; ++gp) {
                double nx, ny;
                hx::unit("n" + std::to_string(gp), nx, ny);
                ws.push_back(state(bd, bound.surface_normal, gp, "", nx, ny, sp));
            }
            bound.boundary_condition.ComputeFlux(s.stepper, bound);
            for (uint gp = 0; gp < ngp; ++gp) wall(ws[gp], column(bd.F_hat_at_gp, gp), "wall", gp);
            // the same wall for a single point (used by dry interfaces)
            RKDG::BC::Land land;
            land.Initialize(1);
            H3 F(3, 1);
            land.ComputeFlux(column(bound.surface_normal, 0), column(bd.q_at_gp, 0), column(bd.aux_at_gp, 0), column(F, 0));
            for (uint i = 0; i < 3; ++i) hx::close(F(i, 0), bd.F_hat_at_gp(i, 0), 1e-6, "wall.single", i);
        }
#else
#if defined(TIDE)
        using T = RKDG::BC::Tide;
#elif defined(FLOW)
        using T = RKDG::BC::Flow;
#else
        using T = RKDG::BC::Function;
#endif
        if (std::is_same<BCT, T>::value) {
            ++seen;
            for (uint gp = 0; gp < ngp; ++gp)
                ws.push_back(state(bd, bound.surface_normal, gp, "", bound.surface_normal(0, gp), bound.surface_normal(1, gp), sp));
            bound.boundary_condition.ComputeFlux(s.stepper, bound);
            // position of the integration points between node 1 and node 2
            DynRowVector<double> xs = row(bound.ComputeFgp([](Point<2>& p) { StatVector<double, 1> r; r[0] = p[0]; return r; }), 0);
            DynRowVector<double> ys = row(bound.ComputeFgp([](Point<2>& p) { StatVector<double, 1> r; r[0] = p[1]; return r; }), 0);
            for (uint gp = 0; gp < ngp; ++gp) {
                const W& w = ws[gp];
                double x1 = def.xyz[1][0], x2 = def.xyz[2][0], y1 = def.xyz[1][1], y2 = def.xyz[2][1];
                double l = ((xs[gp] - x1) * (x2 - x1) + (ys[gp] - y1) * (y2 - y1)) / ((x2 - x1) * (x2 - x1) + (y2 - y1) * (y2 - y1));
#if defined(FUNC)
                Point<2> pt;
                pt[0] = xs[gp]; pt[1] = ys[gp];
                auto q = SWE::ic_q(t, pt);
                expect(bd, bd.q_at_gp, w, gp, q[0], q[1], q[2], "function");
#else
                double f = 0;
                for (int c = 0; c < 2; ++c)
                    f += ramp * ff[c] * ((1 - l) * amp[c][0] + l * amp[c][1]) *
                         std::cos(fr[c] * t + (eq[c] - ((1 - l) * ph[c][0] + l * ph[c][1])) * PI / 180);
#if defined(TIDE)
                expect(bd, bd.q_at_gp, w, gp, f, w.qx, w.qy, "tide");
#else
                expect(bd, bd.q_at_gp, w, gp, w.ze, f * w.nx, f * w.ny, "flow");
#endif
#endif
            }
        }
#endif
    });
    hx::ok(seen == 1, "seen");
}
