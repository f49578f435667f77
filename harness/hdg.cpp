// Traces of the hybridised solvers: wet/dry exchange and walls (EHDG), forcing of open boundaries (EHDG, IHDG).
// The trace solver of the open boundaries is replaced by a recorder: what it is asked to solve is what is checked.
#define COMPUTE_BC_TRACE_HPP
#define OWN_FUNCTIONS
#include "mesh.hpp"
namespace SWE { template <typename E> void compute_bc_trace(E& e); }
#include "swe.hpp"
using namespace SWE;
using H3 = HybMatrix<double, 3>;
static H3 seen_q_ex;
static int n_trace;
static double trace[3][2];
namespace SWE {
template <typename E>
void compute_bc_trace(E& e) {
    seen_q_ex = e.boundary.boundary_condition.q_ex;
    for (uint d = 0; d < e.edge_data.get_ndof(); ++d) for (uint v = 0; v < 3; ++v) e.edge_data.edge_state.q_hat(v, d) = trace[v][d % 2];
    ++n_trace;
}
}
static double coef[3][5];
namespace SWE {
StatVector<double, 3> ic_q(const double t, const Point<2>& p) {
    StatVector<double, 3> r{0.0, 0.0, 0.0};
    for (int v = 0; v < 3; ++v) r[v] = coef[v][0] + coef[v][1] * t + coef[v][2] * p[0] + coef[v][3] * p[1] + coef[v][4] * t * p[0];
    return r;
}
StatVector<double, 3> source_q(const double, const Point<2>&) { return StatVector<double, 3>{0.0, 0.0, 0.0}; }
}
struct S { double b, h, u, v, ze, qx, qy, un; };
static S mk(double b, double h, double u, double v, double nx, double ny) { return S{b, h, u, v, h - b, h * u, h * v, u * nx + v * ny}; }
template <typename B>
void put(B& bd, uint gp, const S& s) { bd.q_at_gp(0, gp) = s.ze; bd.q_at_gp(1, gp) = s.qx; bd.q_at_gp(2, gp) = s.qy; bd.aux_at_gp(0, gp) = s.b; }
// the numerical flux of the hybridised method from the definition, (trace state t, inner state i)
static void hdg_flux(double g, double b, const double t[3], const double i[3], double nx, double ny, double f[3]) {
    double h = t[0] + b, u = t[1] / h, v = t[2] / h, un = u * nx + v * ny, pe = g * (t[0] * t[0] / 2 + t[0] * b);
    double tau = std::fabs(un) + std::sqrt(g * h);
    f[0] = h * un + tau * (i[0] - t[0]);
    f[1] = t[1] * un + pe * nx + tau * (i[1] - t[1]);
    f[2] = t[2] * un + pe * ny + tau * (i[2] - t[2]);
}
#ifdef USE_IHDG
using PB = IHDG::Problem;
#define NS IHDG
#else
using PB = EHDG::Problem;
#define NS EHDG
#endif
#ifndef USE_IHDG
static void exchange() {
    auto def = hx::mesh2();
#ifdef USE_IHDG
    hx::Sim<PB> s(1, hx::stepper_input(1, 1, 0.125));
#else
    hx::Sim<PB> s(1, hx::stepper_input(2, 2, 0.125));
#endif
    uint seen = 0;
    hx::fill(s.input.mesh_input.mesh_data, def);
    s.init();
    double g = hx::real(1, 20, "g");
    Global::g = g;
    s.disc.mesh_skeleton.CallForEachEdgeInterface([&](auto& e) {
        auto& f = e.interface;
        ++seen;
        int wi = sx_choice("wet_in", 2), we = sx_choice("wet_ex", 2);
        f.data_in.wet_dry_state.wet = wi; f.data_ex.wet_dry_state.wet = we;
        auto& bi = f.data_in.boundary[f.bound_id_in];
        auto& be = f.data_ex.boundary[f.bound_id_ex];
        uint ngp = columns(bi.q_at_gp), at = sx_choice("point", ngp);
        double nx, ny;
        hx::unit("n", nx, ny);
        S si, se;
        for (uint gp = 0; gp < ngp; ++gp) {
            f.surface_normal_in(0, gp) = nx; f.surface_normal_in(1, gp) = ny;
            f.surface_normal_ex(0, ngp - gp - 1) = -nx; f.surface_normal_ex(1, ngp - gp - 1) = -ny;
            double b = gp == at ? hx::real(-1, 5, "bath") : 4.0, d = gp == at ? 0 : 3;
            // states of the point under study are general, the others at rest
            S i = mk(b, d ? d : hx::real(0.05, 8, "h_in"), d ? 0 : hx::real(-4, 4, "u_in"), d ? 0 : hx::real(-4, 4, "v_in"), nx, ny);
            S x = mk(b, d ? d : hx::real(0.05, 8, "h_ex"), d ? 0 : hx::real(-4, 4, "u_ex"), d ? 0 : hx::real(-4, 4, "v_ex"), nx, ny);
            put(bi, gp, i);
            put(be, ngp - gp - 1, x);
            e.edge_data.edge_internal.aux_hat_at_gp(0, gp) = b;
            if (gp == at) { si = i; se = x; }
        }
        f.specialization.ComputeNumericalFlux(e);
        auto Fi = column(bi.F_hat_at_gp, at);
        auto Fe = column(be.F_hat_at_gp, ngp - at - 1);
        if (!wi && !we) return;
        // the plain numerical flux: trace is the mean of the two states
        double t[3] = {(si.ze + se.ze) / 2, (si.qx + se.qx) / 2, (si.qy + se.qy) / 2}, in[3] = {si.ze, si.qx, si.qy}, ex[3] = {se.ze, se.qx, se.qy}, F[3], G[3];
        hdg_flux(g, si.b, t, in, nx, ny, F);
        // nothing is lost at the edge, whatever is wet; a dry element never gives water away
        hx::close(Fi[0] + Fe[0], 0, 1e-9, "exchange.mass");
        if (!wi) hx::ge(0, Fi[0], 1e-9, "exchange.dry.in");
        if (!we) hx::ge(0, Fe[0], 1e-9, "exchange.dry.ex");
        if (wi && we) {
            for (uint i = 0; i < 3; ++i) { hx::close(Fi[i], F[i], 1e-7, "exchange.wet.in", i); hx::close(Fe[i], -F[i], 1e-7, "exchange.wet.ex", i); }
        } else {
            double m = F[0];
            if (m > 1e-6 && wi) {
                for (uint i = 0; i < 3; ++i) hx::close(Fi[i], F[i], 1e-7, "exchange.giver.in", i);
                hdg_flux(0.0, si.b, t, ex, -nx, -ny, G);
                for (uint i = 1; i < 3; ++i) hx::close(Fe[i], G[i], 1e-7, "exchange.receiver.ex", i);
            }
            if (m < -1e-6 && we) {
                for (uint i = 0; i < 3; ++i) hx::close(Fe[i], -F[i], 1e-7, "exchange.giver.ex", i);
                hdg_flux(0.0, si.b, t, in, nx, ny, G);
                for (uint i = 1; i < 3; ++i) hx::close(Fi[i], G[i], 1e-7, "exchange.receiver.in", i);
            }
            if (m > 1e-6 && !wi) {
                for (uint i = 0; i < 3; ++i) hx::close(Fi[i], 0, 1e-12, "exchange.none.in", i);
                hx::close(Fe[1] * -ny + Fe[2] * nx, 0, 1e-6, "exchange.wall.ex");
            }
            if (m < -1e-6 && !we) {
                for (uint i = 0; i < 3; ++i) hx::close(Fe[i], 0, 1e-12, "exchange.none.ex", i);
                hx::close(Fi[1] * -ny + Fi[2] * nx, 0, 1e-6, "exchange.wall.in");
            }
        }
    });
    hx::ok(seen == 1, "seen");
}
static void walls() {
    auto def = hx::mesh2();
#ifdef USE_IHDG
    hx::Sim<PB> s(1, hx::stepper_input(1, 1, 0.125));
#else
    hx::Sim<PB> s(1, hx::stepper_input(2, 2, 0.125));
#endif
    uint seen = 0;
    hx::fill(s.input.mesh_input.mesh_data, def);
    s.init();
    double g = hx::real(1, 20, "g");
    Global::g = g;
    s.disc.mesh_skeleton.CallForEachEdgeBoundary([&](auto& e) {
        if (seen) return;
        ++seen;
        auto& b = e.boundary;
        auto& bd = b.data.boundary[b.bound_id];
        uint ngp = columns(bd.q_at_gp);
        std::vector<S> st(ngp);
        std::vector<double> X(ngp), Y(ngp);
        for (uint gp = 0; gp < ngp; ++gp) {
            double nx, ny;
            hx::unit("n" + std::to_string(gp), nx, ny);
            b.surface_normal(0, gp) = X[gp] = nx; b.surface_normal(1, gp) = Y[gp] = ny;
            st[gp] = mk(hx::real(-1, 5, "bath", gp), hx::real(0.05, 8, "h", gp), hx::real(-4, 4, "u", gp), hx::real(-4, 4, "v", gp), nx, ny);
            put(bd, gp, st[gp]);
            e.edge_data.edge_internal.aux_hat_at_gp(0, gp) = st[gp].b;
        }
        b.boundary_condition.ComputeNumericalFlux(s.stepper, e);
        for (uint gp = 0; gp < ngp; ++gp) {
            const S& w = st[gp];
            auto F = column(bd.F_hat_at_gp, gp);
            double pe = g * (w.ze * w.ze / 2 + w.ze * w.b);
            hx::close(F[0], 0, 1e-7, "wall.mass", gp);
            hx::close(F[1] * -Y[gp] + F[2] * X[gp], 0, 1e-6, "wall.traction", gp);
            // pressure plus what stops the normal flow
            hx::close(F[1] * X[gp] + F[2] * Y[gp], pe + std::sqrt(g * w.h) * w.h * w.un, 1e-6, "wall.normal", gp);
        }
    });
    hx::ok(seen == 1, "seen");
}
#endif
enum Kind { TIDE, FLOW, FUNC };
template <typename T, Kind KIND>
static void open_boundary() {
    auto def = hx::mesh2();
#ifdef USE_IHDG
    hx::Sim<PB> s(1, hx::stepper_input(1, 1, 0.125));
#else
    hx::Sim<PB> s(1, hx::stepper_input(2, 2, 0.125));
#endif
    uint seen = 0;
    auto& pi = s.input.problem_input;
    double amp[2][2], ph[2][2], fr[2], ff[2], eq[2];
    if (KIND != FUNC)
    for (int c = 0; c < 2; ++c) {
        fr[c] = hx::real(0, 1e-3, "frequency", c);
        ff[c] = hx::real(0.5, 1.5, "factor", c);
        eq[c] = hx::real(0, 360, "equilibrium", c);
        for (int k = 0; k < 2; ++k) { amp[c][k] = hx::real(0, 0.25, "amplitude", c, k); ph[c][k] = hx::real(0, 360, "phase", c, k); }
    }
    for (int v = 0; v < 3; ++v) for (int k = 0; k < 5; ++k) coef[v][k] = hx::real(-1, 1, "fn", v, k);
    for (uint d = 0; d < 2; ++d) { trace[0][d] = d ? 0.125 : 0.5; trace[1][d] = d ? -0.25 : 1.5; trace[2][d] = d ? 0.375 : -0.75; }
    def.bt[{1, 2}] = KIND == TIDE ? BoundaryTypes::tide : KIND == FLOW ? BoundaryTypes::flow : BoundaryTypes::function;
    TideBoundary tb; FlowBoundary fb;
    if (KIND != FUNC)
        for (int k = 0; k < 2; ++k) {
            auto node = [&](auto& t) {
                for (int c = 0; c < 2; ++c) {
                    t.frequency.push_back(fr[c]); t.forcing_fact.push_back(ff[c]); t.equilib_arg.push_back(eq[c]);
                    t.amplitude.push_back(amp[c][k]); t.phase.push_back(ph[c][k]);
                }
            };
            TideNode t; FlowNode f;
            node(t); node(f);
            tb.tide_nodes[1 + k] = t; fb.flow_nodes[1 + k] = f;
        }
    if (KIND == TIDE) pi.tide_bc_data = {tb};
    if (KIND == FLOW) pi.flow_bc_data = {fb};
    bool ramped = hx::param("RAMP");
    if (ramped) s.input.stepper_input.ramp_duration = 2.0;
    hx::fill(s.input.mesh_input.mesh_data, def);
    double dt = hx::real(1, 1000, "dt");
    s.input.stepper_input.dt = dt;
    s.stepper = typename PB::ProblemStepperType(s.input.stepper_input);
    s.init();
    Global::g = 9.5;
    int k = sx_choice("stages", 4);
    for (int i = 0; i < k; ++i) ++s.stepper;
#ifdef USE_IHDG
    double t = (k + 1) * dt, ramp = 1;  // forcing of the end of the step
    if (ramped) ramp = std::tanh(2 * (t / 86400) / 2.0);
#else
    double t = (k / 2) * dt + (k % 2) * dt, ramp = 1;
    if (ramped) ramp = k ? std::tanh(2 * (t / 86400) / 2.0) : 0;
#endif
    s.disc.mesh_skeleton.CallForEachEdgeBoundary([&](auto& e) {
        auto& b = e.boundary;
        if (!std::is_same<std::decay_t<decltype(b.boundary_condition)>, T>::value) return;
        ++seen;
        auto& bd = b.data.boundary[b.bound_id];
        auto& ei = e.edge_data.edge_internal;
        uint ngp = columns(bd.q_at_gp);
        std::vector<S> st;
        for (uint gp = 0; gp < ngp; ++gp) {
            S w;
            w.b = 7; w.ze = hx::real(-1, 1, "ze", gp); w.qx = hx::real(-20, 20, "qx", gp); w.qy = hx::real(-20, 20, "qy", gp);
            put(bd, gp, w);
            ei.aux_hat_at_gp(0, gp) = 7;
            st.push_back(w);
        }
        double ts = t, rs = ramp;
        DynRowVector<double> xs = row(b.ComputeFgp([](Point<2>& p) { StatVector<double, 1> r; r[0] = p[0]; return r; }), 0);
        DynRowVector<double> ys = row(b.ComputeFgp([](Point<2>& p) { StatVector<double, 1> r; r[0] = p[1]; return r; }), 0);
        // what the trace solver / the global system must see outside
        auto outside = [&](uint gp, const S& w, double out[3]) {
            double x1 = def.xyz[1][0], x2 = def.xyz[2][0], y1 = def.xyz[1][1], y2 = def.xyz[2][1];
            double l = ((xs[gp] - x1) * (x2 - x1) + (ys[gp] - y1) * (y2 - y1)) / ((x2 - x1) * (x2 - x1) + (y2 - y1) * (y2 - y1));
            if (KIND == FUNC) {
            for (int v = 0; v < 3; ++v) out[v] = coef[v][0] + coef[v][1] * ts + coef[v][2] * xs[gp] + coef[v][3] * ys[gp] + coef[v][4] * ts * xs[gp];
                return;
            }
            double f = 0;
            for (int c = 0; c < 2; ++c)
                f += rs * ff[c] * ((1 - l) * amp[c][0] + l * amp[c][1]) *
                     std::cos(fr[c] * ts + (eq[c] - ((1 - l) * ph[c][0] + l * ph[c][1])) * PI / 180);
            if (KIND == TIDE) { out[0] = f; out[1] = w.qx; out[2] = w.qy; return; }
            out[0] = w.ze; out[1] = f * b.surface_normal(0, gp); out[2] = f * b.surface_normal(1, gp);
        };
#ifndef USE_IHDG
        n_trace = 0;
        b.boundary_condition.ComputeNumericalFlux(s.stepper, e);
        hx::ok(n_trace == 1, "trace.solved");
        DynMatrix<double> qh = e.ComputeUgp(e.edge_data.edge_state.q_hat);
        for (uint gp = 0; gp < ngp; ++gp) {
            double out[3], F[3], tr[3] = {qh(0, gp), qh(1, gp), qh(2, gp)}, in[3] = {st[gp].ze, st[gp].qx, st[gp].qy};
            outside(gp, st[gp], out);
            hdg_flux(9.5, 7, tr, in, b.surface_normal(0, gp), b.surface_normal(1, gp), F);
            for (uint v = 0; v < 3; ++v) {
                hx::close(seen_q_ex(v, gp), out[v], 1e-7, "forcing", v, gp);
                hx::close(bd.F_hat_at_gp(v, gp), F[v], 1e-7, "flux", v, gp);
            }
        }
#else
        // the initial trace uses the forcing of the start
        { auto now = typename PB::ProblemStepperType(s.input.stepper_input);
          for (int i = 0; i < k; ++i) ++now;
          double tn = k * dt, rn = 1;
          if (ramped) rn = k ? std::tanh(2 * (tn / 86400) / 2.0) : 0;
          auto& q = b.data.state[0].q;
          for (uint d = 0; d < b.data.get_ndof(); ++d) for (uint v = 0; v < 3; ++v) q(v, d) = hx::real(v ? -5 : -0.25, v ? 5 : 0.25, "q", v, d);
          DynMatrix<double> in = b.ComputeUgp(q);
          n_trace = 0;
          b.boundary_condition.ComputeInitTrace(now, e);
          hx::ok(n_trace == 1, "trace.solved");
          ts = tn; rs = rn;
          for (uint gp = 0; gp < ngp; ++gp) {
              double out[3];
              S w;
              w.ze = in(0, gp); w.qx = in(1, gp); w.qy = in(2, gp);
              outside(gp, w, out);
              for (uint v = 0; v < 3; ++v) hx::close(seen_q_ex(v, gp), out[v], 1e-7, "start", v, gp);
          }
          ts = t; rs = ramp; }
        for (uint gp = 0; gp < ngp; ++gp) {
            put(bd, gp, st[gp]);
            for (uint v = 0; v < 3; ++v) ei.q_hat_at_gp(v, gp) = trace[v][gp % 2];
            ei.aux_hat_at_gp(1, gp) = ei.q_hat_at_gp(0, gp) + 7;
        }
        b.boundary_condition.ComputeGlobalKernels(s.stepper, e);
        AlignedVector<StatMatrix<double, 3, 3>> Ap(ngp), Am(ngp);
        get_Aplus(ei.q_hat_at_gp, ei.aux_hat_at_gp, b.surface_normal, Ap);
        get_Aminus(ei.q_hat_at_gp, ei.aux_hat_at_gp, b.surface_normal, Am);
        for (uint gp = 0; gp < ngp; ++gp) {
            double out[3], in[3] = {st[gp].ze, st[gp].qx, st[gp].qy};
            outside(gp, st[gp], out);
            for (uint v = 0; v < 3; ++v) {
                double r = 0;
                for (uint w = 0; w < 3; ++w) r += Ap[gp](v, w) * (in[w] - trace[w][gp % 2]) - Am[gp](v, w) * (out[w] - trace[w][gp % 2]);
                hx::close(ei.rhs_global_kernel_at_gp(v, gp), r, 1e-6, "end", v, gp);
            }
        }
#endif
    });
    hx::ok(seen == 1, "seen");
}
extern "C" void sx_harness() {
    sx_option("near", 1);
#ifndef USE_IHDG
    if (hx::param("EXCH")) exchange();
    if (hx::param("WALL")) walls();
#endif
    if (hx::param("TIDE")) open_boundary<NS::BC::Tide, TIDE>();
    if (hx::param("FLOW")) open_boundary<NS::BC::Flow, FLOW>();
    if (hx::param("FUNC")) open_boundary<NS::BC::Function, FUNC>();
}
