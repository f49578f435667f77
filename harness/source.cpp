// Momentum and mass sources: bed slope, bottom friction (constant and Manning), user function.
#include "swe.hpp"
using namespace SWE;
static double coef[3][5];
static bool nofn;
namespace SWE {
StatVector<double, 3> ic_q(const double, const Point<2>&) { return StatVector<double, 3>{0.0, 0.0, 0.0}; }
StatVector<double, 3> source_q(const double t, const Point<2>& p) {
    StatVector<double, 3> r{0.0, 0.0, 0.0};
    for (int v = 0; v < 3; ++v) r[v] = coef[v][0] + coef[v][1] * t + coef[v][2] * p[0] + coef[v][3] * p[1] + coef[v][4] * t * p[0];
    return r;
}
}
extern "C" void sx_harness() {
    sx_option("near", 1);
    auto def = hx::mesh2();
#ifdef USE_IHDG
    int order = 1 + sx_choice("order", 2);
    hx::Sim<IHDG::Problem> s(PORD, hx::stepper_input(1, order, 0.125));
#else
    hx::Sim<DISC::Problem> s(PORD, hx::stepper_input(2, 2, 0.125));
#endif
#ifdef SPLO
    s.input.problem_input.spherical_projection.type = SphericalProjectionType::Enable;
    s.input.problem_input.spherical_projection.latitude_o = std::acos(SPLO) * 180 / PI;
    s.input.problem_input.spherical_projection.R = 6378200.0;
#endif
    int fric = sx_choice("friction", 4), fn = fric ? 0 : sx_choice("function", 2);
    double Cf = fric == 2 ? hx::real(1e-5, 1e-3, "Cf") : fric == 3 ? hx::real(0.5, 1, "Cf") : hx::real(0.001, 0.1, "Cf"), nn[4];
    bool manning = fric >= 2;
    if (manning) {
        // Manning coefficients come from a file with one line per node
        const char* name = "manning.txt";
        FILE* f = fopen(name, "w");
        const double n0[4] = {0.02, 0.03, 0.05, 0.025};
        for (int i = 3; i >= 0; --i) { nn[i] = n0[i]; fprintf(f, "%d %.17g\n", i, nn[i]); }
        fclose(f);
        s.input.problem_input.bottom_friction.type = BottomFrictionType::Manning;
        s.input.problem_input.bottom_friction.manning_data_file = name;
    }
    Global::g = 9.5;
    hx::fill(s.input.mesh_input.mesh_data, def);
    s.init();
    SourceTerms::bottom_friction = fric > 0;
    SourceTerms::Cf = Cf;
    SourceTerms::function_source = fn;
    for (int v = 0; v < 3; ++v) for (int k = 0; k < 5; ++k) coef[v][k] = hx::real(-1, 1, "fn", v, k);
    uint steps = fric ? 1 : 2;
    for (uint st = 0; st < steps; ++st) {
        s.each([&](auto& e) {
            if (e.GetID() != 1) return;
            bool wet = sx_choice("wet", 2);
            uint stage = s.stepper.GetStage();
            e.data.wet_dry_state.wet = wet;
#ifdef USE_IHDG
            if (!wet) return;
            hx::sym_state(e, stage, -1, 1, 0.25, 8, 2);
            IHDG::Problem::init_volume_kernel(s.stepper, e);
            auto r0 = e.data.internal.rhs_prev;
            IHDG::Problem::init_source_kernel(s.stepper, e);
            auto r1 = e.data.internal.rhs_prev;
            HybMatrix<double, 3> drift(3, e.data.get_ndof());
#else
            hx::sym_state(e, stage, -1, 1, 0.25, 8, 2);
            auto& rhs = e.data.state[stage].rhs;
            if (std::is_same<DISC::Problem, RKDG::Problem>::value) RKDG::Problem::volume_kernel(s.stepper, e);
            else EHDG::Problem::local_volume_kernel(s.stepper, e);
            auto r0 = rhs;
            if (std::is_same<DISC::Problem, RKDG::Problem>::value) RKDG::Problem::source_kernel(s.stepper, e);
            else EHDG::Problem::local_source_kernel(s.stepper, e);
            auto r1 = rhs;
            if (!wet) {
                for (uint v = 0; v < 3; ++v) for (uint d = 0; d < e.data.get_ndof(); ++d) hx::close(r1(v, d), 0, 0, "dry", v, d);
                return;
            }
#endif
            auto expect = [&](double t, auto& q) {
                HybMatrix<double, 3> qg = e.ComputeUgp(q);
                uint n = columns(qg);
                DynRowVector<double> bn(3);
                for (int i = 0; i < 3; ++i) bn[i] = def.xyz[def.tri[1][i]][2];
                DynRowVector<double> bg = e.ComputeNodalUgp(bn), bx = e.ComputeNodalDUgp(0, bn), by = e.ComputeNodalDUgp(1, bn);
                HybMatrix<double, 3> S = e.ComputeFgp([&](Point<2>& p) { return fn ? SWE::source_q(t, p) : StatVector<double, 3>{0.0, 0.0, 0.0}; });
                for (uint g = 0; g < n; ++g) {
                    double h = qg(0, g) + bg[g];
                    double sp = 1;
#ifdef SPLO
                    sp = SPLO;
#endif
                    S(1, g) += Global::g * sp * bx[g] * qg(0, g);
                    S(2, g) += Global::g * by[g] * qg(0, g);
                    double c = fric ? Cf : 0.0;
                    if (manning) {
                        double nm = (nn[2] + nn[3] + nn[0]) / 3;
                        double m = 9.5 * nm * nm / std::pow(h, 1.0 / 3.0);
                        if (m > c) c = m;
                    }
                    if (fric) {
                        double sp = std::hypot(qg(1, g), qg(2, g));
                        S(1, g) -= c * sp * qg(1, g) / h / h;
                        S(2, g) -= c * sp * qg(2, g) / h / h;
                    }
                }
                return S;
            };
            double dt = s.stepper.GetDT();
#ifdef USE_IHDG
            double t = st * dt;
            if (order == 2) {
                HybMatrix<double, 3> S = expect(t, e.data.state[0].q);
                for (uint d = 0; d < e.data.get_ndof(); ++d) {
                    StatVector<double, 3> x = e.IntegrationPhi(d, S);
                    for (uint v = 0; v < 3; ++v) hx::close(r1[3 * d + v] - r0[3 * d + v], x[v], 1e-6, "source.prev", st, v, d);
                }
            }
            IHDG::Problem::local_volume_kernel(s.stepper, e);
            auto a0 = e.data.internal.rhs_local;
            IHDG::Problem::local_source_kernel(s.stepper, e);
            auto a1 = e.data.internal.rhs_local;
            HybMatrix<double, 3> S = expect(t + dt, e.data.state[1].q);
            double w = order == 1 ? 1.0 : 0.5;
            for (uint d = 0; d < e.data.get_ndof(); ++d) {
                StatVector<double, 3> x = e.IntegrationPhi(d, S);
                for (uint v = 0; v < 3; ++v) hx::close(a1[3 * d + v] - a0[3 * d + v], w * x[v], 1e-6, "source.next", st, v, d);
            }
#else
            HybMatrix<double, 3> S = expect(st * dt, e.data.state[stage].q);  // stages of the two stage scheme are at 0 and dt
            HybMatrix<double, 3> x = e.IntegrationPhi(S);
            for (uint v = 0; v < 3; ++v) for (uint d = 0; d < e.data.get_ndof(); ++d) hx::close(r1(v, d) - r0(v, d), x(v, d), 1e-6, "source", st, v, d);
#endif
        });
        ++s.stepper;
    }
}
