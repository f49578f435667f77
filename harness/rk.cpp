// Explicit SSP Runge-Kutta stepper: order conditions through the elementary differentials, stage times
#include "common.hpp"
#include "simulation/stepper/explicit_ssp_rk_stepper.hpp"
#include "preprocessor/input_parameters.hpp"
struct St { DynMatrix<double> q, solution; };
struct El { struct { std::vector<St> state; } data; };
extern "C" void sx_harness() {
    const int pr[12][2] = {{1, 1}, {2, 2}, {3, 3}, {4, 3}, {5, 3}, {6, 3}, {7, 3}, {8, 3}, {5, 4}, {6, 4}, {7, 4}, {8, 4}};
    int c = sx_choice("scheme", 12);
    uint ns = pr[c][0], ord = pr[c][1];
    StepperInput in;
    in.nstages = ns; in.order = ord; in.ramp_duration = 0;
    in.dt = hx::real(0.01, 1, "dt");
    ESSPRKStepper st(in);
    double dt = in.dt;
    El e;
    e.data.state.resize(ns + 1);
    // u0 arbitrary, u1' = 1, u2' = u1, u3' = u1^2, u4' = u2, u5' = u1^3, u6' = u1 u2, u7' = u3, u8' = u4, u9' = stage time
    const int N = 10;
    for (auto& s : e.data.state) { s.q.resize(1, N); s.solution.resize(1, N); for (int i = 0; i < N; ++i) { s.q(0, i) = 0; s.solution(0, i) = 0; } }
    double y0 = hx::real(-1, 1, "y0");
    int steps = 2;
    double t0 = 0;
    for (int n = 0; n < steps; ++n) {
        e.data.state[0].q(0, 0) = y0;
        double b9 = e.data.state[0].q(0, 9);
        for (int i = 1; i < 9; ++i) e.data.state[0].q(0, i) = 0;
        hx::ok(st.GetStep() == (uint)n && st.GetStage() == 0, "counters", c, n);
        for (uint k = 0; k < ns; ++k) {
            auto& s = e.data.state[k];
            auto& f = s.solution;
            double u1 = s.q(0, 1), u2 = s.q(0, 2), t = st.GetTimeAtCurrentStage();
            hx::close(t - t0, u1, 1e-9, "stage_time", c, n, k);
            f(0, 0) = 0; f(0, 1) = 1; f(0, 2) = u1; f(0, 3) = u1 * u1; f(0, 4) = u2;
            f(0, 5) = u1 * u1 * u1; f(0, 6) = u1 * u2; f(0, 7) = s.q(0, 3); f(0, 8) = s.q(0, 4); f(0, 9) = t;
            hx::ok(st.GetStage() == k && st.GetTimestamp() == n * ns + k, "stage", c, n, k);
            st.UpdateState(e);
            double sum = 0;
            for (uint l = 0; l <= k; ++l) {
                hx::ok(st.ark[k][l] >= 0, "convex.weight", c, k, l);
                hx::ok(st.brk[k][l] >= 0, "convex.rate", c, k, l);
                hx::ok(!(st.ark[k][l] == 0 && st.brk[k][l] > 0) , "convex.step", c, k, l);
                sum += st.ark[k][l];
            }
            hx::ok(std::abs(sum - 1) < 1e-10, "convex.sum", c, k);
            ++st;
        }
        t0 += dt;
        auto& q = e.data.state[0].q;
        hx::close(q(0, 0), y0, 1e-9, "steady", c, n);
        hx::close(q(0, 1), dt, 1e-9, "order1", c, n);
        if (ord >= 2) hx::close(q(0, 2), dt * dt / 2, 1e-9, "order2", c, n);
        if (ord >= 3) { hx::close(q(0, 3), dt * dt * dt / 3, 1e-9, "order3.a", c, n); hx::close(q(0, 4), dt * dt * dt / 6, 1e-9, "order3.b", c, n); }
        double d4 = dt * dt * dt * dt;
        if (ord >= 4) {
            hx::close(q(0, 5), d4 / 4, 1e-9, "order4.a", c, n); hx::close(q(0, 6), d4 / 8, 1e-9, "order4.b", c, n);
            hx::close(q(0, 7), d4 / 12, 1e-9, "order4.c", c, n); hx::close(q(0, 8), d4 / 24, 1e-9, "order4.d", c, n);
        }
        if (ord >= 2) hx::close(q(0, 9) - b9, t0 * dt - dt * dt / 2, 1e-9, "forcing", c, n);
        hx::close(st.GetTimeAtCurrentStage(), t0, 1e-9, "time", c, n);
    }
}
