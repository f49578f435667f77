#include "common.hpp"
#include "problem/SWE/discretization_RKDG/rkdg_swe_problem.hpp"
using namespace SWE;
using M3 = HybMatrix<double, 3>;
using M2 = HybMatrix<double, 2>;
extern "C" void sx_harness() {
    M3 qi(3, 1), qe(3, 1), aux(3, 1), F(3, 1), G(3, 1);
    M2 n(2, 1), m(2, 1);
    double hi = hx::real(1e-3, 1e4, "h_in"), he = hx::real(1e-3, 1e4, "h_ex");
    double b  = hx::real(-100, 1e4, "bath");
    double sp = hx::real(0.05, 1, "sp");
    double g  = hx::real(0.1, 100, "g");
    double ui = hx::real(-50, 50, "u_in"), vi = hx::real(-50, 50, "v_in");
    double ue = hx::real(-50, 50, "u_ex"), ve = hx::real(-50, 50, "v_ex");
    double nx, ny;
    hx::unit("n", nx, ny);
    qi(0, 0) = hi - b; qi(1, 0) = hi * ui; qi(2, 0) = hi * vi;
    qe(0, 0) = he - b; qe(1, 0) = he * ue; qe(2, 0) = he * ve;
    aux(0, 0) = b; aux(1, 0) = hi; aux(2, 0) = sp;
    n(0, 0) = nx; n(1, 0) = ny;
    m(0, 0) = -nx; m(1, 0) = -ny;
    // consistency
    RKDG::LLF_flux(g, column(qi, 0), column(qi, 0), column(aux, 0), column(n, 0), column(F, 0));
    double pe = g * (hi * hi - b * b) / 2;
    hx::close(F(0, 0), sp * hi * ui * nx + hi * vi * ny, 1e-6, "consistency.ze");
    hx::close(F(1, 0), sp * (hi * ui * ui + pe) * nx + hi * ui * vi * ny, 1e-6, "consistency.qx");
    hx::close(F(2, 0), sp * hi * ui * vi * nx + (hi * vi * vi + pe) * ny, 1e-6, "consistency.qy");
    // antisymmetry
    RKDG::LLF_flux(g, column(qi, 0), column(qe, 0), column(aux, 0), column(n, 0), column(F, 0));
    RKDG::LLF_flux(g, column(qe, 0), column(qi, 0), column(aux, 0), column(m, 0), column(G, 0));
    for (uint i = 0; i < 3; ++i) hx::close(F(i, 0) + G(i, 0), 0, 1e-6, "conservation", i);
}
