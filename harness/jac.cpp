// Flux functions, their Jacobians, eigen-decomposition, stabilisation parameters
#include "common.hpp"
#include "problem/SWE/discretization_RKDG/rkdg_swe_problem.hpp"
#include "problem/SWE/discretization_EHDG/ehdg_swe_problem.hpp"
#include "problem/SWE/problem_jacobian/swe_jacobian.hpp"
#include "problem/SWE/problem_stabilization_parameters/swe_stabilization_params.hpp"
using namespace SWE;
using M3 = StatMatrix<double, 3, 3>;
using hx::close;
extern "C" void sx_harness() {
    HybMatrix<double, 3> q(3, 1), aux(3, 1), Fx(3, 1), Fy(3, 1), Fn(3, 1);
    HybMatrix<double, 2> n(2, 1);
    HybMatrix<double, 9> Jx(9, 1), Jy(9, 1), Jn(9, 1);
    // the state is parametrised by depth, velocity and free surface so that every intermediate stays small
    double h = hx::real(0.25, 4, "h"), u = hx::real(-3, 3, "u"), v = hx::real(-3, 3, "v");
    double ze = hx::real(-1, 1, "ze"), g = hx::real(1, 20, "g");
    Global::g = g;
    double nx, ny;
    hx::unit("n", nx, ny);
    double b = h - ze, qx = h * u, qy = h * v;
    q(0, 0) = ze; q(1, 0) = qx; q(2, 0) = qy;
    aux(0, 0) = b; aux(1, 0) = h; aux(2, 0) = 1;
    n(0, 0) = nx; n(1, 0) = ny;
    double pe = g * (ze * ze / 2 + ze * b), un = u * nx + v * ny;
    double F[3][2] = {{qx, qy}, {qx * u + pe, qx * v}, {qy * u, qy * v + pe}};
    // total derivative with respect to conserved variable j (0 ze, 1 qx, 2 qy) at fixed bed
    auto D = [&](double y, int j, const std::string& nm) {
        if (j == 1) return hx::diff(y, u, nm + "u") / h;
        if (j == 2) return hx::diff(y, v, nm + "v") / h;
        return hx::diff(y, ze, nm + "z") + hx::diff(y, h, nm + "h") - (u * hx::diff(y, u, nm + "zu") + v * hx::diff(y, v, nm + "zv")) / h;
    };
    auto nmi = [](const char* s, int i, int j) { return std::string(s) + "." + std::to_string(i) + "." + std::to_string(j) + "."; };
#if defined(FLUX)
    get_F(q, aux, Fx, Fy);
    get_Fn(q, aux, n, Fn);
    for (int i = 0; i < 3; ++i) {
        close(Fx(i, 0), F[i][0], 1e-8, "flux.x", i);
        close(Fy(i, 0), F[i][1], 1e-8, "flux.y", i);
        close(Fn(i, 0), F[i][0] * nx + F[i][1] * ny, 1e-8, "flux.n", i);
    }
    HybMatrix<double, 3> Gn(3, 1);
    get_Fn(g, column(q, 0), column(aux, 0), column(n, 0), column(Gn, 0));
    for (int i = 0; i < 3; ++i) close(Gn(i, 0), Fn(i, 0), 1e-8, "flux.column", i);
    get_dF_dq(q, aux, Jx, Jy);
    get_dFn_dq(q, aux, n, Jn);
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            close(Jx(3 * i + j, 0), D(Fx(i, 0), j, nmi("dx", i, j)), 1e-7, "jacobian.x", i, j);
            close(Jy(3 * i + j, 0), D(Fy(i, 0), j, nmi("dy", i, j)), 1e-7, "jacobian.y", i, j);
            close(Jn(3 * i + j, 0), D(Fn(i, 0), j, nmi("dn", i, j)), 1e-7, "jacobian.n", i, j);
        }
    AlignedVector<M3> t(1), d(1);
    get_tau_LF(q, aux, n, t);
    M3 tc;
    get_tau_LF(g, column(q, 0), column(aux, 0), column(n, 0), tc);
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            close(tc(i, j), t[0](i, j), 1e-8, "tau.column", i, j);
            if (i != j) close(t[0](i, j), 0, 1e-12, "tau.offdiag", i, j);
        }
    for (int i = 0; i < 3; ++i) {
        // bounds both characteristic speeds
        hx::ge(t[0](i, i), un + std::sqrt(g * h), 1e-8, "tau.bound.plus", i);
        hx::ge(t[0](i, i), std::sqrt(g * h) - un, 1e-8, "tau.bound.minus", i);
        // and is not larger than the largest of them
        hx::ge(std::abs(un) + std::sqrt(g * h), t[0](i, i), 1e-8, "tau.sharp", i);
    }
    if (std::abs(un) > 1e-6) {
        get_dtau_dze_LF(q, aux, n, d);
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) close(d[0](i, j), D(t[0](i, j), 0, nmi("tz", i, j)), 1e-7, "dtau.ze", i, j);
        get_dtau_dqx_LF(q, aux, n, d);
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) close(d[0](i, j), D(t[0](i, j), 1, nmi("tx", i, j)), 1e-7, "dtau.qx", i, j);
        get_dtau_dqy_LF(q, aux, n, d);
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) close(d[0](i, j), D(t[0](i, j), 2, nmi("ty", i, j)), 1e-7, "dtau.qy", i, j);
    }
#elif defined(EIG)
    // A = R L R^-1 is the flux Jacobian; |A|, A+, A- split it
    AlignedVector<M3> A(1), B(1), P(1), N(1);
    get_dFn_dq(q, aux, n, Jn);
    get_A(q, aux, n, A);
    M3 r = R(h, u, v, nx, ny) * invR(h, u, v, nx, ny);
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            close(A[0](i, j), Jn(3 * i + j, 0), 1e-6, "eigen.A", i, j);
            close(r(i, j), i == j, 1e-7, "eigen.inverse", i, j);
        }
    get_absA(q, aux, n, B); get_Aplus(q, aux, n, P); get_Aminus(q, aux, n, N);
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            close(P[0](i, j) + N[0](i, j), A[0](i, j), 1e-6, "eigen.split", i, j);
            close(P[0](i, j) - N[0](i, j), B[0](i, j), 1e-6, "eigen.abs", i, j);
        }
    // |A| has non-negative spectrum on the eigenvectors of A and the same magnitude
    M3 BB = B[0] * B[0], AA = A[0] * A[0];
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) close(BB(i, j), AA(i, j), 1e-5, "eigen.square", i, j);
    hx::ge(B[0](0, 0) + B[0](1, 1) + B[0](2, 2), std::abs(un + std::sqrt(g * h)) + std::abs(un), 1e-6, "eigen.trace");
#elif defined(DA)
    AlignedVector<M3> A(1), d(1);
    auto cmp = [&](const M3& dm, const M3& m, int w, const char* nmx) {
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) close(dm(i, j), D(m(i, j), w, nmi(nmx, i, j)), 1e-6, nmx, i, j);
    };
    // away from the kinks of |.|
    double c = std::sqrt(g * h);
    sx_assume_ge(std::abs(un), 1e-3); sx_assume_ge(std::abs(un - c), 1e-3); sx_assume_ge(std::abs(un + c), 1e-3);
#if DA == 0
    get_A(q, aux, n, A);
    get_dA_dze(q, aux, n, d); cmp(d[0], A[0], 0, "dA.ze");
    get_dA_dqx(q, aux, n, d); cmp(d[0], A[0], 1, "dA.qx");
    get_dA_dqy(q, aux, n, d); cmp(d[0], A[0], 2, "dA.qy");
#elif DA == 1
    get_absA(q, aux, n, A);
    get_dabsA_dze(q, aux, n, d); cmp(d[0], A[0], 0, "dabsA.ze");
    get_dabsA_dqx(q, aux, n, d); cmp(d[0], A[0], 1, "dabsA.qx");
    get_dabsA_dqy(q, aux, n, d); cmp(d[0], A[0], 2, "dabsA.qy");
#elif DA == 2
    get_Aplus(q, aux, n, A);
    get_dAplus_dze(q, aux, n, d); cmp(d[0], A[0], 0, "dAplus.ze");
    get_dAplus_dqx(q, aux, n, d); cmp(d[0], A[0], 1, "dAplus.qx");
    get_dAplus_dqy(q, aux, n, d); cmp(d[0], A[0], 2, "dAplus.qy");
#else
    get_Aminus(q, aux, n, A);
    get_dAminus_dze(q, aux, n, d); cmp(d[0], A[0], 0, "dAminus.ze");
    get_dAminus_dqx(q, aux, n, d); cmp(d[0], A[0], 1, "dAminus.qx");
    get_dAminus_dqy(q, aux, n, d); cmp(d[0], A[0], 2, "dAminus.qy");
#endif
#endif
}
