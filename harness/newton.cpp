// Implicit solver: residuals, linearisation and linear solve of one Newton iteration.
#ifndef USE_IHDG
#define USE_IHDG
#endif
#include "swe.hpp"
using namespace SWE;
using PB = IHDG::Problem;
// the residuals of one iteration, in the order of the solver
static void residuals(hx::Sim<PB>& s) {
    s.disc.mesh.CallForEachElement([&](auto& e) { PB::local_volume_kernel(s.stepper, e); PB::local_source_kernel(s.stepper, e); });
    s.disc.mesh.CallForEachInterface([&](auto& e) { PB::local_interface_kernel(s.stepper, e); });
    s.disc.mesh.CallForEachBoundary([&](auto& e) { PB::local_boundary_kernel(s.stepper, e); });
    s.disc.mesh_skeleton.CallForEachEdgeInterface([&](auto& e) { PB::local_edge_interface_kernel(s.stepper, e); });
    s.disc.mesh_skeleton.CallForEachEdgeBoundary([&](auto& e) { PB::local_edge_boundary_kernel(s.stepper, e); });
    s.disc.mesh_skeleton.CallForEachEdgeInterface([&](auto& e) { PB::global_edge_interface_kernel(s.stepper, e); });
    s.disc.mesh_skeleton.CallForEachEdgeBoundary([&](auto& e) { PB::global_edge_boundary_kernel(s.stepper, e); });
}
static double some(uint i, double a) {  // concrete, irregular numbers
    static const double t[] = {0.25, -0.5, 0.375, 0.75, -0.125, 0.625, -0.875, 0.1875, -0.3125, 0.5625, 0.4375};
    return a * t[i % 11];
}
template <typename M>
void conc(M& q, uint seed) {
    for (uint d = 0; d < columns(q); ++d) for (uint v = 0; v < 3; ++v) q(v, d) = some(7 * seed + 3 * d + v, v ? 4.0 / (1 + d) : 0.5 / (1 + d));
}
template <typename M>
std::vector<double> syms(M& q, const std::string& nm, double z = 0.25, double m = 4, double a = 1, double lo = -1) {
    std::vector<double> x;
    for (uint d = 0; d < columns(q); ++d) for (uint v = 0; v < 3; ++v) {
        x.push_back(v ? hx::real(d ? -a : v == 1 ? lo * m : -m, d ? a : m, nm, v, d) : hx::real(-z, z, nm, v, d));
        q(v, d) = x.back();
    }
    return x;
}
template <typename A, typename R>
void jac(const A& M, const R& r, const std::vector<double>& x, const char* nm, uint id) {
    for (uint i = 0; i < rows(M); ++i) for (uint j = 0; j < columns(M); ++j)
        hx::close(M(i, j), -hx::diff(r[i], x[j], std::string(nm) + ".d", id, i, j), 1e-6, nm, id, i, j);
}
extern "C" void sx_harness() {
    sx_option("near", 1);
    auto def = hx::mesh2();
    int ord = hx::param("ORD", 1);
    hx::Sim<PB> s(hx::param("P", 1), hx::stepper_input(1, ord, 0.125));
    if (hx::param("FUNCB")) def.bt[{1, 2}] = BoundaryTypes::function;
    if (hx::param("MANNING")) {
        FILE* f = fopen("manning.txt", "w");
        for (int i = 0; i < 4; ++i) fprintf(f, "%d %.17g\n", i, 0.02 + 0.01 * i);
        fclose(f);
        s.input.problem_input.bottom_friction.type = BottomFrictionType::Manning;
        s.input.problem_input.bottom_friction.manning_data_file = "manning.txt";
    }
    double lvl = hx::real(-1, 1, "level");
    if (hx::param("REST")) {
    for (uint i = 0; i < def.xyz.size(); ++i) def.xyz[i][2] = hx::real(2, 10, "bed", i);
    s.input.problem_input.initial_conditions.type = InitialConditionsType::Constant;
    s.input.problem_input.initial_conditions.ze_initial = lvl;
    s.input.problem_input.initial_conditions.qx_initial = 0;
    s.input.problem_input.initial_conditions.qy_initial = 0;
    }
    hx::fill(s.input.mesh_input.mesh_data, def);
    Global::g = 9.5;
    s.init();
    if (hx::param("FRIC") || hx::param("MANNING")) SourceTerms::bottom_friction = true;
    if (hx::param("FRIC")) SourceTerms::Cf = 0.015625;
    if (hx::param("REST")) {
    // still water: nothing is out of balance (with friction too), so nothing moves
    SourceTerms::bottom_friction = sx_choice("friction", 2);
    SourceTerms::Cf = 0.015625;
    PB::init_iteration(s.stepper, s.disc);
    residuals(s);
    s.each([&](auto& e) {
        for (uint i = 0; i < rows(e.data.internal.rhs_local); ++i) hx::close(e.data.internal.rhs_local[i], 0, 1e-6, "rest.local", e.GetID(), i);
    });
    s.disc.mesh_skeleton.CallForEachEdgeInterface([&](auto& e) {
        for (uint i = 0; i < rows(e.edge_data.edge_internal.rhs_global); ++i) hx::close(e.edge_data.edge_internal.rhs_global[i], 0, 1e-6, "rest.interface", i);
    });
    s.disc.mesh_skeleton.CallForEachEdgeBoundary([&](auto& e) {
        for (uint i = 0; i < rows(e.edge_data.edge_internal.rhs_global); ++i) hx::close(e.edge_data.edge_internal.rhs_global[i], 0, 1e-6, "rest.boundary", i);
    });
    s.each([&](auto& e) {
        auto& A = e.data.internal.delta_local;
        for (uint i = 0; i < rows(A); ++i) for (uint j = 0; j < columns(A); ++j) hx::ok(A(i, j) == A(i, j), "rest.finite", e.GetID(), i, j);
    });
    return;
    }
    // previous state and trace
    s.each([&](auto& e) { conc(e.data.state[0].q, e.GetID()); });
    uint n = 0;
    auto trace0 = [&](auto& e) { conc(e.edge_data.edge_state.q_hat, 10 + n++); };
    s.disc.mesh_skeleton.CallForEachEdgeInterface(trace0);
    s.disc.mesh_skeleton.CallForEachEdgeBoundary(trace0);
    std::map<uint, std::vector<double>> X;
    std::map<const void*, uint> id;
    double flowing = SourceTerms::bottom_friction ? 0.75 : -1;  // friction is not differentiable at rest
    s.each([&](auto& e) { id[&e.data] = e.GetID(); });
    if (hx::param("MQ")) {
    PB::init_iteration(s.stepper, s.disc);
    s.each([&](auto& e) { X[e.GetID()] = syms(e.data.state[1].q, "q" + std::to_string(e.GetID()), 0.25, 4, 0.25, flowing); });
    residuals(s);
    s.each([&](auto& e) { jac(e.data.internal.delta_local, e.data.internal.rhs_local, X[e.GetID()], "local", e.GetID()); });
    uint k = 0;
    s.disc.mesh_skeleton.CallForEachEdgeInterface([&](auto& e) {
        auto& f = e.interface;
        auto& r = e.edge_data.edge_internal.rhs_global;
        jac(f.data_in.boundary[f.bound_id_in].delta_global, r, X[id[&f.data_in]], "global.in", k);
        jac(f.data_ex.boundary[f.bound_id_ex].delta_global, r, X[id[&f.data_ex]], "global.ex", k);
        ++k;
    });
    s.disc.mesh_skeleton.CallForEachEdgeBoundary([&](auto& e) {
        auto& b = e.boundary;
        jac(b.data.boundary[b.bound_id].delta_global, e.edge_data.edge_internal.rhs_global, X[id[&b.data]], "global.boundary", k++);
    });
    } else if (hx::param("MH")) {
    PB::init_iteration(s.stepper, s.disc);
    s.each([&](auto& e) { conc(e.data.state[1].q, 20 + e.GetID()); });
    uint which = sx_choice("edge", 5);
    n = 0;
    std::vector<double> x;
    auto pick = [&](auto& e) { if (n++ == which) x = syms(e.edge_data.edge_state.q_hat, "trace"); else conc(e.edge_data.edge_state.q_hat, 30 + n); };
    s.disc.mesh_skeleton.CallForEachEdgeInterface(pick);
    s.disc.mesh_skeleton.CallForEachEdgeBoundary(pick);
    // the stabilisation is not differentiable where the flow through the edge changes sign
    auto off = [](auto& e, auto& nrm) {
        DynMatrix<double> g = e.ComputeUgp(e.edge_data.edge_state.q_hat);
        for (uint gp = 0; gp < columns(g); ++gp) {
            double qn = g(1, gp) * nrm(0, gp) + g(2, gp) * nrm(1, gp);
            sx_assume_ge(sx_choice("outward", 2) ? qn : -qn, 1e-3);
        }
    };
    n = 0;
    s.disc.mesh_skeleton.CallForEachEdgeInterface([&](auto& e) { if (n++ == which) off(e, e.interface.surface_normal_in); });
    s.disc.mesh_skeleton.CallForEachEdgeBoundary([&](auto& e) { if (n++ == which) off(e, e.boundary.surface_normal); });
    residuals(s);
    n = 0;
    s.disc.mesh_skeleton.CallForEachEdgeInterface([&](auto& e) {
        if (n++ != which) return;
        auto& f = e.interface;
        jac(f.data_in.boundary[f.bound_id_in].delta_hat_local, f.data_in.internal.rhs_local, x, "hat_local.in", which);
        jac(f.data_ex.boundary[f.bound_id_ex].delta_hat_local, f.data_ex.internal.rhs_local, x, "hat_local.ex", which);
        jac(e.edge_data.edge_internal.delta_hat_global, e.edge_data.edge_internal.rhs_global, x, "hat_global.interface", which);
    });
    s.disc.mesh_skeleton.CallForEachEdgeBoundary([&](auto& e) {
        if (n++ != which) return;
        auto& b = e.boundary;
        jac(b.data.boundary[b.bound_id].delta_hat_local, b.data.internal.rhs_local, x, "hat_local.boundary", which);
        jac(e.edge_data.edge_internal.delta_hat_global, e.edge_data.edge_internal.rhs_global, x, "hat_global.boundary", which);
    });
    } else if (hx::param("THETA")) {
        // residual of a step from (q0, trace0) to (q1, trace1): time derivative and the weighted rates of both ends
        uint which = sx_choice("edge", 5);
        std::map<uint, DynMatrix<double>> q0, q1;
        std::vector<DynMatrix<double>> t0, t1;
        auto rate = [&](hx::Sim<PB>& w, auto& q, auto& t) {  // residual of the first order scheme with no change over the step
            w.each([&](auto& e) { e.data.state[0].q = q[e.GetID()]; });
            uint k = 0;
            auto put = [&](auto& e) { e.edge_data.edge_state.q_hat = t[k++]; };
            w.disc.mesh_skeleton.CallForEachEdgeInterface(put);
            w.disc.mesh_skeleton.CallForEachEdgeBoundary(put);
            PB::init_iteration(w.stepper, w.disc);
            residuals(w);
            std::map<uint, DynVector<double>> r;
            w.each([&](auto& e) { r[e.GetID()] = e.data.internal.rhs_local; });
            return r;
        };
        s.each([&](auto& e) {
            DynMatrix<double> a(3, e.data.get_ndof()), b(3, e.data.get_ndof());
            syms(a, "old" + std::to_string(e.GetID()), 0.25, 4, 0.25, flowing);
            syms(b, "new" + std::to_string(e.GetID()), 0.25, 4, 0.25, flowing);
            q0[e.GetID()] = a; q1[e.GetID()] = b;
        });
        n = 0;
        auto tr = [&](auto& e, auto& nrm) {
            auto side = [&](auto& e, auto& t, bool dir) {
                DynMatrix<double> g = e.ComputeUgp(t);
                for (uint gp = 0; gp < columns(g); ++gp) {
                    double qn = g(1, gp) * nrm(0, gp) + g(2, gp) * nrm(1, gp);
                    sx_assume_ge(dir ? qn : -qn, 1e-3);
                }
            };
            DynMatrix<double> a(3, e.edge_data.get_ndof()), b(3, e.edge_data.get_ndof());
            conc(a, 40 + n); conc(b, 60 + n);
            if (n == which) { syms(a, "oldtrace", 0.25, 4, 0.25, -1); syms(b, "newtrace", 0.25, 4, 0.25, -1); }
            if (n == which) {  // one direction through the edge at both ends of the step
                bool dir = sx_choice("outward", 2);
                side(e, a, dir); side(e, b, dir);
            }
            t0.push_back(a); t1.push_back(b);
            ++n;
        };
        s.disc.mesh_skeleton.CallForEachEdgeInterface([&](auto& e) { tr(e, e.interface.surface_normal_in); });
        s.disc.mesh_skeleton.CallForEachEdgeBoundary([&](auto& e) { tr(e, e.boundary.surface_normal); });
        hx::Sim<PB> w(hx::param("P", 1), hx::stepper_input(1, 1, 0.125));
        w.input.problem_input = s.input.problem_input;
        hx::fill(w.input.mesh_input.mesh_data, def);
        w.init();
        if (hx::param("FRIC") || hx::param("MANNING")) SourceTerms::bottom_friction = true;
        auto r0 = rate(w, q0, t0), r1 = rate(w, q1, t1);
        // the step itself
        s.each([&](auto& e) { e.data.state[0].q = q0[e.GetID()]; });
        n = 0;
        auto put0 = [&](auto& e) { e.edge_data.edge_state.q_hat = t0[n++]; };
        s.disc.mesh_skeleton.CallForEachEdgeInterface(put0);
        s.disc.mesh_skeleton.CallForEachEdgeBoundary(put0);
        PB::init_iteration(s.stepper, s.disc);
        s.each([&](auto& e) { for (uint d = 0; d < e.data.get_ndof(); ++d) for (uint v = 0; v < 3; ++v) hx::close(e.data.state[1].q(v, d), q0[e.GetID()](v, d), 0, "guess", e.GetID(), v, d); });
        s.each([&](auto& e) { e.data.state[1].q = q1[e.GetID()]; });
        n = 0;
        auto put1 = [&](auto& e) { e.edge_data.edge_state.q_hat = t1[n++]; };
        s.disc.mesh_skeleton.CallForEachEdgeInterface(put1);
        s.disc.mesh_skeleton.CallForEachEdgeBoundary(put1);
        residuals(s);
        double a = ord == 2 ? 0.5 : 0, b = 1 - a;
        s.each([&](auto& e) {
            uint id = e.GetID();
            DynMatrix<double> dq = (q1[id] - q0[id]) / 0.125;
            DynMatrix<double> at = e.ComputeUgp(dq);
            for (uint d = 0; d < e.data.get_ndof(); ++d) {
                DynVector<double> m = e.IntegrationPhi(d, at);
                for (uint v = 0; v < 3; ++v)
                    hx::close(e.data.internal.rhs_local[3 * d + v], -m[v] + a * r0[id][3 * d + v] + b * r1[id][3 * d + v], 1e-5, "step", id, v, d);
            }
        });
    } else if (hx::param("CONS")) {
        // what the elements lose is what leaves them: the balance of the interface trace and the fluxes through the walls
        s.each([&](auto& e) { syms(e.data.state[0].q, "old" + std::to_string(e.GetID())); });
        s.disc.mesh_skeleton.CallForEachEdgeInterface([&](auto& e) { syms(e.edge_data.edge_state.q_hat, "trace"); });
        PB::init_iteration(s.stepper, s.disc);
        residuals(s);
        double sum = 0, out = 0;
        // the first basis functions are the constant 1
        s.each([&](auto& e) { sum += e.data.internal.rhs_local[0]; });
        s.disc.mesh_skeleton.CallForEachEdgeBoundary([&](auto& e) { auto& b = e.boundary; DynVector<double> f = b.IntegrationPhi(0, b.data.boundary[b.bound_id].F_hat_at_gp); sum += f[0]; });
        s.disc.mesh_skeleton.CallForEachEdgeInterface([&](auto& e) { out += e.edge_data.edge_internal.rhs_global[0]; });
        hx::close(sum, out, 1e-5, "mass");
    } else if (hx::param("WALL")) {
        // a wall whose condition is satisfied lets nothing through and feels the pressure
        uint which = sx_choice("wall", 4), k = 0;
        PB::init_iteration(s.stepper, s.disc);
        s.disc.mesh_skeleton.CallForEachEdgeBoundary([&](auto& e) {
            if (k++ != which) return;
            auto& b = e.boundary;
            syms(b.data.state[0].q, "q");
            b.data.state[1].q = b.data.state[0].q;
            b.boundary_condition.ComputeInitTrace(s.stepper, e);
        });
        residuals(s);
        k = 0;
        s.disc.mesh_skeleton.CallForEachEdgeBoundary([&](auto& e) {
            if (k++ != which) return;
            auto& b = e.boundary;
            auto& bd = b.data.boundary[b.bound_id];
            for (uint i = 0; i < rows(e.edge_data.edge_internal.rhs_global); ++i) hx::close(e.edge_data.edge_internal.rhs_global[i], 0, 1e-6, "wall.condition", which, i);
            DynMatrix<double> q = b.ComputeUgp(b.data.state[1].q);
            for (uint gp = 0; gp < columns(q); ++gp) {
                double nx = b.surface_normal(0, gp), ny = b.surface_normal(1, gp), ze = q(0, gp), bath = bd.aux_at_gp(0, gp);
                auto F = column(bd.F_hat_at_gp, gp);
                hx::close(F[0], 0, 1e-6, "wall.mass", which, gp);
                hx::close(F[1] * -ny + F[2] * nx, 0, 1e-5, "wall.traction", which, gp);
                hx::close(F[1] * nx + F[2] * ny, 9.5 * (ze * ze / 2 + ze * bath) + std::sqrt(9.5 * (ze + bath)) * (q(1, gp) * nx + q(2, gp) * ny), 1e-5, "wall.normal", which, gp);
            }
        });
    } else if (hx::param("SOLVE")) {
        // the condensed solve returns a solution of the whole linear system
        PB::init_iteration(s.stepper, s.disc);
        residuals(s);
        std::map<uint, DynMatrix<double>> A;
        std::map<uint, DynVector<double>> R, dq;
        uint block = sx_choice("block", 7);  // which residual is perturbed
        double amount = hx::real(-4, 4, "amount");
        s.each([&](auto& e) {
            auto& in = e.data.internal;
            for (uint i = 0; i < rows(in.rhs_local); ++i) in.rhs_local[i] += some(i, 1) * (block == e.GetID() ? amount : 1.0);
            A[e.GetID()] = in.delta_local; R[e.GetID()] = in.rhs_local;
        });
        std::vector<DynMatrix<double>> H, q_old;
        std::vector<DynVector<double>> G;
        auto save = [&](auto& e) {
            auto& in = e.edge_data.edge_internal;
            for (uint i = 0; i < rows(in.rhs_global); ++i) in.rhs_global[i] += some(i + H.size(), 1) * (block == 2 + H.size() ? amount : 1.0);
            H.push_back(in.delta_hat_global); G.push_back(in.rhs_global); q_old.push_back(e.edge_data.edge_state.q_hat);
        };
        s.disc.mesh_skeleton.CallForEachEdgeInterface(save);
        s.disc.mesh_skeleton.CallForEachEdgeBoundary(save);
        bool done = PB::serial_solve_global_problem(s.disc, s.global, s.stepper);
        s.each([&](auto& e) {
            DynVector<double> x(3 * e.data.get_ndof());
            for (uint d = 0; d < e.data.get_ndof(); ++d) for (uint v = 0; v < 3; ++v) x[3 * d + v] = e.data.state[1].q(v, d) - e.data.state[0].q(v, d);
            dq[e.GetID()] = x;
        });
        n = 0;
        double size = 0;
        auto change = [&](auto& e) {
            uint m = e.edge_data.get_ndof();
            DynVector<double> x(3 * m);
            for (uint d = 0; d < m; ++d) for (uint v = 0; v < 3; ++v) { x[3 * d + v] = e.edge_data.edge_state.q_hat(v, d) - q_old[n](v, d); size += x[3 * d + v] * x[3 * d + v]; }
            ++n;
            return x;
        };
        s.disc.mesh_skeleton.CallForEachEdgeInterface([&](auto& e) {
            uint k = n;
            DynVector<double> x = change(e), r = H[k] * x;
            auto& f = e.interface;
            auto& bi = f.data_in.boundary[f.bound_id_in];
            auto& be = f.data_ex.boundary[f.bound_id_ex];
            r += bi.delta_global * dq[id[&f.data_in]];
            r += be.delta_global * dq[id[&f.data_ex]];
            for (uint i = 0; i < rows(r); ++i) hx::close(r[i], G[k][i], 1e-6, "interface.row", k, i);
            R[id[&f.data_in]] -= bi.delta_hat_local * x;
            R[id[&f.data_ex]] -= be.delta_hat_local * x;
        });
        s.disc.mesh_skeleton.CallForEachEdgeBoundary([&](auto& e) {
            uint k = n;
            DynVector<double> x = change(e), r = H[k] * x;
            auto& b = e.boundary;
            auto& bd = b.data.boundary[b.bound_id];
            r += bd.delta_global * dq[id[&b.data]];
            for (uint i = 0; i < rows(r); ++i) hx::close(r[i], G[k][i], 1e-6, "boundary.row", k, i);
            R[id[&b.data]] -= bd.delta_hat_local * x;
        });
        s.each([&](auto& e) {
            DynVector<double> r = A[e.GetID()] * dq[e.GetID()];
            for (uint i = 0; i < rows(r); ++i) hx::close(r[i], R[e.GetID()][i], 1e-6, "element.row", e.GetID(), i);
        });
        // the iteration only stops once the traces have stopped moving
        if (done) hx::ge(1e-10, size, 1e-10, "stop");
    }
}
