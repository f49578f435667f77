// Element, interface, boundary and edge operators of the assembled mesh against plane geometry:
// symbolic polynomial fields on a two-element mesh, every relative orientation of the elements.
#include "mesh.hpp"
#include "problem/SWE/discretization_RKDG/rkdg_swe_problem.hpp"
#include "problem/SWE/discretization_RKDG/kernels_preprocessor/rkdg_swe_kernels_preprocessor.hpp"
#include "problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_kernels_processor.hpp"
#include "problem/SWE/discretization_RKDG/kernels_preprocessor/rkdg_swe_pre_serial.hpp"
#include "problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_serial_step.hpp"
#include "problem/SWE/discretization_EHDG/ehdg_swe_problem.hpp"
#include "problem/SWE/discretization_EHDG/kernels_preprocessor/ehdg_swe_kernels_preprocessor.hpp"
#include "problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_kernels_processor.hpp"
#include "problem/SWE/discretization_EHDG/kernels_preprocessor/ehdg_swe_pre_serial.hpp"
#include "problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_serial_step.hpp"
#ifndef PORD
#define PORD 1
#endif
using hx::close;
using V1 = StatVector<double, 1>;
static double fact(int n) { return n < 2 ? 1.0 : n * fact(n - 1); }
static double ipow(double x, int n) { double r = 1; while (n-- > 0) r *= x; return r; }
// polynomial in the barycentric coordinates l1, l2 of a triangle
struct Poly {
    double X[3], Y[3], A2;
    std::vector<std::array<double, 3>> t;  // i, j, coefficient
    Poly(const std::array<double, 3>* v, int deg, const std::string& nmx) {
        for (int i = 0; i < 3; ++i) { X[i] = v[i][0]; Y[i] = v[i][1]; }
        A2 = (X[1] - X[0]) * (Y[2] - Y[0]) - (X[2] - X[0]) * (Y[1] - Y[0]);
        for (int i = 0; i <= deg; ++i)
            for (int j = 0; i + j <= deg; ++j) t.push_back({{(double)i, (double)j, hx::real(-1, 1, nmx, i, j)}});
    }
    double l(int k, double x, double y) const {
        int a = (k + 1) % 3, b = (k + 2) % 3;
        return ((X[a] - x) * (Y[b] - y) - (X[b] - x) * (Y[a] - y)) / A2;
    }
    double lx(int k, int dir) const {
        int a = (k + 1) % 3, b = (k + 2) % 3;
        return dir == 0 ? (Y[a] - Y[b]) / A2 : (X[b] - X[a]) / A2;
    }
    template <typename P>
    V1 operator()(const P& p) const {
        V1 r; r[0] = 0;
        for (auto& m : t) r[0] += m[2] * (ipow(l(0, p[0], p[1]), m[0]) * ipow(l(1, p[0], p[1]), m[1]));
        return r;
    }
    template <typename P>
    double d(int dir, const P& p) const {
        double r = 0, a = l(0, p[0], p[1]), b = l(1, p[0], p[1]);
        for (auto& m : t) {
            if (m[0]) r += m[2] * (m[0] * ipow(a, m[0] - 1) * ipow(b, m[1]) * lx(0, dir));
            if (m[1]) r += m[2] * (m[1] * ipow(a, m[0]) * ipow(b, m[1] - 1) * lx(1, dir));
        }
        return r;
    }
    double integral() const {
        double r = 0;
        for (auto& m : t) r += m[2] * (A2 * fact(m[0]) * fact(m[1]) / fact(m[0] + m[1] + 2));
        return r;
    }
};
template <typename M>
double at(const M& m, uint i, uint j) { DynMatrix<double> x = m; return x(i, j); }
extern "C" void sx_harness() {
    using namespace SWE;
    const uint p = PORD;
#ifdef ORIENT
    int r0 = sx_choice("rot0", 3), r1 = sx_choice("rot1", 3);
#else
    int r0 = 1, r1 = 2;
#endif
    auto md = hx::mesh2();
    std::rotate(md.tri[0].begin(), md.tri[0].begin() + r0, md.tri[0].end());
    std::rotate(md.tri[1].begin(), md.tri[1].begin() + r1, md.tri[1].end());
#ifndef SKEL
    using Pb = RKDG::Problem;
#else
    using Pb = EHDG::Problem;
#endif
    hx::Sim<Pb> s(p, hx::stepper_input(1, 1, 0.125));
    hx::fill(s.input.mesh_input.mesh_data, md);
    s.init();
    std::array<double, 3> vv[2][3];
    for (int e = 0; e < 2; ++e)
        for (int i = 0; i < 3; ++i) vv[e][i] = md.xyz[md.tri[e][i]];
    std::vector<Poly> f, g;
    for (int e = 0; e < 2; ++e) {
        f.emplace_back(vv[e], p, "f" + std::to_string(e));
        g.emplace_back(vv[e], p, "g" + std::to_string(e));
    }
    const uint nd = (p + 1) * (p + 2) / 2;
    std::map<const void*, uint> owner;
    s.each([&](auto& e) { owner[&e.data] = e.GetID(); });
#if defined(ELEM)
    s.each([&](auto& e) {
        uint k = e.GetID();
        DynMatrix<double> u = e.L2ProjectionF(f[k]), fg = e.ComputeFgp(f[k]), ug = e.ComputeUgp(u);
        uint ngp = columns(fg);
        for (uint i = 0; i < ngp; ++i) close(ug(0, i), fg(0, i), 1e-8, "projection", k, i);
        DynMatrix<double> u2 = e.L2Projection(fg);
        for (uint i = 0; i < nd; ++i) close(u2(0, i), u(0, i), 1e-8, "l2projection", k, i);
        DynMatrix<double> dg[2];
        for (uint d = 0; d < 2; ++d) {
            DynMatrix<double> du = e.ComputeDUgp(d, u);
            dg[d] = e.ComputeFgp([&](const auto& pt) { V1 r; r[0] = f[k].d(d, pt); return r; });
            for (uint i = 0; i < ngp; ++i) close(du(0, i), dg[d](0, i), 1e-7, "gradient", k, d, i);
        }
        DynVector<double> I = e.Integration(fg);
        close(I[0], f[k].integral(), 1e-8, "integral", k);
        Poly h(vv[k], 2 * p, "h" + std::to_string(k));
        I = e.Integration(e.ComputeFgp(h));
        close(I[0], h.integral(), 1e-8, "integral.2p", k);
        // arbitrary quadrature values: every integration operator against the plain one
        DynMatrix<double> v(1, ngp), E = IdentityMatrix<double>(nd), w(1, ngp);
        for (uint i = 0; i < ngp; ++i) v(0, i) = hx::real(-1, 1, "v", k, i);
        DynMatrix<double> ph = e.ComputeUgp(E), dx[2] = {e.ComputeDUgp(0, E), e.ComputeDUgp(1, E)};
        DynMatrix<double> iphi = e.IntegrationPhi(v);
        for (uint i = 0; i < nd; ++i) {
            w = vec_cw_mult(row(v, 0), row(ph, i));
            DynVector<double> ref = e.Integration(w), one = e.IntegrationPhi(i, v);
            close(one[0], ref[0], 1e-8, "intphi", k, i);
            close(iphi(0, i), ref[0], 1e-8, "intphi.all", k, i);
            for (uint d = 0; d < 2; ++d) {
                DynMatrix<double> all = e.IntegrationDPhi(d, v);
                w = vec_cw_mult(row(v, 0), row(dx[d], i));
                DynVector<double> r2 = e.Integration(w), o2 = e.IntegrationDPhi(d, i, v);
                close(o2[0], r2[0], 1e-8, "intdphi", k, d, i);
                close(all(0, i), r2[0], 1e-8, "intdphi.all", k, d, i);
            }
            for (uint j = 0; j < nd; ++j) {
                DynMatrix<double> wj = vec_cw_mult(row(v, 0), row(ph, i)), wk(1, ngp);
                wk = vec_cw_mult(row(wj, 0), row(ph, j));
                DynVector<double> r3 = e.Integration(wk), o3 = e.IntegrationPhiPhi(i, j, v);
                close(o3[0], r3[0], 1e-8, "intphiphi", k, i, j);
                for (uint d = 0; d < 2; ++d) {
                    wk = vec_cw_mult(row(wj, 0), row(dx[d], j));
                    DynVector<double> r4 = e.Integration(wk), o4 = e.IntegrationPhiDPhi(i, d, j, v);
                    close(o4[0], r4[0], 1e-8, "intphidphi", k, d, i, j);
                }
            }
        }
        DynMatrix<double> c(1, nd);
        for (uint i = 0; i < nd; ++i) c(0, i) = hx::real(-1, 1, "c", k, i);
        DynMatrix<double> b = e.ApplyMinv(e.IntegrationPhi(e.ComputeUgp(c)));
        for (uint i = 0; i < nd; ++i) close(b(0, i), c(0, i), 1e-8, "minv", k, i);
        // nodal and linear representations
        Poly q(vv[k], 1, "lin" + std::to_string(k));
        DynMatrix<double> un(1, 3);
        for (uint i = 0; i < 3; ++i) un(0, i) = q(vv[k][i])[0];
        DynMatrix<double> qg = e.ComputeFgp(q), ng = e.ComputeNodalUgp(un), um = e.L2ProjectionNode(un), mg = e.ComputeUgp(um);
        DynMatrix<double> ul = e.ProjectBasisToLinear(um), lg = e.ComputeLinearUgp(un), ub = e.ProjectLinearToBasis(un);
        for (uint i = 0; i < ngp; ++i) {
            close(ng(0, i), qg(0, i), 1e-8, "nodal", k, i);
            close(mg(0, i), qg(0, i), 1e-8, "nodal.projection", k, i);
            close(lg(0, i), qg(0, i), 1e-8, "linear.gp", k, i);
        }
        for (uint i = 0; i < 3; ++i) close(ul(0, i), un(0, i), 1e-8, "linear.from", k, i);
        for (uint i = 0; i < nd; ++i) close(ub(0, i), um(0, i), 1e-8, "linear.to", k, i);
        for (uint d = 0; d < 2; ++d) {
            double ex = q.d(d, vv[k][0]);
            DynMatrix<double> a = e.ComputeNodalDUgp(d, un), bb = e.ComputeLinearDUgp(d, un);
            DynVector<double> cc = e.ComputeLinearDUbaryctr(d, un);
            for (uint i = 0; i < ngp; ++i) {
                close(a(0, i), ex, 1e-8, "nodal.grad", k, d, i);
                close(bb(0, i), ex, 1e-8, "linear.grad", k, d, i);
            }
            close(cc[0], ex, 1e-8, "linear.grad.centre", k, d);
        }
        auto bc = e.GetShape().GetBarycentricCoordinates();
        auto mp = e.GetShape().GetMidpointCoordinates();
        DynVector<double> uc = e.ComputeLinearUbaryctr(un);
        DynMatrix<double> umid = e.ComputeLinearUmidpts(un), uv = e.ComputeLinearUvrtx(un);
        close(uc[0], q(bc)[0], 1e-8, "linear.centre", k);
        for (uint i = 0; i < 3; ++i) {
            close(umid(0, i), q(mp[i])[0], 1e-8, "linear.mid", k, i);
            close(uv(0, i), un(0, i), 1e-8, "linear.vertex", k, i);
        }
        // output: cells and points carry the values at the places they are drawn at
        AlignedVector<Point<3>> pts; Array2D<uint> cells;
        AlignedVector<V1> pd, cd, sd;
        pts.push_back(Point<3>{0., 0., 0.});
        e.InitializeVTK(pts, cells);
        e.WritePointDataVTK(u, pd);
        e.WriteCellDataVTK(u, cd);
        hx::ok(pd.size() + 1 == pts.size() && cd.size() == cells.size(), "output.count", k);
        for (uint i = 0; i < pd.size(); ++i) close(pd[i][0], f[k](pts[i + 1])[0], 1e-8, "output.point", k, i);
        double area = 0;
        for (uint i = 0; i < cd.size(); ++i) {
            Point<2> m; m[0] = m[1] = 0;
            bool in = cells[i][1] > 0 && cells[i][2] > 0 && cells[i][3] > 0 && cells[i][1] < pts.size() && cells[i][2] < pts.size() && cells[i][3] < pts.size();
            hx::ok(in, "output.cell.index", k, i);
            if (!in) continue;
            for (uint j = 1; j < 4; ++j) for (uint d = 0; d < 2; ++d) m[d] += pts[cells[i][j]][d] / 3;
            close(cd[i][0], f[k](m)[0], 1e-8, "output.cell", k, i);
            auto &P = pts[cells[i][1]], &Q = pts[cells[i][2]], &R = pts[cells[i][3]];
            area += std::abs((Q[0] - P[0]) * (R[1] - P[1]) - (R[0] - P[0]) * (Q[1] - P[1])) / 2;
        }
        hx::ok(std::abs(area - std::abs(f[k].A2) / 2) < 1e-9, "output.tiling", k);
        // survey points anywhere in the element
        AlignedVector<Point<2>> sp(2);
        for (uint i = 0; i < 2; ++i) {
            double a = 0.125 + 0.25 * i, bq = 0.5 - 0.125 * i;
            for (uint d = 0; d < 2; ++d) sp[i][d] = a * vv[k][0][d] + bq * vv[k][1][d] + (1 - a - bq) * vv[k][2][d];
        }
        e.SetSurveyPoints(sp);
        e.WriteSurveyPointData(u, sd);
        hx::ok(sd.size() == 2, "survey.count", k);
        for (uint i = 0; i < sd.size(); ++i) close(sd[i][0], f[k](sp[i])[0], 1e-8, "survey", k, i);
    });
#elif defined(FACE)
    // Green's formula element by element: volume terms against the assembled interface/boundary terms
    DynMatrix<double> acc(2, nd);
    for (uint i = 0; i < nd; ++i) acc(0, i) = acc(1, i) = 0;
    double vol[2][3] = {{0, 0, 0}, {0, 0, 0}};
    s.each([&](auto& e) {
        uint k = e.GetID();
        DynMatrix<double> fg = e.ComputeFgp(f[k]), gg = e.ComputeFgp(g[k]);
        DynMatrix<double> div = e.ComputeFgp([&](const auto& pt) { V1 r; r[0] = f[k].d(0, pt) + g[k].d(1, pt); return r; });
        DynMatrix<double> a = e.IntegrationDPhi(0, fg) + e.IntegrationDPhi(1, gg) + e.IntegrationPhi(div);
        for (uint i = 0; i < nd; ++i) acc(k, i) += a(0, i);
    });
    uint nin = 0, nb = 0;
    auto fn = [&](const DynMatrix<double>& a, const DynMatrix<double>& b, const HybMatrix<double, 2>& n) {
        DynMatrix<double> r(1, columns(a));
        for (uint i = 0; i < columns(a); ++i) r(0, i) = a(0, i) * n(0, i) + b(0, i) * n(1, i);
        return r;
    };
    s.disc.mesh.CallForEachInterface([&](auto& in) {
        ++nin;
        uint a = owner[&in.data_in], b = owner[&in.data_ex];
        hx::ok(a != b, "interface.owners");
        DynMatrix<double> fi = in.ComputeFgpIN(f[a]), gi = in.ComputeFgpIN(g[a]), fe = in.ComputeFgpEX(f[b]), ge = in.ComputeFgpEX(g[b]);
        DynMatrix<double> fo = in.ComputeFgpIN(f[b]);
        DynMatrix<double> Fi = fn(fi, gi, in.surface_normal_in), Fe = fn(fe, ge, in.surface_normal_ex);
        DynMatrix<double> ri = in.IntegrationPhiIN(Fi), re = in.IntegrationPhiEX(Fe);
        for (uint i = 0; i < nd; ++i) {
            acc(a, i) -= ri(0, i);
            acc(b, i) -= re(0, i);
        }
        uint n = columns(fi);
        DynMatrix<double> ui, ue;
        s.each([&](auto& e) {
            if (e.GetID() == a) ui = e.L2ProjectionF(f[a]);
            if (e.GetID() == b) ue = e.L2ProjectionF(f[b]);
        });
        DynMatrix<double> ugi = in.ComputeUgpIN(ui), uge = in.ComputeUgpEX(ue);
        DynMatrix<double> v(1, n), w(1, n), E = IdentityMatrix<double>(nd);
        for (uint i = 0; i < n; ++i) {
            // both sides see the same physical points, in opposite order, with opposite normals
            close(fo(0, i), fe(0, n - 1 - i), 1e-8, "interface.points", i);
            for (uint d = 0; d < 2; ++d)
                hx::ok(std::abs(in.surface_normal_in(d, i) + in.surface_normal_ex(d, n - 1 - i)) < 1e-10, "interface.normals", d, i);
            close(ugi(0, i), fi(0, i), 1e-8, "interface.value.in", i);
            close(uge(0, i), fe(0, i), 1e-8, "interface.value.ex", i);
            v(0, i) = hx::real(-1, 1, "v", i);
        }
        auto na = in.GetNodeIDIN(), nb2 = in.GetNodeIDEX();
        hx::ok(na.size() == 2 && nb2.size() == 2 && na[0] == nb2[1] && na[1] == nb2[0], "interface.nodes");
        for (int side = 0; side < 2; ++side) {
            uint k = side ? b : a;
            Poly q(vv[k], 1, "lin" + std::to_string(k));
            DynMatrix<double> un(1, 3), bn(1, 2);
            for (uint i = 0; i < 3; ++i) un(0, i) = q(vv[k][i])[0];
            auto& ids = side ? nb2 : na;
            for (uint i = 0; i < 2; ++i) bn(0, i) = q(md.xyz[ids[i]])[0];
            DynMatrix<double> x = side ? DynMatrix<double>(in.ComputeNodalUgpEX(un)) : DynMatrix<double>(in.ComputeNodalUgpIN(un));
            DynMatrix<double> y = side ? DynMatrix<double>(in.ComputeBoundaryNodalUgpEX(bn)) : DynMatrix<double>(in.ComputeBoundaryNodalUgpIN(bn));
            DynMatrix<double> z = side ? in.ComputeFgpEX(q) : in.ComputeFgpIN(q);
            for (uint i = 0; i < n; ++i) {
                close(x(0, i), z(0, i), 1e-8, "interface.nodal", side, i);
                close(y(0, i), z(0, i), 1e-8, "interface.edge_nodal", side, i);
            }
            DynMatrix<double> ph = side ? DynMatrix<double>(in.ComputeUgpEX(E)) : DynMatrix<double>(in.ComputeUgpIN(E));
            DynMatrix<double> all = side ? DynMatrix<double>(in.IntegrationPhiEX(v)) : DynMatrix<double>(in.IntegrationPhiIN(v));
            for (uint i = 0; i < nd; ++i) {
                DynMatrix<double> wi = vec_cw_mult(row(v, 0), row(ph, i));
                DynVector<double> ref = side ? DynVector<double>(in.IntegrationEX(wi)) : DynVector<double>(in.IntegrationIN(wi));
                DynVector<double> one = side ? DynVector<double>(in.IntegrationPhiEX(i, v)) : DynVector<double>(in.IntegrationPhiIN(i, v));
                close(one[0], ref[0], 1e-8, "interface.intphi", side, i);
                close(all(0, i), ref[0], 1e-8, "interface.intphi.all", side, i);
                for (uint j = 0; j < nd; ++j) {
                    w = vec_cw_mult(row(wi, 0), row(ph, j));
                    DynVector<double> r2 = side ? DynVector<double>(in.IntegrationEX(w)) : DynVector<double>(in.IntegrationIN(w));
                    DynVector<double> o2 = side ? DynVector<double>(in.IntegrationPhiPhiEX(i, j, v)) : DynVector<double>(in.IntegrationPhiPhiIN(i, j, v));
                    close(o2[0], r2[0], 1e-8, "interface.intphiphi", side, i, j);
                }
            }
        }
    });
    s.disc.mesh.CallForEachBoundary([&](auto& in) {
        uint a = owner[&in.data], bi = nb++;
        DynMatrix<double> fi = in.ComputeFgp(f[a]), gi = in.ComputeFgp(g[a]);
        DynMatrix<double> ri = in.IntegrationPhi(fn(fi, gi, in.surface_normal));
        for (uint i = 0; i < nd; ++i) acc(a, i) -= ri(0, i);
        uint n = columns(fi);
        DynMatrix<double> ui, v(1, n), w(1, n), E = IdentityMatrix<double>(nd);
        s.each([&](auto& e) { if (e.GetID() == a) ui = e.L2ProjectionF(f[a]); });
        DynMatrix<double> ug = in.ComputeUgp(ui);
        for (uint i = 0; i < n; ++i) {
            close(ug(0, i), fi(0, i), 1e-8, "boundary.value", bi, i);
            v(0, i) = hx::real(-1, 1, "v", i);
        }
        Poly q(vv[a], 1, "lin" + std::to_string(a));
        DynMatrix<double> un(1, 3), bn(1, 2);
        for (uint i = 0; i < 3; ++i) un(0, i) = q(vv[a][i])[0];
        auto ids = in.GetNodeID();
        for (uint i = 0; i < 2; ++i) bn(0, i) = q(md.xyz[ids[i]])[0];
        DynMatrix<double> x = in.ComputeNodalUgp(un), y = in.ComputeBoundaryNodalUgp(bn), z = in.ComputeFgp(q);
        for (uint i = 0; i < n; ++i) {
            close(x(0, i), z(0, i), 1e-8, "boundary.nodal", bi, i);
            close(y(0, i), z(0, i), 1e-8, "boundary.edge_nodal", bi, i);
        }
        DynMatrix<double> ph = in.ComputeUgp(E), all = in.IntegrationPhi(v);
        for (uint i = 0; i < nd; ++i) {
            DynMatrix<double> wi = vec_cw_mult(row(v, 0), row(ph, i));
            DynVector<double> ref = in.Integration(wi), one = in.IntegrationPhi(i, v);
            close(one[0], ref[0], 1e-8, "boundary.intphi", bi, i);
            close(all(0, i), ref[0], 1e-8, "boundary.intphi.all", bi, i);
            for (uint j = 0; j < nd; ++j) {
                w = vec_cw_mult(row(wi, 0), row(ph, j));
                DynVector<double> r2 = in.Integration(w), o2 = in.IntegrationPhiPhi(i, j, v);
                close(o2[0], r2[0], 1e-8, "boundary.intphiphi", bi, i, j);
            }
        }
    });
    hx::ok(nin == 1 && nb == 4, "counts");
    for (uint k = 0; k < 2; ++k)
        for (uint i = 0; i < nd; ++i) close(acc(k, i), 0, 1e-8, "green", k, i);
#elif defined(SKEL)
    uint nE = 0, nB = 0;
    auto common = [&](auto& ed, auto integrate, auto value, uint n, uint bi) {
        uint ne = ed.edge_data.get_ndof();
        hx::ok(ne == p + 1 && ed.edge_data.get_ngp() == n, "edge.sizes", bi);
        DynMatrix<double> E = IdentityMatrix<double>(ne), lam = ed.ComputeUgp(E), v(1, n), w(1, n), c(1, ne);
        for (uint i = 0; i < n; ++i) v(0, i) = hx::real(-1, 1, "v", i);
        for (uint i = 0; i < ne; ++i) c(0, i) = hx::real(-1, 1, "c", i);
        DynMatrix<double> back = ed.L2Projection(ed.ComputeUgp(c));
        DynMatrix<double> rhs(1, ne), cg = ed.ComputeUgp(c), tr = ed.ComputeUgp(ed.L2Projection(value));
        for (uint i = 0; i < ne; ++i) {
            close(back(0, i), c(0, i), 1e-8, "edge.projection", bi, i);
            DynMatrix<double> wi = vec_cw_mult(row(v, 0), row(lam, i));
            DynVector<double> o = ed.IntegrationLambda(i, v);
            close(o[0], integrate(wi), 1e-8, "edge.intlambda", bi, i);
            for (uint j = 0; j < ne; ++j) {
                w = vec_cw_mult(row(wi, 0), row(lam, j));
                DynVector<double> o2 = ed.IntegrationLambdaLambda(i, j, v);
                close(o2[0], integrate(w), 1e-8, "edge.intlambdalambda", bi, i, j);
            }
            rhs(0, i) = DynVector<double>(ed.IntegrationLambda(i, cg))[0];
        }
        DynMatrix<double> sol = ed.ApplyMinv(rhs);
        for (uint i = 0; i < ne; ++i) close(sol(0, i), c(0, i), 1e-8, "edge.minv", bi, i);
        // a polynomial trace is represented exactly
        for (uint i = 0; i < n; ++i) close(tr(0, i), value(0, i), 1e-8, "edge.trace", bi, i);
        return lam;
    };
    s.disc.mesh_skeleton.CallForEachEdgeInterface([&](auto& ed) {
        ++nE;
        auto& in = ed.interface;
        uint a = owner[&in.data_in];
        DynMatrix<double> val = in.ComputeFgpIN(f[a]);
        uint n = columns(val), ne = p + 1;
        DynMatrix<double> lam = common(ed, [&](const DynMatrix<double>& x) { return DynVector<double>(in.IntegrationIN(x))[0]; }, val, n, 9);
        DynMatrix<double> E = IdentityMatrix<double>(nd), pi = in.ComputeUgpIN(E), pe = in.ComputeUgpEX(E), v(1, n), w(1, n);
        for (uint i = 0; i < n; ++i) v(0, i) = hx::real(-1, 1, "v", i);
        for (uint i = 0; i < nd; ++i)
            for (uint j = 0; j < ne; ++j) {
                for (uint g = 0; g < n; ++g) w(0, g) = v(0, g) * pi(i, g) * lam(j, g);
                close(DynVector<double>(ed.IntegrationPhiLambdaIN(i, j, v))[0], DynVector<double>(in.IntegrationIN(w))[0], 1e-8, "edge.philambda.in", i, j);
                // exterior arrays run the other way along the edge
                for (uint g = 0; g < n; ++g) w(0, g) = v(0, g) * pe(i, g) * lam(j, n - 1 - g);
                close(DynVector<double>(ed.IntegrationPhiLambdaEX(i, j, v))[0], DynVector<double>(in.IntegrationEX(w))[0], 1e-8, "edge.philambda.ex", i, j);
            }
    });
    s.disc.mesh_skeleton.CallForEachEdgeBoundary([&](auto& ed) {
        uint bi = nB++;
        auto& in = ed.boundary;
        uint a = owner[&in.data];
        DynMatrix<double> val = in.ComputeFgp(f[a]);
        uint n = columns(val), ne = p + 1;
        DynMatrix<double> lam = common(ed, [&](const DynMatrix<double>& x) { return DynVector<double>(in.Integration(x))[0]; }, val, n, bi);
        DynMatrix<double> E = IdentityMatrix<double>(nd), pi = in.ComputeUgp(E), v(1, n), w(1, n);
        for (uint i = 0; i < n; ++i) v(0, i) = hx::real(-1, 1, "v", i);
        for (uint i = 0; i < nd; ++i)
            for (uint j = 0; j < ne; ++j) {
                for (uint g = 0; g < n; ++g) w(0, g) = v(0, g) * pi(i, g) * lam(j, g);
                close(DynVector<double>(ed.IntegrationPhiLambda(i, j, v))[0], DynVector<double>(in.Integration(w))[0], 1e-8, "edge.philambda", bi, i, j);
            }
    });
    hx::ok(nE == 1 && nB == 4, "counts");
#endif
}
