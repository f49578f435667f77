// Straight triangle: Jacobian, maps, normals, lengths, point location, for every non-degenerate triangle
#include "common.hpp"
#include "shape/shapes_2D.hpp"
#include "master/master_elements_2D.hpp"
#include "basis/bases_2D.hpp"
#include "integration/integrations_2D.hpp"
extern "C" void sx_harness() {
    double X[3], Y[3];
    AlignedVector<Point<3>> nd(3);
    for (int i = 0; i < 3; ++i) {
        X[i] = hx::real(-10, 10, "x", i); Y[i] = hx::real(-10, 10, "y", i);
        nd[i][0] = X[i]; nd[i][1] = Y[i]; nd[i][2] = 0;
    }
    double two_a = (X[1] - X[0]) * (Y[2] - Y[0]) - (X[2] - X[0]) * (Y[1] - Y[0]);
    // clockwise input is reoriented by swapping the first and the last node
    if (sx_choice("cw", 2)) {
        sx_assume_ge(-two_a, 1);
        AlignedVector<Point<3>> n2 = nd;
        Shape::StraightTriangle s(std::move(n2));
        bool same = true;
        double j = s.GetJdet(AlignedVector<Point<2>>())[0];
        hx::close(j, -two_a / 4, 1e-7, "cw.jdet");
        hx::close(s.GetArea(), -two_a / 2, 1e-7, "cw.area");
        hx::close(s.nodal_coordinates[0][0], X[2], 1e-9, "cw.swap");
        hx::close(s.nodal_coordinates[1][0], X[1], 1e-9, "cw.keep");
        hx::close(s.nodal_coordinates[2][1], Y[0], 1e-9, "cw.swap2");
        return;
    }
    sx_assume_ge(two_a, 1);
    Shape::StraightTriangle s(std::move(nd));
    AlignedVector<Point<2>> z(1);
    z[0][0] = hx::real(-1, 1, "z1"); z[0][1] = hx::real(-1, 1, "z2");
    double l1 = -(z[0][0] + z[0][1]) / 2, l2 = (1 + z[0][0]) / 2, l3 = (1 + z[0][1]) / 2;
    hx::close(s.GetArea(), two_a / 2, 1e-7, "area");
    double jd = s.GetJdet(z)[0];
    hx::close(jd, two_a / 4, 1e-7, "jdet");
    auto g = s.LocalToGlobalCoordinates(z);
    hx::close(g[0][0], l1 * X[0] + l2 * X[1] + l3 * X[2], 1e-7, "map.x");
    hx::close(g[0][1], l1 * Y[0] + l2 * Y[1] + l3 * Y[2], 1e-7, "map.y");
    // the inverse Jacobian is the derivative of the inverse map
    auto ji = s.GetJinv(z)[0];
    double J00 = hx::diff(g[0][0], z[0][0], "J00"), J01 = hx::diff(g[0][0], z[0][1], "J01"), J10 = hx::diff(g[0][1], z[0][0], "J10"), J11 = hx::diff(g[0][1], z[0][1], "J11");
    hx::close(ji(0, 0) * J00 + ji(0, 1) * J10, 1, 1e-7, "jinv.00");
    hx::close(ji(0, 0) * J01 + ji(0, 1) * J11, 0, 1e-7, "jinv.01");
    hx::close(ji(1, 0) * J00 + ji(1, 1) * J10, 0, 1e-7, "jinv.10");
    hx::close(ji(1, 0) * J01 + ji(1, 1) * J11, 1, 1e-7, "jinv.11");
    auto back = s.GlobalToLocalCoordinates(g);
    hx::close(back[0][0], z[0][0], 1e-6, "roundtrip.z1");
    hx::close(back[0][1], z[0][1], 1e-6, "roundtrip.z2");
    // nodal shape functions
    auto psi = s.GetPsi(z);
    hx::close(psi(0, 0), l1, 1e-9, "psi.0"); hx::close(psi(1, 0), l2, 1e-9, "psi.1"); hx::close(psi(2, 0), l3, 1e-9, "psi.2");
    auto dpsi = s.GetDPsi(z);
    double u[3];
    for (int i = 0; i < 3; ++i) u[i] = hx::real(-1, 1, "u", i);
    // gradient of the nodal interpolant: solves the 2x2 system of edge differences
    double ux = 0, uy = 0;
    for (int i = 0; i < 3; ++i) { ux += u[i] * dpsi[0](i, 0); uy += u[i] * dpsi[1](i, 0); }
    for (int i = 1; i < 3; ++i)
        hx::close(ux * (X[i] - X[0]) + uy * (Y[i] - Y[0]), u[i] - u[0], 1e-7, "dpsi", i);
    // boundaries
    AlignedVector<Point<1>> zb(1);
    zb[0][0] = hx::real(-1, 1, "zb");
    Master::Triangle<Basis::Dubiner_2D, Integration::Dunavant_2D> m(1);
    Point<2> c = s.GetBarycentricCoordinates();
    hx::close(3 * c[0], X[0] + X[1] + X[2], 1e-7, "bary.x"); hx::close(3 * c[1], Y[0] + Y[1] + Y[2], 1e-7, "bary.y");
    auto mid = s.GetMidpointCoordinates();
    auto len = s.GetLengths();
    double per = 0, prod = 1;
    std::vector<uint> id = {7, 8, 9};
    for (uint b = 0; b < 3; ++b) {
        uint i = (b + 1) % 3, j = (b + 2) % 3;
        double dx = X[j] - X[i], dy = Y[j] - Y[i];
        auto zm = m.BoundaryToMasterCoordinates(b, zb);
        auto gp = s.LocalToGlobalCoordinates(zm);
        double t = (1 + zb[0][0]) / 2;
        hx::close(gp[0][0], X[i] + t * dx, 1e-7, "bound.x", b); hx::close(gp[0][1], Y[i] + t * dy, 1e-7, "bound.y", b);
        auto bp = s.GetBoundaryPsi(b, zb);
        hx::close(bp(0, 0), 1 - t, 1e-9, "bpsi.0", b); hx::close(bp(1, 0), t, 1e-9, "bpsi.1", b);
        auto ids = s.GetBoundaryNodeID(b, id);
        hx::ok(ids.size() == 2 && ids[0] == id[i] && ids[1] == id[j], "bnode", b);
        auto n = s.GetSurfaceNormal(b, zm)[0];
        hx::close(n[0] * dx + n[1] * dy, 0, 1e-6, "normal.tangent", b);
        hx::close(n[0] * n[0] + n[1] * n[1], 1, 1e-6, "normal.unit", b);
        // outward: the third node lies strictly on the inner side
        hx::ge(-(n[0] * (X[b] - X[i]) + n[1] * (Y[b] - Y[i])) * len[b], 0.5, 1e-6, "normal.outward", b);
        double sj = s.GetSurfaceJ(b, zm)[0];
        hx::close(4 * sj * sj, dx * dx + dy * dy, 1e-6, "surfaceJ", b);
        hx::ge(sj, 0, 0, "surfaceJ.pos", b);
        hx::close(len[b] * len[b], dx * dx + dy * dy, 1e-6, "length", b);
        hx::close(mid[b][0], (X[i] + X[j]) / 2, 1e-9, "mid.x", b); hx::close(mid[b][1], (Y[i] + Y[j]) / 2, 1e-9, "mid.y", b);
        per += len[b]; prod *= len[b];
    }
    hx::close(s.GetPerimeter(), per, 1e-6, "perimeter");
    hx::close(s.GetRadius() * two_a * 2, prod, 1e-4, "radius");
    // point location
    Point<2> pt;
    pt[0] = g[0][0]; pt[1] = g[0][1];
    bool in = s.ContainsPoint(pt);
    // (the boundary itself excluded by a margin)
    if (in) { hx::ge(l1, 0, 1e-6, "contains.l1"); hx::ge(l2, 0, 1e-6, "contains.l2"); hx::ge(l3, 0, 1e-6, "contains.l3"); }
    else {
        double mn = std::min(l1, std::min(l2, l3));
        hx::ge(-mn, 0, 1e-6, "contains.out");
    }
}
