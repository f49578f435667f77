// Modal bases: orthogonality / inverse mass matrix, gradients, values at the collapsed vertex, linear transforms
#include "common.hpp"
#include "basis/bases_1D.hpp"
#include "basis/bases_2D.hpp"
#include "integration/integrations_1D.hpp"
#include "integration/integrations_2D.hpp"
template <uint d>
static void mass(Basis::Basis<d>& b, const std::pair<DynVector<double>, AlignedVector<Point<d>>>& r, uint p, const std::string& nm) {
    DynMatrix<double> phi = b.GetPhi(p, r.second), mi = b.GetMinv(p);
    uint n = phi.rows();
    hx::ok(n == (d == 2 ? (p + 1) * (p + 2) / 2 : p + 1) && mi.rows() == n && mi.cols() == n, nm + ".shape", p);
    DynVector<double> a(n), m(n);
    for (uint i = 0; i < n; ++i) a[i] = hx::real(-1, 1, nm, p, i);
    for (uint i = 0; i < n; ++i) m[i] = 0;
    for (uint g = 0; g < r.second.size(); ++g) {
        double u = 0;
        for (uint i = 0; i < n; ++i) u += a[i] * phi(i, g);
        for (uint i = 0; i < n; ++i) m[i] += r.first[g] * u * phi(i, g);
    }
    DynVector<double> x = mi * m;
    for (uint i = 0; i < n; ++i) hx::close(x[i], a[i], 1e-8, nm, p, i);
}
// extrapolate samples at t_k (k=0..n) to t: Lagrange
static double lagr(const std::vector<double>& t, const std::vector<double>& f, double x) {
    double s = 0;
    for (uint i = 0; i < t.size(); ++i) {
        double w = 1;
        for (uint j = 0; j < t.size(); ++j) if (j != i) w *= (x - t[j]) / (t[i] - t[j]);
        s += w * f[i];
    }
    return s;
}
extern "C" void sx_harness() {
#ifdef MASS
    uint pm = sx_thorough() ? 10 : 7;
    Basis::Dubiner_2D b2;
    Basis::Legendre_1D b1;
    Integration::Dunavant_2D q2;
    Integration::GaussLegendre_1D q1;
    // for every u = sum a_i phi_i: M^-1 (integral of u phi_j)_j = a
    for (uint p = 1; p <= pm; ++p) mass<2>(b2, q2.GetRule(2 * p), p, "dubiner.mass");
    for (uint p = 0; p <= 2 * pm; ++p) mass<1>(b1, q1.GetRule(2 * p + 1), p, "legendre.mass");
#endif
#ifdef GRAD
    uint pm = sx_thorough() ? 6 : 4;
    {
        Basis::Dubiner_2D b;
        double z1 = hx::real(-1, 1, "z1"), z2 = hx::real(-1, 0.999, "z2");
        sx_assume_ge(-z1, z2);
        AlignedVector<Point<2>> pt(1);
        pt[0][0] = z1; pt[0][1] = z2;
        DynMatrix<double> phi = b.GetPhi(pm, pt);
        auto d = b.GetDPhi(pm, pt);
        for (uint i = 0; i < phi.rows(); ++i) {
            hx::close(d[0](i, 0), hx::diff(phi(i, 0), z1, "dz1", i), 1e-7, "dubiner.dz1", i);
            hx::close(d[1](i, 0), hx::diff(phi(i, 0), z2, "dz2", i), 1e-7, "dubiner.dz2", i);
        }
        // hierarchical: the first functions do not depend on p
        for (uint p = 1; p < pm; ++p) {
            DynMatrix<double> f = b.GetPhi(p, pt);
            for (uint i = 0; i < f.rows(); ++i) hx::close(f(i, 0), phi(i, 0), 1e-9, "dubiner.hier", p, i);
        }
    }
    {
        Basis::Legendre_1D b;
        AlignedVector<Point<1>> pt(1);
        double x = hx::real(-1, 1, "x");
        pt[0][0] = x;
        uint p = 2 * pm;
        DynMatrix<double> phi = b.GetPhi(p, pt);
        auto d = b.GetDPhi(p, pt);
        for (uint i = 0; i <= p; ++i) hx::close(d[0](i, 0), hx::diff(phi(i, 0), x, "dx", i), 1e-7, "legendre.dx", i);
        // (n+1) P_{n+1} = (2n+1) x P_n - n P_{n-1}
        for (uint i = 1; i < p; ++i)
            hx::close((i + 1) * phi(i + 1, 0), (2 * i + 1) * x * phi(i, 0) - i * phi(i - 1, 0), 1e-7, "legendre.rec", i);
    }
#endif
#ifdef VERT
    // collapsed vertex (-1,1): the value and gradient are the limits along the edge z1=-1 (and along z1 = -(1+z2)/2)
    uint pm = sx_thorough() ? 8 : 5;
    Basis::Dubiner_2D b;
    AlignedVector<Point<2>> v(1);
    v[0][0] = -1; v[0][1] = 1;
    DynMatrix<double> phi = b.GetPhi(pm, v);
    auto d = b.GetDPhi(pm, v);
    for (int line = 0; line < 2; ++line) {
        std::vector<double> t;
        AlignedVector<Point<2>> pt(pm + 1);
        for (uint k = 0; k <= pm; ++k) {
            double c = -std::cos(3.14159265358979 * (k + 0.5) / (pm + 1));
            t.push_back(c);
            pt[k][1] = c;
            pt[k][0] = line ? -(1 + c) / 2 : -1;
        }
        DynMatrix<double> f = b.GetPhi(pm, pt);
        auto df = b.GetDPhi(pm, pt);
        double s[3] = {0, 0, 0}, e[3] = {0, 0, 0};
        for (uint i = 0; i < phi.rows(); ++i) {
            double c = hx::real(-1, 1, "c", line, i);
            std::vector<double> a, g, h;
            for (uint k = 0; k <= pm; ++k) { a.push_back(f(i, k)); g.push_back(df[0](i, k)); h.push_back(df[1](i, k)); }
            s[0] += c * phi(i, 0); e[0] += c * lagr(t, a, 1);
            s[1] += c * d[0](i, 0); e[1] += c * lagr(t, g, 1);
            s[2] += c * d[1](i, 0); e[2] += c * lagr(t, h, 1);
        }
        hx::close(s[0], e[0], 1e-7, "vertex.value", line);
        hx::close(s[1], e[1], 1e-6, "vertex.dz1", line);
        hx::close(s[2], e[2], 1e-6, "vertex.dz2", line);
    }
#endif
#ifdef LIN
    Basis::Dubiner_2D b;
    AlignedVector<Point<2>> v(3);
    v[0][0] = -1; v[0][1] = -1; v[1][0] = 1; v[1][1] = -1; v[2][0] = -1; v[2][1] = 1;
    for (uint p = 1; p <= 5; ++p) {
        DynMatrix<double> T = b.GetBasisLinearT(p), L = b.GetLinearBasisT(p);
        uint n = (p + 1) * (p + 2) / 2;
        DynRowVector<double> a(n), w(3);
        for (uint i = 0; i < n; ++i) a[i] = hx::real(-1, 1, "a", p, i);
        for (uint i = 0; i < 3; ++i) w[i] = hx::real(-1, 1, "w", p, i);
        DynRowVector<double> al = a;
        for (uint i = 3; i < n; ++i) al[i] = 0;
        // the vertex values of the linear part
        DynRowVector<double> x = a * T, y = al * b.GetPhi(p, v), back = w * L;
        DynRowVector<double> vert = back * b.GetPhi(p, v);
        for (uint i = 0; i < 3; ++i) {
            hx::close(x[i], y[i], 1e-9, "linear.vertices", p, i);
            hx::close(vert[i], w[i], 1e-9, "linear.roundtrip", p, i);
        }
        for (uint i = 3; i < n; ++i) hx::close(back[i], 0, 1e-12, "linear.high", p, i);
    }
#endif
}
