// Quadrature exactness: for every polynomial (symbolic coefficients) of the advertised degree.
#include "common.hpp"
#include "integration/integrations_1D.hpp"
#include "integration/integrations_2D.hpp"
#include "master/master_elements_2D.hpp"
static double fact(int n) { return n < 2 ? 1.0 : n * fact(n - 1); }
// exact integral of l1^i l2^j l3^k over the master triangle (area 2)
static double exact(int i, int j, int k) { return 2.0 * 2.0 * fact(i) * fact(j) * fact(k) / fact(i + j + k + 2); }
extern "C" void sx_harness() {
#ifdef ONED
    int pmax = 65;
    Integration::GaussLegendre_1D rule;
    for (int p = 0; p <= pmax; ++p) {
        auto r = rule.GetRule(p);
        hx::ok(r.first.size() == r.second.size() && r.first.size() == rule.GetNumGP(p), "count", p);
        double s = 0, ex = 0;
        for (int d = 0; d <= p; ++d) {
            double c = hx::real(-1, 1, "c", p, d), m = 0;
            for (uint g = 0; g < r.second.size(); ++g) m += r.first[g] * std::pow(r.second[g][0], d);
            s += c * m;
            ex += c * (d % 2 ? 0.0 : 2.0 / (d + 1));
        }
        hx::close(s, ex, 1e-10, "exact", p);
        for (uint g = 0; g < r.second.size(); ++g)
            hx::ok(r.first[g] > 0 && std::abs(r.second[g][0]) < 1, "inside", p, g);
        // the rule is mirrored: point g pairs with point n-1-g (relied on at interfaces)
        double dv = 0, w = hx::real(-1, 1, "w", p);
        for (uint g = 0; g < r.second.size(); ++g) {
            dv += std::abs(r.second[g][0] + r.second[r.second.size() - 1 - g][0]);
            dv += std::abs(r.first[g] - r.first[r.second.size() - 1 - g]);
        }
        hx::close(w * dv, 0, 1e-12, "mirror", p);
    }
#else
    Integration::Dunavant_2D rule;
    for (int p = 1; p <= 20; ++p) {
        auto r = rule.GetRule(p);
        hx::ok(r.first.size() == r.second.size() && r.first.size() == rule.GetNumGP(p), "count", p);
        double s = 0, ex = 0;
        for (int i = 0; i <= p; ++i)
            for (int j = 0; i + j <= p; ++j) {
                double c = hx::real(-1, 1, "c", p, i, j), m = 0;
                for (uint g = 0; g < r.second.size(); ++g)
                    m += r.first[g] * std::pow((1 + r.second[g][0]) / 2, i) * std::pow((1 + r.second[g][1]) / 2, j);
                s += c * m;
                ex += c * exact(i, j, 0);
            }
        hx::close(s, ex, 1e-9, "exact", p);
        // closed under the symmetries of the triangle: third barycentric coordinate as well
        double s3 = 0, e3 = 0;
        for (int i = 0; i <= p; ++i) {
            double c = hx::real(-1, 1, "d", p, i), m = 0;
            for (uint g = 0; g < r.second.size(); ++g) m += r.first[g] * std::pow(-(r.second[g][0] + r.second[g][1]) / 2, i);
            s3 += c * m;
            e3 += c * exact(0, 0, i);
        }
        hx::close(s3, e3, 1e-9, "exact3", p);
    }
#endif
}
