// What preprocessing puts on the mesh: projected nodes, projection factor, bed, initial state; and the error norm.
#define true_q repo_true_q
#include "problem/SWE/swe_definitions.hpp"
#include "problem/SWE/problem_function_files/swe_true_solution_functions.hpp"
#undef true_q
namespace SWE { StatVector<double, SWE::n_variables> true_q(const double t, const Point<2>& pt); }
#include "swe.hpp"
using namespace SWE;
using Prob = SWE::DISC::Problem;
static double coef[3][4], truth[3][4];
static StatVector<double, 3> field(const double (*c)[4], double t, const Point<2>& p) {
    StatVector<double, 3> r{0.0, 0.0, 0.0};
    for (int v = 0; v < 3; ++v) r[v] = c[v][0] + c[v][1] * p[0] + c[v][2] * p[1] + c[v][3] * t;
    return r;
}
namespace SWE {
StatVector<double, 3> ic_q(const double t, const Point<2>& p) { return field(coef, t, p); }
StatVector<double, 3> source_q(const double, const Point<2>&) { return StatVector<double, 3>{0.0, 0.0, 0.0}; }
StatVector<double, 3> true_q(const double t, const Point<2>& p) { return field(truth, t, p); }
}
// values of the linear function given at the vertices of element e (of the mesh as it is now), at the points of the rule
struct Plane {
    double a, b, c;
    Plane(const hx::MeshDef& m, uint e, const std::vector<double>& at_node) {
        auto &p = m.xyz[m.tri[e][0]], &q = m.xyz[m.tri[e][1]], &r = m.xyz[m.tri[e][2]];
        double u = at_node[m.tri[e][0]], v = at_node[m.tri[e][1]] - u, w = at_node[m.tri[e][2]] - u;
        double x1 = q[0] - p[0], y1 = q[1] - p[1], x2 = r[0] - p[0], y2 = r[1] - p[1], d = x1 * y2 - x2 * y1;
        b = (v * y2 - w * y1) / d; c = (w * x1 - v * x2) / d; a = u - b * p[0] - c * p[1];
    }
    double operator()(double x, double y) const { return a + b * x + c * y; }
};
static const auto place = [](Point<2>& p) { StatVector<double, 2> r; r[0] = p[0]; r[1] = p[1]; return r; };

// the cut edges of a submesh, as a communicator would describe them
struct Cut {
    struct RankBoundaryType {
        RankBoundaryMetaData db_data;
        std::vector<std::vector<double>> send_buffer, receive_buffer;
    } rank;
    uint GetRankBoundaryNumber() const { return 1; }
    RankBoundaryType& GetRankBoundary(uint) { return rank; }
};

extern "C" void sx_harness() {
    sx_option("near", 1);
    auto def = hx::MESHN();
    if (hx::param("NODES")) {  // longitude and latitude to the plane
        InputParameters<Prob::ProblemInputType> in;
        auto& sp = in.problem_input.spherical_projection;
        bool sph = sx_choice("coordinates", 2);
        sp.type = sx_choice("factor", 2) ? SphericalProjectionType::Enable : SphericalProjectionType::None;
        in.mesh_input.mesh_coordinate_sys = sph ? CoordinateSystem::spherical : CoordinateSystem::cartesian;
        sp.R = hx::real(1, 10, "R"); sp.longitude_o = hx::real(-180, 180, "lon0"); sp.latitude_o = hx::real(-80, 80, "lat0");
        double c[3][3];
        for (int i = 0; i < 3; ++i) {
            c[i][0] = hx::real(-180, 180, "lon", i); c[i][1] = hx::real(-80, 80, "lat", i); c[i][2] = hx::real(-100, 100, "z", i);
            for (int k = 0; k < 3; ++k) in.mesh_input.mesh_data.nodes[3 * i + 1].coordinates[k] = c[i][k];
        }
        std::streambuf* kerr = std::cerr.rdbuf(nullptr);
        Prob::preprocess_mesh_data(in);
        std::cerr.rdbuf(kerr);
        const double deg = 0.017453292519943295;
        for (int i = 0; i < 3; ++i) {
            auto& p = in.mesh_input.mesh_data.nodes.at(3 * i + 1).coordinates;
            hx::close(p[0], sph ? sp.R * std::cos(sp.latitude_o * deg) * (c[i][0] - sp.longitude_o) * deg : c[i][0], 1e-9, "node.x", i);
            hx::close(p[1], sph ? sp.R * c[i][1] * deg : c[i][1], 1e-9, "node.y", i);
            hx::close(p[2], c[i][2], 0, "node.z", i);
        }
        hx::ok(in.mesh_input.mesh_data.nodes.size() == 3, "nodes.kept");
        return;
    }
    hx::Sim<Prob> s(PORD, hx::stepper_input(2, 2, 0.125));
    auto& pi = s.input.problem_input;
    bool proj = sx_choice("projection", 2);
    double R = 1, lat0 = 0;
    if (proj) {
        pi.spherical_projection.type = SphericalProjectionType::Enable;
        pi.spherical_projection.R = R = sx_choice("radius", 2) ? 8 : 50;
        pi.spherical_projection.latitude_o = lat0 = hx::real(-60, 60, "lat0");
    }
    std::vector<double> bed;
    for (uint i = 0; i < def.xyz.size(); ++i) bed.push_back(def.xyz[i][2] = hx::real(1, 10, "bed", i));
    for (int v = 0; v < 3; ++v) for (int k = 0; k < 4; ++k) coef[v][k] = hx::real(-1, 1, "ic", v, k), truth[v][k] = hx::real(-1, 1, "true", v, k);
    bool fn = sx_choice("initial", 2);
    pi.initial_conditions.type = fn ? InitialConditionsType::Function : InitialConditionsType::Constant;
    if (!fn) {
        pi.initial_conditions.ze_initial = coef[0][0]; pi.initial_conditions.qx_initial = coef[1][0]; pi.initial_conditions.qy_initial = coef[2][0];
        for (int v = 0; v < 3; ++v) coef[v][1] = coef[v][2] = 0;
    }
    hx::fill(s.input.mesh_input.mesh_data, def);
    Cut cut;
    if (sx_choice("cut", 2)) {  // every inner edge belongs to another submesh on the other side
        auto& rb = cut.rank.db_data;
        rb.locality_in = rb.submesh_in = rb.locality_ex = 0; rb.submesh_ex = 1;
        for (auto& e : s.input.mesh_input.mesh_data.elements)
            for (uint i = 0; i < 3; ++i)
                if (is_internal(e.second.boundary_type[i])) {
                    e.second.boundary_type[i] = distributed(e.second.boundary_type[i]);
                    rb.elements_in.push_back(e.first); rb.bound_ids_in.push_back(i);
                    rb.elements_ex.push_back(e.second.neighbor_ID[i]); rb.bound_ids_ex.push_back(0);
                    rb.p.push_back(PORD);
                }
        s.disc.initialize(s.input, cut, s.writer);
        Prob::preprocessor_serial(s.disc, s.global, s.stepper, pi);
    } else s.init();
    auto factor = [&](double y) { return proj ? std::cos(lat0 * PI / 180.0) / std::cos(y / R) : 1.0; };
    auto edge = [&](uint e, auto& aux, const auto& pos, const char* side) {
        Plane b(def, e, bed);
        for (uint gp = 0; gp < columns(aux); ++gp) {
            hx::close(aux(Auxiliaries::sp, gp), factor(pos(1, gp)), 1e-7, side, e, gp, 0);
            hx::close(aux(Auxiliaries::bath, gp), b(pos(0, gp), pos(1, gp)), 1e-8, side, e, gp, 1);
        }
    };
    uint edges = 0;
    s.disc.mesh.CallForEachInterface([&](auto& f) {
        uint e[2];
        int k = 0;  // elements by the data they carry
        s.each([&](auto& el) { if (&el.data == &f.data_in) e[0] = el.GetID(), ++k; if (&el.data == &f.data_ex) e[1] = el.GetID(), ++k; });
        hx::ok(k == 2, "interface.elements");
        edge(e[0], f.data_in.boundary[f.bound_id_in].aux_at_gp, f.ComputeFgpIN(place), "edge.in");
        edge(e[1], f.data_ex.boundary[f.bound_id_ex].aux_at_gp, f.ComputeFgpEX(place), "edge.ex");
        edges += 2;
    });
    s.disc.mesh.CallForEachBoundary([&](auto& f) {
        s.each([&](auto& el) { if (&el.data == &f.data) edge(el.GetID(), f.data.boundary[f.bound_id].aux_at_gp, f.ComputeFgp(place), "edge.bd"); });
        ++edges;
    });
    s.disc.mesh.CallForEachDistributedBoundary([&](auto& f) {
        s.each([&](auto& el) { if (&el.data == &f.data) edge(el.GetID(), f.data.boundary[f.bound_id].aux_at_gp, f.ComputeFgp(place), "edge.cut"); });
        ++edges;
    });
    hx::ok(edges == 3 * def.tri.size(), "edges.all");
    double err = 0;
    s.each([&](auto& e) {
        uint id = e.GetID();
        Plane b(def, id, bed);
        auto pos = e.ComputeFgp(place);
        auto q   = e.ComputeUgp(e.data.state[0].q);
        auto& in = e.data.internal;
        for (uint gp = 0; gp < e.data.get_ngp_internal(); ++gp) {
            hx::close(in.aux_at_gp(Auxiliaries::sp, gp), factor(pos(1, gp)), 1e-7, "inside.sp", id, gp);
            hx::close(in.aux_at_gp(Auxiliaries::bath, gp), b(pos(0, gp), pos(1, gp)), 1e-8, "inside.bed", id, gp);
            hx::close(in.db_at_gp(0, gp), b.b, 1e-8, "inside.slope", id, gp, 0);
            hx::close(in.db_at_gp(1, gp), b.c, 1e-8, "inside.slope", id, gp, 1);
            for (int v = 0; v < 3; ++v) hx::close(q(v, gp), coef[v][0] + coef[v][1] * pos(0, gp) + coef[v][2] * pos(1, gp), 1e-8, "initial", id, v, gp);
        }
    });
    // error of the initial state against a solution that has moved on for two steps
    for (int i = 0; i < 4; ++i) ++s.stepper;
    double t = 0.25;
    s.each([&](auto& e) {
        uint id = e.GetID();
        double d[3], want = 0;
        auto& m = def.tri[id];
        double area = ((def.xyz[m[1]][0] - def.xyz[m[0]][0]) * (def.xyz[m[2]][1] - def.xyz[m[0]][1]) - (def.xyz[m[2]][0] - def.xyz[m[0]][0]) * (def.xyz[m[1]][1] - def.xyz[m[0]][1])) / 2;
        for (int v = 0; v < 3; ++v) {
            double sum = 0, sq = 0;
            for (int i = 0; i < 3; ++i) {
                auto& p = def.xyz[m[i]];
                d[i] = truth[v][0] - coef[v][0] + (truth[v][1] - coef[v][1]) * p[0] + (truth[v][2] - coef[v][2]) * p[1] + truth[v][3] * t;
                sum += d[i]; sq += d[i] * d[i];
            }
            want += area / 12 * (sum * sum + sq);
        }
        hx::close(compute_residual_L2(s.stepper, e), want, 1e-6, "error", id);
        (void)err;
    });
}
