#pragma once
// Mesh level fixtures: small meshes with concrete x,y and (optionally) symbolic bed elevation.
#include "common.hpp"
#include "geometry/mesh_definitions.hpp"
#include "preprocessor/input_parameters.hpp"
#include "preprocessor/initialize_mesh.hpp"
#include "simulation/writer.hpp"
namespace hx {
struct MeshDef {
    std::vector<std::array<double, 3>> xyz;
    std::vector<std::array<uint, 3>> tri;
    // boundary type of the edge (a,b), default land
    std::map<std::pair<uint, uint>, uchar> bt;
};
inline MeshDef mesh2() {  // two triangles, skewed quadrilateral
    MeshDef m;
    m.xyz = {{{0, 0, 6}}, {{3, 0.5, 7}}, {{2.5, 2.75, 6.5}}, {{-0.5, 2, 8}}};
    m.tri = {{{0, 1, 2}}, {{2, 3, 0}}};
    return m;
}
inline MeshDef mesh4() {  // centre triangle with a neighbour on each side
    MeshDef m;
    m.xyz = {{{0, 0, 6}}, {{2, 0.25, 7}}, {{0.75, 1.75, 6.5}}, {{2.5, 2.25, 8}}, {{-1.5, 1.5, 7.5}}, {{1.25, -1.75, 5.5}}};
    m.tri = {{{0, 1, 2}}, {{1, 3, 2}}, {{2, 4, 0}}, {{5, 1, 0}}};
    return m;
}
// an edge of element e opposite to local node i joins local nodes i+1, i+2
inline void fill(MeshMetaData& md, const MeshDef& m) {
    md.mesh_name = "m";
    for (uint i = 0; i < m.xyz.size(); ++i) {
        md.nodes[i].coordinates[0] = m.xyz[i][0];
        md.nodes[i].coordinates[1] = m.xyz[i][1];
        md.nodes[i].coordinates[2] = m.xyz[i][2];
    }
    std::map<std::pair<uint, uint>, uint> own;
    for (uint e = 0; e < m.tri.size(); ++e)
        for (uint i = 0; i < 3; ++i) own[{m.tri[e][(i + 1) % 3], m.tri[e][(i + 2) % 3]}] = e;
    for (uint e = 0; e < m.tri.size(); ++e) {
        ElementMetaData em(3);
        for (uint i = 0; i < 3; ++i) {
            em.node_ID[i]  = m.tri[e][i];
            uint a         = m.tri[e][(i + 1) % 3], b = m.tri[e][(i + 2) % 3];
            auto it        = own.find({b, a});
            auto t         = m.bt.find({a, b});
            em.neighbor_ID[i]   = it != own.end() ? it->second : DEFAULT_ID;
            em.boundary_type[i] = t != m.bt.end() ? t->second : (it != own.end() ? (uchar)SWE::BoundaryTypes::internal : (uchar)SWE::BoundaryTypes::land);
        }
        md.elements[e] = em;
    }
}
inline StepperInput stepper_input(uint nstages, uint order, double dt) {
    StepperInput s;
    s.nstages       = nstages;
    s.order         = order;
    s.dt            = dt;
    s.ramp_duration = 0.0;
    return s;
}
template <typename Problem>
struct Sim {
    InputParameters<typename Problem::ProblemInputType> input;
    typename Problem::ProblemWriterType writer{WriterInput()};
    typename Problem::ProblemDiscretizationType disc;
    typename Problem::ProblemGlobalDataType global;
    typename Problem::ProblemStepperType stepper;
    Sim(uint p, const StepperInput& s) {
        input.polynomial_order = p;
        input.stepper_input    = s;
        stepper                = typename Problem::ProblemStepperType(s);
        disc.mesh              = typename Problem::ProblemMeshType(p);
    }
    void init() {
        disc.initialize(input, writer);
        Problem::preprocessor_serial(disc, global, stepper, input.problem_input);
    }
    template <typename F>
    void each(F f) {
        disc.mesh.CallForEachElement(f);
    }
};
// symbolic modal state: mean in [lo,hi], higher modes within +-amp
template <typename Elt>
void sym_state(Elt& e, uint stage, double zlo, double zhi, double za, double qm, double qa) {
    auto& q = e.data.state[stage].q;
    for (uint d = 0; d < e.data.get_ndof(); ++d) {
        q(0, d) = d ? real(-za, za, "ze", e.GetID(), d) : real(zlo, zhi, "ze", e.GetID(), d);
        q(1, d) = d ? real(-qa, qa, "qx", e.GetID(), d) : real(-qm, qm, "qx", e.GetID(), d);
        q(2, d) = d ? real(-qa, qa, "qy", e.GetID(), d) : real(-qm, qm, "qy", e.GetID(), d);
    }
}
// integral of variable var over the element
template <typename Elt, typename V>
double integral(Elt& e, const V& coef_row) {
    DynRowVector<double> g = e.ComputeUgp(coef_row);
    return e.Integration(g);
}
}
