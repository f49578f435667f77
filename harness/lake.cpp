// Water at rest stays at rest: level surface, no flow, any bed.
#include "swe.hpp"
using namespace SWE;
extern "C" void sx_harness() {
    auto def = hx::MESHN();
    for (uint i = 0; i < def.xyz.size(); ++i) def.xyz[i][2] = hx::real(2, 10, "bed", i);
    hx::Sim<DISC::Problem> s(PORD, hx::stepper_input(2, 2, 0.125));
#ifdef SPLO
    s.input.problem_input.spherical_projection.type = SphericalProjectionType::Enable;
    s.input.problem_input.spherical_projection.latitude_o = std::acos(SPLO) * 180 / PI;
    s.input.problem_input.spherical_projection.R = 6378200.0;
#endif
    double lvl = hx::real(-1, 3, "level");
    s.input.problem_input.initial_conditions.type = InitialConditionsType::Constant;
    s.input.problem_input.initial_conditions.ze_initial = lvl;
    s.input.problem_input.initial_conditions.qx_initial = 0;
    s.input.problem_input.initial_conditions.qy_initial = 0;
#ifdef WD
    PostProcessing::wetting_drying = true; PostProcessing::h_o = 0.1; PostProcessing::h_o_threshold = 1e-11;
#endif
#ifdef SL
    PostProcessing::slope_limiting = true; PostProcessing::M = 0; PostProcessing::nu = 1.5;
#endif
#ifdef OPEN
    def.bt[{0, 1}] = BoundaryTypes::tide; def.bt[{1, 2}] = BoundaryTypes::flow;
    TideBoundary tb; FlowBoundary fb;
    for (uint n = 0; n < 2; ++n) {
        TideNode t; t.frequency = {0}; t.forcing_fact = {1}; t.equilib_arg = {0}; t.amplitude = {lvl}; t.phase = {0};
        tb.tide_nodes[n] = t;
        FlowNode q; q.frequency = {0}; q.forcing_fact = {1}; q.equilib_arg = {0}; q.amplitude = {0}; q.phase = {0};
        fb.flow_nodes[n + 1] = q;
    }
    s.input.problem_input.tide_bc_data = {tb}; s.input.problem_input.flow_bc_data = {fb};
#endif
    hx::fill(s.input.mesh_input.mesh_data, def);
    s.init();
    Global::g = hx::real(1, 20, "g");
    DISC::Problem::stage_serial(s.disc, s.global, s.stepper);
    s.each([&](auto& e) {
        for (uint v = 0; v < 3; ++v)
            for (uint d = 0; d < e.data.get_ndof(); ++d) {
                hx::close(e.data.state[0].rhs(v, d), 0, 1e-6, "rate", e.GetID(), v, d);
                hx::close(e.data.state[1].q(v, d), d == 0 && v == 0 ? e.data.state[0].q(v, d) : 0.0, 1e-6, "state", e.GetID(), v, d);
            }
    });
}
