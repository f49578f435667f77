// Total water volume after one explicit stage: closed domain, every state, any set of dry elements.
#include "swe.hpp"
using namespace SWE;
using Prob = SWE::DISC::Problem;
extern "C" void sx_harness() {
    hx::Sim<Prob> s(PORD, hx::stepper_input(2, 2, 0.125));
    auto def = hx::MESHN();
    hx::fill(s.input.mesh_input.mesh_data, def);
    s.init();
    s.each([&](auto& e) { hx::sym_state(e, 0, -1, 1, 0.25, 8, 2); });
    int dry = hx::param("DRY") ? sx_choice("dry", 1 << def.tri.size()) : 0;
    s.each([&](auto& e) { e.data.wet_dry_state.wet = !(dry >> e.GetID() & 1); });
    double m0 = 0;
    s.each([&](auto& e) { m0 += hx::integral(e, row(e.data.state[0].q, 0)); });
    Prob::stage_serial(s.disc, s.global, s.stepper);
    double m1 = 0;
    s.each([&](auto& e) { m1 += hx::integral(e, row(e.data.state[1].q, 0)); });
    hx::close(m0, m1, 1e-6, "mass");
}
