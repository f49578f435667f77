// Wetting and drying of one element: water volume, positivity, dry elements stand still.
#include "swe.hpp"
using namespace SWE;
extern "C" void sx_harness() {
    auto def = hx::mesh2();
    int rot = sx_choice("bed", 3);
    for (int i = 0; i < 3; ++i) def.xyz[i][2] = 6 + 0.5 * ((i + rot) % 3);
    hx::Sim<DISC::Problem> s(PORD, hx::stepper_input(2, 2, 0.125));
    double ho = 0.125, thr = 0.015625;
    PostProcessing::wetting_drying = true;
    PostProcessing::h_o = ho; PostProcessing::h_o_threshold = thr;
    hx::fill(s.input.mesh_input.mesh_data, def);
#ifdef INIT
    // initial wet/dry classification of a level surface
    double lvl = hx::real(-8, -5, "level"), q0x = hx::real(-2, 2, "qx"), q0y = hx::real(-2, 2, "qy");
    auto& ic = s.input.problem_input.initial_conditions;
    ic.type = InitialConditionsType::Constant; ic.ze_initial = lvl; ic.qx_initial = q0x; ic.qy_initial = q0y;
    s.init();
    s.each([&](auto& e) {
        double b[3];
        int up = 0, down = 0;
        HybMatrix<double, 3> out = e.ComputeLinearUvrtx(e.ProjectBasisToLinear(e.data.state[0].q));
        for (uint v = 0; v < 3; ++v) {
            b[v] = def.xyz[def.tri[e.GetID()][v]][2];
            up += lvl + b[v] > ho + thr + 1e-6; down += lvl + b[v] < ho + thr - 1e-6;
        }
        if (up + down < 3) return;
        bool wet = e.data.wet_dry_state.wet;
        hx::ok(wet == (up == 3), "init.flag", e.GetID());
        for (uint v = 0; v < 3; ++v) {
            hx::close(out(0, v), up == 3 || lvl + b[v] > ho + thr ? lvl : ho - b[v], 1e-6, "init.level", e.GetID(), v);
            hx::close(out(1, v), up == 3 ? q0x : 0.0, 1e-6, "init.qx", e.GetID(), v);
            hx::close(out(2, v), up == 3 ? q0y : 0.0, 1e-6, "init.qy", e.GetID(), v);
        }
    });
    return;
#endif
    s.init();
    s.each([&](auto& e) {
        if (e.GetID() != 0) return;
        auto& st = e.data.state[0];
        auto& wd = e.data.wet_dry_state;
        double wet0 = sx_choice("wet", 2);
        wd.wet = wet0;
        // vertex depths (linear part) and vertex discharges; higher modes on top
        HybMatrix<double, 3> lin(3, 3);
        double H[3], b[3];
        for (uint v = 0; v < 3; ++v) {
            H[v] = hx::real(-0.25, 1, "depth", v);
            b[v] = def.xyz[def.tri[0][v]][2];
            lin(0, v) = H[v] - b[v];
            lin(1, v) = hx::real(-1, 1, "qx", v);
            lin(2, v) = hx::real(-1, 1, "qy", v);
        }
        st.q = e.ProjectLinearToBasis(lin);
        for (uint d = 3; d < e.data.get_ndof(); ++d)
            for (uint v = 0; v < 3; ++v) st.q(v, d) = hx::real(-0.25, 0.25, "mode", v, d);
        for (uint v = 0; v < 3; ++v)
            for (uint d = 0; d < e.data.get_ndof(); ++d) st.rhs(v, d) = 1;
        auto q0 = st.q;
        double m0[3], m1[3];
        for (uint v = 0; v < 3; ++v) m0[v] = hx::integral(e, row(st.q, v));
        // away from the switching values themselves (rounding decides there)
        const double eps = 1e-6;
        auto off = [&](const char* nm, double x, double at) {
            int up = sx_choice(nm, 2);
            if (up) sx_assume_ge(x, at + eps); else sx_assume_ge(at - eps, x);
            return up;
        };
        int ndry = 0;
        for (uint v = 0; v < 3; ++v) ndry += !off(hx::nm("film", v).c_str(), H[v], ho + thr);
        double havg = (H[0] + H[1] + H[2]) / 3, area = 0, bmin = b[0];
        { DynRowVector<double> one(e.data.get_ngp_internal()); for (uint g = 0; g < columns(one); ++g) one[g] = 1; area = e.Integration(one); }
        bool enough = ndry == 0 || (ndry < 3 && off("avg.film", havg, ho + thr)), empty = !enough && !off("avg.thr", havg, thr);
        for (uint v = 1; v < 3; ++v) bmin = std::min(bmin, b[v]);
        wetting_drying_kernel(s.stepper, e);
        for (uint v = 0; v < 3; ++v) m1[v] = hx::integral(e, row(st.q, v));
        HybMatrix<double, 3> out = e.ComputeLinearUvrtx(e.ProjectBasisToLinear(st.q));
        // water volume is kept, except that a completely dry element is topped up to the threshold

        hx::close(m1[0], m0[0] + (empty ? (thr - havg) * area : 0.0), 1e-6, "volume");
        hx::ok(wd.went_completely_dry == empty, "completely_dry");
        int wet = wd.wet;
        if (ndry == 0 && wet0) {  // fully wet: untouched
            for (uint v = 0; v < 3; ++v)
                for (uint d = 0; d < e.data.get_ndof(); ++d) hx::close(st.q(v, d), q0(v, d), 0, "untouched", v, d);
            hx::ok(wet, "stays.wet");
        } else {
            if (ndry == 3) hx::ok(!wet, "all.dry");
            // no negative depth is left, and a wet element has at least the film everywhere if there is enough water
            for (uint v = 0; v < 3; ++v) {
                double h = out(0, v) + b[v];
                hx::ge(h, enough ? ho : (empty ? thr : havg), 1e-6, "depth.positive", v);
                // dry vertices and dry elements carry no discharge
                if (!wet) { hx::close(out(1, v), 0, 1e-6, "dry.qx", v); hx::close(out(2, v), 0, 1e-6, "dry.qy", v); }
            }
            if (!wet)
                for (uint v = 0; v < 3; ++v)
                    for (uint d = 0; d < e.data.get_ndof(); ++d) hx::close(st.rhs(v, d), 0, 0, "dry.rate", v, d);
            else {
                // enough water: the discharge is handed to the wet vertices, none is lost
                for (uint v = 1; v < 3; ++v) hx::close(m1[v], enough ? m0[v] : 0.0, 1e-6, "momentum", v);
            }
            // the element is wet exactly if its deepest vertex rises above the highest bed by the film
            // (the deepest vertex before levelling where there is too little water to keep a slope)
            if (ndry < 3) {
                int up = 0, down = 0;
                double hm = -10;
                for (uint v = 0; v < 3; ++v) hm = std::max(hm, enough ? out(0, v) + b[v] : H[v]);
                for (uint v = 0; v < 3; ++v)
                    if ((enough ? out(0, v) + b[v] : H[v]) > hm - eps) {
                        up += out(0, v) > ho - bmin - eps;
                        down += out(0, v) < ho - bmin + eps;
                    }
                if (!down) hx::ok(wet, "wet.flag");
                if (!up) hx::ok(!wet, "dry.flag");
            }
        }
    });
}
