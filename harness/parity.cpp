// A partitioned run equals the serial run: the real partitioner, input files, simulation drivers and
// communicator, with stand-ins for METIS (any partition) and MPI (any admissible message timing).
#undef IHDG_SUPPORT
#undef GN_SUPPORT
#define OWN_FUNCTIONS
#include <fstream>
#include <list>
#include <map>
#include <sstream>
#include <omp.h>
#include <mpi.h>
#include <metis.h>
#include <sys/stat.h>
#include <ucontext.h>
#include <unistd.h>
#include "swe.hpp"
#define SWE_TROUBLE_CHECK_HPP  // included a second time by the distributed limiter; its guard is misspelt
#include "communication/ompi_communicator.hpp"
#define private public
#include "simulation/serial/simulation.hpp"
#include "simulation/ompi/simulation_ompi_base.hpp"
#include "simulation/ompi/simulation_ompi.hpp"
#undef private
using Prob = SWE::DISC::Problem;
extern "C" int partitioner_main(int, char**);

// ---- ranks -------------------------------------------------------------------------------------
struct Rank {
    ucontext_t ctx;
    std::vector<char> stack;
    bool done = false;
    std::function<void()> body;
};
static std::vector<Rank> ranks;
static int cur;
static ucontext_t home;
static long progress;  // counts messages taken and ranks finished
static bool broken;
static void fail(const char* what) {
    hx::ok(0, what);
    broken = true;
}
static void entry() {
    try {
        ranks[cur].body();
    } catch (std::exception& e) {
        if (sx_is_native()) fprintf(stderr, "rank %d: %s\n", cur, e.what());
        fail("rank.exception");
    }
    ranks[cur].done = true;
    ++progress;
    swapcontext(&ranks[cur].ctx, &home);
}
static void pass() { swapcontext(&ranks[cur].ctx, &home); }
static void run_ranks(bool backwards) {
    for (auto& r : ranks) {
        r.stack.resize(1 << 21);
        getcontext(&r.ctx);
        r.ctx.uc_stack.ss_sp   = r.stack.data();
        r.ctx.uc_stack.ss_size = r.stack.size();
        r.ctx.uc_link          = &home;
        makecontext(&r.ctx, entry, 0);
        r.done = false;
    }
    for (;;) {
        long p   = progress;
        bool all = true;
        for (uint i = 0; i < ranks.size(); ++i) {
            cur = backwards ? ranks.size() - 1 - i : i;
            if (ranks[cur].done) continue;
            swapcontext(&home, &ranks[cur].ctx);
            if (broken) return;
            all = all && ranks[cur].done;
        }
        if (all) return;
        if (p == progress) return fail("rank.deadlock");
    }
}
// ---- messages ----------------------------------------------------------------------------------
struct Msg {
    std::vector<double> data;
    const double* src = nullptr;  // rendezvous: read when the receiver takes it
    bool taken        = false;
    int n;
};
struct Req {
    bool send, active = false;
    double* buf;
    int n, rank, peer, tag;
    std::shared_ptr<Msg> msg;
};
static std::vector<Req> reqs(1);
static std::map<std::array<int, 3>, std::list<std::shared_ptr<Msg>>> inbox;   // sent, no receive yet
static std::map<std::array<int, 3>, std::list<int>> posted;                   // receives, in order
static bool rendezvous;
static const double POISON = -1.0e7;
static int init(bool send, void* b, int n, MPI_Datatype d, int peer, int tag, MPI_Request* r) {
    Req q;
    q.send = send; q.buf = (double*)b; q.n = n; q.rank = cur; q.peer = peer; q.tag = tag;
    if (d != MPI_DOUBLE) fail("mpi.type");
    if (peer < 0 || peer >= (int)ranks.size()) fail("mpi.peer");
    reqs.push_back(q);
    *r = reqs.size() - 1;
    return 0;
}
int MPI_Comm_rank(MPI_Comm, int* r) { return *r = cur, 0; }
int MPI_Comm_size(MPI_Comm, int* n) { return *n = ranks.size(), 0; }
int MPI_Send_init(const void* b, int n, MPI_Datatype d, int peer, int tag, MPI_Comm, MPI_Request* r) { return init(true, (void*)b, n, d, peer, tag, r); }
int MPI_Recv_init(void* b, int n, MPI_Datatype d, int peer, int tag, MPI_Comm, MPI_Request* r) { return init(false, b, n, d, peer, tag, r); }
int MPI_Start(MPI_Request* r) { return MPI_Startall(1, r); }
int MPI_Wait(MPI_Request* r, MPI_Status* s) { return MPI_Waitall(1, r, s); }
int MPI_Startall(int n, MPI_Request* rr) {
    for (int i = 0; i < n; ++i) {
        if (rr[i] <= 0 || rr[i] >= (int)reqs.size() || reqs[rr[i]].active) return fail("mpi.start"), 0;
        Req& q   = reqs[rr[i]];
        q.active = true;
        if (q.send) {
            q.msg    = std::make_shared<Msg>();
            q.msg->n = q.n;
            if (rendezvous) q.msg->src = q.buf;
            else q.msg->data.assign(q.buf, q.buf + q.n);
            inbox[{q.rank, q.peer, q.tag}].push_back(q.msg);
        } else {
            for (int k = 0; k < q.n; ++k) q.buf[k] = POISON;
            posted[{q.peer, q.rank, q.tag}].push_back(rr[i]);
        }
    }
    return 0;
}
// receives match sends in order; a receive completes only when it is waited for
static bool complete(int id) {
    Req& q = reqs[id];
    if (q.send) return !rendezvous || q.msg->taken;
    auto& in  = inbox[{q.peer, q.rank, q.tag}];
    auto& out = posted[{q.peer, q.rank, q.tag}];
    while (out.size() && in.size()) {
        Req& r = reqs[out.front()];
        r.msg  = in.front();
        in.pop_front();
        out.pop_front();
    }
    if (!q.msg) return false;
    Msg& m = *q.msg;
    if (m.n > q.n) fail("mpi.truncated");
    for (int k = 0; k < std::min(q.n, m.n); ++k) q.buf[k] = m.src ? m.src[k] : m.data[k];
    m.taken = true;
    ++progress;
    return true;
}
int MPI_Waitall(int n, MPI_Request* rr, MPI_Status*) {
    for (int i = 0; i < n; ++i) {
        if (rr[i] <= 0 || rr[i] >= (int)reqs.size()) return fail("mpi.wait"), 0;
        if (!reqs[rr[i]].active) continue;
        while (!complete(rr[i])) {
            pass();
            if (broken) return 0;
        }
        reqs[rr[i]].active = false;
        reqs[rr[i]].msg.reset();
    }
    return 0;
}
int MPI_Abort(MPI_Comm, int) { return fail("mpi.abort"), 0; }
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm) { return 0; }
int MPI_Barrier(MPI_Comm) { return 0; }
// ---- partition ---------------------------------------------------------------------------------
static std::vector<int> part_of, node_of;
static int metis_calls;
int METIS_SetDefaultOptions(idx_t*) { return 1; }
int METIS_PartGraphKway(idx_t* nv, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, real_t*, real_t*, idx_t*, idx_t*, idx_t* part) {
    auto& v = metis_calls++ == 0 && part_of.size() > 0 && (size_t)*nv == part_of.size() ? part_of : node_of;
    for (int i = 0; i < *nv; ++i) part[i] = v[i];
    return 1;
}
// all maps of n things onto k
static std::vector<std::vector<int>> onto(int n, int k) {
    std::vector<std::vector<int>> out;
    int total = 1;
    for (int i = 0; i < n; ++i) total *= k;
    for (int c = 0; c < total; ++c) {
        std::vector<int> v(n);
        std::vector<bool> hit(k);
        for (int i = 0, x = c; i < n; ++i, x /= k) hit[v[i] = x % k] = true;
        if (std::find(hit.begin(), hit.end(), false) == hit.end()) out.push_back(v);
    }
    return out;
}
// ---- problem -----------------------------------------------------------------------------------
static hx::MeshDef def;
static double coef[8][3][3];  // element, variable, (1, x, y)
namespace SWE {
StatVector<double, SWE::n_variables> source_q(const double t, const Point<2>& p) {
    double x = p[0] / 64, y = p[1] / 64;
    return StatVector<double, SWE::n_variables>{0.125 + 0.25 * x, 0.5 * t - 0.125 * y + 0.25, 0.25 * t + 0.125 * x - 0.5 * y};
}
StatVector<double, SWE::n_variables> ic_q(const double, const Point<2>& p) {
    StatVector<double, SWE::n_variables> q{0., 0., 0.};
    for (uint e = 0; e < def.tri.size(); ++e) {
        bool in = true;
        for (int i = 0; i < 3; ++i) {
            auto &a = def.xyz[def.tri[e][i]], &b = def.xyz[def.tri[e][(i + 1) % 3]];
            in = in && (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]) >= -1e-9;
        }
        if (!in) continue;
        for (uint v = 0; v < 3; ++v) q[v] = coef[e][v][0] + coef[e][v][1] * (p[0] / 64) + coef[e][v][2] * (p[1] / 64);
        break;
    }
    return q;
}
}
struct Dir {
    std::string path;
    std::vector<std::string> names;
    Dir() {
        char t[] = "/tmp/sxparity.XXXXXX";
        path     = mkdtemp(t);
    }
    void drop() { if (!path.empty()) { int r = system(("rm -r -f -- " + path).c_str()); (void)r; } path.clear(); }
    ~Dir() { drop(); }
};
extern "C" void sx_harness() {
    sx_option("snap", 1e-13);
    def = hx::mesh4();
    for (auto& x : def.xyz) x[0] *= 64, x[1] *= 64;
    if (hx::param("OPEN")) {
        def.bt[{1, 3}] = SWE::BoundaryTypes::tide;
        def.bt[{2, 4}] = SWE::BoundaryTypes::flow;
    }
    double crest = 0, up = 1;
    if (hx::param("LEVEE")) {  // the edge between elements 0 and 1 is a levee whose sides have their own nodes
        sx_option("near", 1);
        def.xyz.push_back({{def.xyz[1][0] + 16, def.xyz[1][1] + 8, 7.25}});
        def.xyz.push_back({{def.xyz[2][0] + 16, def.xyz[2][1] + 8, 6.75}});
        def.tri[1] = {{6, 3, 7}};
        def.bt[{1, 2}] = def.bt[{7, 6}] = SWE::BoundaryTypes::levee;
        crest = std::array<double, 3>{{2, 0.25, -2}}[sx_choice("crest", 3)];
        up    = sx_choice("up", 2) ? -1 : 1;
        if (up < 0) crest -= 0.5;
    }
    int K = hx::param("K", 2), L = hx::param("L", 1), R = hx::param("R", 1), nst = hx::param("ST", 1);
    int n = def.tri.size();
    auto parts = onto(n, K);
    if (hx::param("FEW")) parts = {{0, 1, 0, 1}, {1, 0, 0, 1}, {1, 0, 1, 1}};
    part_of    = parts[sx_choice("partition", parts.size())];
    if (L > 1) {
        auto nodes = onto(K, L);
        if (hx::param("FEW")) nodes.resize(1);
        node_of    = nodes[sx_choice("locality", nodes.size())];
    }
    rendezvous = !hx::param("EAGER") && sx_choice("rendezvous", 2);
    bool back  = L * R > 1 && !hx::param("EAGER") && sx_choice("backwards", 2);
    std::unique_ptr<Serial::Simulation<Prob>> ser;
    std::vector<std::unique_ptr<OMPISimulation<Prob>>> sims(L * R);
    ranks.resize(L * R);
    bool phys    = hx::param("PHYS");  // longitudes and latitudes, friction, a user source
    bool manning = phys && sx_choice("friction", 2);
    Dir d;
    {
        MeshMetaData md;
        hx::fill(md, def);
        if (hx::param("LEVEE")) md.elements[0].neighbor_ID[0] = 1, md.elements[1].neighbor_ID[1] = 0;
        if (phys) for (auto& x : md.nodes) x.second.coordinates[0] /= 64, x.second.coordinates[1] /= 64;
        md.write_to(d.path + "/m.meta");
        std::ofstream(d.path + "/m.bcis")
            << "1 2\n1\n0.25 1 0.5\n1 0.5 0.25\n3 0.25 0.5\n2 2\n1\n0.5 1 0.25\n2 -0.5 0.5\n4 -0.25 0.75\n";
        if (hx::param("LEVEE"))
            std::ofstream(d.path + "/m.bcis") << (int)SWE::BoundaryTypes::levee << " 2\n" << "1 6 " << crest << " 0.5 0.75\n7 2 " << crest - 0.0625 << " 0.625 0.875\n";
        std::ofstream in(d.path + "/in.15");
        in << "polynomial_order: " << PORD << "\nmesh:\n  format: Meta\n  file_name: " << d.path << "/m.meta\n  coordinate_system: " << (phys ? "spherical" : "cartesian") << "\n"
           << "timestepping:\n  start_time: 01-01-2000 00:00:00\n  end_time: 01-01-2000 00:00:01\n  dt: 1\n  order: " << nst << "\n  nstages: " << nst
           << "\nproblem:\n  name: " << (std::string(Prob::n_communications > 3 ? "ehdg" : "rkdg")) << "_swe\n  gravity: 9.8125\n  density_air: 1.25\n  density_water: 1000\n  initial_conditions:\n    type: Function\n";
        if (hx::param("WD")) in << "  wetting_drying:\n    h_o: 0.125\n";
        if (hx::param("SL")) in << "  slope_limiting:\n    type: Cockburn-Shu\n    M: 0\n    nu: 1.5\n";
        if (phys) {
            in.precision(17);
            in << "  spherical_projection:\n    longitude_o: 0\n    latitude_o: 0\n    R: " << 64 * 180 / PI << "\n  function_source: Enable\n  bottom_friction:\n    coefficient: 0.0625\n    type: ";
            if (manning) {
                in << "Manning\n    input_file: " << d.path << "/manning\n";
                std::ofstream mf(d.path + "/manning");
                for (uint i = 0; i < def.xyz.size(); ++i) mf << i << ' ' << 0.25 + 0.0625 * i << '\n';
            } else in << "Chezy\n";
        }
        in.close();
        std::string a[] = {"partitioner", d.path + "/in.15", std::to_string(K), std::to_string(L), std::to_string(R)};
        char* av[]      = {&a[0][0], &a[1][0], &a[2][0], &a[3][0], &a[4][0]};
        std::streambuf* keep = std::cout.rdbuf(nullptr);
        std::streambuf* kerr = std::cerr.rdbuf(nullptr);
        try {
            partitioner_main(5, av);
            ser.reset(new Serial::Simulation<Prob>(d.path + "/in.15"));
            for (cur = 0; cur < L * R; ++cur) sims[cur].reset(new OMPISimulation<Prob>(d.path + "/in_parallelized.15"));
        } catch (std::exception& e) {
            std::cout.rdbuf(keep); std::cerr.rdbuf(kerr);
            if (sx_is_native()) fprintf(stderr, "setup: %s\n", e.what());
            return fail("setup.exception");
        }
        std::cout.rdbuf(keep); std::cerr.rdbuf(kerr);
        if (!manning) d.drop();
    }
    // state: different in every element, moving across every edge; `full`: every coefficient has its own symbol;
    // `still`: the level is concrete, so the limiter's wave speeds are polynomials of one symbol
    bool full = hx::param("FULL");
    double amp = hx::param("AMP", 0.015625), tilt = hx::param("TILT"), step = up * hx::param("STEP", 0.5);
    auto draw = [&](int st) {
        double s = 0, t = 0;
        if (!full) s = hx::real(-1, 1, "a", st), t = hx::param("ONE") ? 0.5 : hx::real(-1, 1, "b", st);
        bool plane = hx::param("PLANE");  // elements close to one plane, too steep or too flat
        for (int e = 0; e < n; ++e)
            for (int v = 0; v < 3; ++v) {
                double xc[2] = {}, sl[2] = {v ? 0.5 - 0.25 * v : 0.25, v ? 0.125 * v : -0.375};
                for (int k = 0; k < 2; ++k)
                    for (int i = 0; i < 3; ++i) xc[k] += def.xyz[def.tri[e][i]][k] / 3 / 64;
                double base = v == 0 ? step * e : (v == 1 ? 3.0 : 2.0) + 0.5 * step * e;
                double steep = plane ? (e + v) % 2 ? 2.25 : 0.75 : 0;
                if (plane) base = (v ? 4.0 - v : 0) + (1 - steep) * (sl[0] * xc[0] + sl[1] * xc[1]);
                for (int k = 0; k < 3; ++k) {
                    double c      = full ? hx::real(-1, 1, "c", st, e, v, k) : (k ? t : s) * (1 + (e + (1 + k) * v + k * e) % 3) * ((e + v + k) % 2 ? 1 : -1);
                    coef[e][v][k] = (k ? tilt * (1 + (e + v + k) % 3) * ((e * k + v) % 2 ? 1 : -1) + steep * sl[(k + 1) % 2] : base) + (v || !hx::param("STILL") ? amp : 0) * c;
                }
            }
    };
    auto each = [&](auto f) {
        for (auto& sim : sims)
            for (auto& u : sim->sim_units) u->discretization.mesh.CallForEachElement(f);
    };
    auto both = [&](auto f) {
        each(f);
        ser->discretization.mesh.CallForEachElement(f);
    };
    auto compare = [&](uint stage) {
        std::map<uint, HybMatrix<double, 3>> q;
        ser->discretization.mesh.CallForEachElement([&](auto& e) { q[e.GetID()] = e.data.state[stage].q; });
        int seen = 0;
        each([&](auto& e) {
            ++seen;
            for (uint v = 0; v < 3; ++v)
                for (uint d = 0; d < e.data.get_ndof(); ++d) hx::close(e.data.state[stage].q(v, d), q.at(e.GetID())(v, d), 1e-9, "state", e.GetID(), v, d);
        });
        hx::ok(seen == n, "elements.once");
    };
    auto on_ranks = [&](auto f) {
        for (int r = 0; r < L * R; ++r) ranks[r].body = [&sims, f, r] { f(*sims[r]); };
        run_ranks(back);
    };
    draw(0);
    if (hx::param("PHASES") || hx::param("LIM")) {  // stage by stage, each from a state of its own
        Prob::preprocessor_serial(ser->discretization, ser->global_data, ser->stepper, ser->problem_input);
        on_ranks([](auto& s) { Prob::preprocessor_ompi(s.sim_units, s.global_data, s.stepper, 0, s.sim_units.size()); });
        if (broken) return;
        int dry = hx::param("WET") ? -1 : (int)sx_choice("dry", n + 1) - 1;
        for (int st = 0; st < nst; ++st) {
            if (st) draw(st);
            both([&](auto& e) {
                e.data.state[st].q = e.L2ProjectionF([](const Point<2>& p) { return SWE::ic_q(0, p); });
                e.data.wet_dry_state.wet = (int)e.GetID() != dry;
            });
            if (hx::param("LIM")) {
                SWE::CS_slope_limiter_serial(ser->stepper, ser->discretization);
                on_ranks([](auto& s) { SWE::CS_slope_limiter_ompi(s.stepper, s.sim_units, 0, s.sim_units.size(), SWE::DISC::CommTypes::baryctr_state); });
            } else {
                Prob::stage_serial(ser->discretization, ser->global_data, ser->stepper);
                on_ranks([](auto& s) { Prob::stage_ompi(s.sim_units, s.global_data, s.stepper, 0, s.sim_units.size()); });
            }
            if (broken) return;
            compare(ser->stepper.GetStage());
        }
    } else {
        ser->Run();
        on_ranks([](auto& s) { s.Run(); });
        if (broken) return;
        compare(0);
    }
    for (auto& i : inbox)
        if (i.second.size()) fail("mpi.unreceived");
    for (auto& r : reqs)
        if (r.active) fail("mpi.pending");
}
