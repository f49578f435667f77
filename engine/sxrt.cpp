// Symbolic runtime.  A symbolic double is a quiet NaN with tag 0xFFFA and a value id.
// Every value is kept as a polynomial with exact rational coefficients over "atoms":
// inputs, 1/p, sqrt(p), p^(1/n), |p|, if-then-else, uninterpreted math functions, definitions.
// Branches on symbolic comparisons are decided by an SMT solver and fork the process.
#include "sx.h"
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <gmpxx.h>
#include <map>
#include <semaphore.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

using std::map;
using std::pair;
using std::string;
using std::vector;
typedef int Id;
typedef mpq_class Q;

//------------------------------------------------------------------------------------------------
// options
static double opt_deadline     = 600;   // seconds for the whole exploration
static double opt_qtime        = 10;    // seconds per hard query
static double opt_btime        = 4;     // seconds per branch query
static long opt_maxpaths       = 20000;
static size_t opt_maxterms     = 3000;
static bool opt_near = false;
static double opt_snap         = 0;
static bool opt_ite            = true;   // min/max/select become if-then-else terms
static bool opt_abs_fork       = false;  // fork on |x|
static bool opt_abort_ok       = false;
static bool opt_sqrt_nonneg    = false;  // assume sqrt arguments >= 0 (stated contract)
static string out_dir          = ".";
static string solver_bin       = "z3-new";
static bool opt_verbose        = false;
static double t0;
static double now() {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + 1e-9 * ts.tv_nsec;
}

struct Shared {
    sem_t tokens, lock;
    volatile long paths, forks, decisions, q_branch, q_assert, q_lin, q_nl, q_unknown, ops, truncated;
    volatile double solver_s;
    volatile long next_path;
};
static Shared* sh;

//------------------------------------------------------------------------------------------------
// monomials
typedef vector<pair<int, int>> Mono;  // (atom, exponent), sorted by atom
struct MonoHash {
    size_t operator()(const Mono& m) const {
        size_t h = 1469598103934665603ull;
        for (auto& p : m) {
            h = (h ^ (size_t)p.first) * 1099511628211ull;
            h = (h ^ (size_t)(p.second + 77)) * 1099511628211ull;
        }
        return h;
    }
};
static vector<Mono> monos;
static std::unordered_map<Mono, int, MonoHash> mono_ix;
static int mono_id(const Mono& m) {
    auto it = mono_ix.find(m);
    if (it != mono_ix.end()) return it->second;
    int id = monos.size();
    monos.push_back(m);
    mono_ix.emplace(m, id);
    return id;
}

typedef vector<pair<int, Q>> Poly;  // sorted by mono id, no zero coefficients
static vector<Poly> polys;
static std::unordered_multimap<size_t, Id> poly_ix;
static size_t qhash(const Q& q) {
    size_t h = mpz_get_ui(q.get_num_mpz_t()) * 31 + mpz_get_ui(q.get_den_mpz_t());
    return h ^ (size_t)(mpq_sgn(q.get_mpq_t()) + 1) << 40;
}
static Id poly_id(Poly&& p) {
    size_t h = p.size();
    for (auto& t : p) h = (h * 1099511628211ull) ^ (size_t)t.first ^ qhash(t.second);
    auto r = poly_ix.equal_range(h);
    for (auto it = r.first; it != r.second; ++it)
        if (polys[it->second] == p) return it->second;
    Id id = polys.size();
    polys.push_back(std::move(p));
    poly_ix.emplace(h, id);
    return id;
}
static Id cst(const Q& q) {
    Poly p;
    if (q != 0) p.push_back({0, q});
    return poly_id(std::move(p));
}
static bool is_const(Id a, Q* v = nullptr) {
    const Poly& p = polys[a];
    if (p.empty()) {
        if (v) *v = 0;
        return true;
    }
    if (p.size() == 1 && p[0].first == 0) {
        if (v) *v = p[0].second;
        return true;
    }
    return false;
}

//------------------------------------------------------------------------------------------------
// atoms
enum Kind { VAR, INV, SQRT, ROOT, ABS, ITE, FN, DEF, DELTA };
struct Iv {
    double lo = -INFINITY, hi = INFINITY;
};
struct Atom {
    Kind k;
    string name;
    vector<Id> a;  // INV/SQRT/ROOT/ABS/DEF: 1 arg; ITE: cond poly, then, else ; FN args
    int n = 0;     // ROOT degree; ITE: mask of sign of cond selecting 'then'
    Iv iv;
    Id sq = -1;    // VAR: its square, when an assumption fixes it (rewriting rule)
};
static vector<Atom> atoms;
static map<std::tuple<int, string, vector<Id>, int>, int> atom_ix;

static Iv iv_of(Id a);
static Iv widen(double lo, double hi) {
    Iv r;
    if (std::isnan(lo)) lo = -INFINITY;
    if (std::isnan(hi)) hi = INFINITY;
    r.lo = std::isinf(lo) ? lo : lo - std::fabs(lo) * 1e-14 - 1e-300;
    r.hi = std::isinf(hi) ? hi : hi + std::fabs(hi) * 1e-14 + 1e-300;
    if (lo == 0) r.lo = 0;
    if (hi == 0) r.hi = 0;
    return r;
}
static double m0(double a, double b) { return (a == 0 || b == 0) ? 0 : a * b; }
static Iv iv_mul(Iv a, Iv b) {
    double c[4] = {m0(a.lo, b.lo), m0(a.lo, b.hi), m0(a.hi, b.lo), m0(a.hi, b.hi)};
    return widen(*std::min_element(c, c + 4), *std::max_element(c, c + 4));
}
static Iv iv_pow(Iv a, int n) {
    Iv r{1, 1};
    if (n % 2 == 0) {
        double l = std::pow(a.lo, n), h = std::pow(a.hi, n);
        if (a.lo <= 0 && a.hi >= 0) return widen(0, std::max(l, h));
        return widen(std::min(l, h), std::max(l, h));
    }
    return widen(std::pow(a.lo, n), std::pow(a.hi, n));
}
static int new_atom(Kind k, const string& name, const vector<Id>& a, int n, Iv iv) {
    Atom t;
    t.k    = k;
    t.name = name;
    t.a    = a;
    t.n    = n;
    t.iv   = iv;
    atoms.push_back(t);
    return atoms.size() - 1;
}
static int get_atom(Kind k, const string& name, const vector<Id>& a, int n, std::function<Iv()> iv) {
    auto key = std::make_tuple((int)k, name, a, n);
    auto it  = atom_ix.find(key);
    if (it != atom_ix.end()) return it->second;
    int id       = new_atom(k, name, a, n, iv());
    atom_ix[key] = id;
    return id;
}
static Id atom_val(int at, int e = 1) {
    Poly p;
    p.push_back({mono_id({{at, e}}), 1});
    return poly_id(std::move(p));
}

//------------------------------------------------------------------------------------------------
// polynomial arithmetic with rewriting (s*s -> p, inv(p)*lead(p) -> ...)
static Id add(Id a, Id b);
static Id scale(Id a, const Q& q);
static Id mul(Id a, Id b);
static Id neg(Id a) { return scale(a, -1); }
static Id sub(Id a, Id b) { return add(a, neg(b)); }

static Poly padd(const Poly& x, const Poly& y, const Q& f) {  // x + f*y
    Poly r;
    r.reserve(x.size() + y.size());
    size_t i = 0, j = 0;
    while (i < x.size() || j < y.size()) {
        if (j == y.size() || (i < x.size() && x[i].first < y[j].first))
            r.push_back(x[i++]);
        else if (i == x.size() || y[j].first < x[i].first) {
            r.push_back({y[j].first, y[j].second * f});
            ++j;
        } else {
            Q s = x[i].second + f * y[j].second;
            if (s != 0) r.push_back({x[i].first, s});
            ++i;
            ++j;
        }
    }
    return r;
}
static Id add(Id a, Id b) { return poly_id(padd(polys[a], polys[b], 1)); }
static Id scale(Id a, const Q& q) {
    if (q == 1) return a;
    if (q == 0) return cst(0);
    Poly p = polys[a];
    for (auto& t : p) t.second *= q;
    return poly_id(std::move(p));
}
// lex order: compare highest atom first
static bool mono_less(const Mono& a, const Mono& b) {
    int i = (int)a.size() - 1, j = (int)b.size() - 1;
    while (i >= 0 && j >= 0) {
        if (a[i].first != b[j].first) return a[i].first < b[j].first;
        if (a[i].second != b[j].second) return a[i].second < b[j].second;
        --i;
        --j;
    }
    return i < 0 && j >= 0;
}
static size_t lead_ix(const Poly& p) {
    size_t b = 0;
    for (size_t i = 1; i < p.size(); ++i)
        if (mono_less(monos[p[b].first], monos[p[i].first])) b = i;
    return b;
}
static int exp_of(const Mono& m, int at) {
    for (auto& p : m)
        if (p.first == at) return p.second;
    return 0;
}
static Mono mono_mul(const Mono& a, const Mono& b) {
    Mono r;
    size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
        if (j == b.size() || (i < a.size() && a[i].first < b[j].first))
            r.push_back(a[i++]);
        else if (i == a.size() || b[j].first < a[i].first)
            r.push_back(b[j++]);
        else {
            r.push_back({a[i].first, a[i].second + b[j].second});
            ++i;
            ++j;
        }
    }
    return r;
}
static bool mono_div(const Mono& a, const Mono& b, Mono& r) {  // a / b
    r = a;
    for (auto& p : b) {
        bool ok = false;
        for (auto& q : r)
            if (q.first == p.first && q.second >= p.second) {
                q.second -= p.second;
                ok = true;
            }
        if (!ok) return false;
    }
    r.erase(std::remove_if(r.begin(), r.end(), [](const pair<int, int>& x) { return x.second == 0; }), r.end());
    return true;
}
static std::unordered_map<int, Id> red_cache;     // mono id -> reduced poly
static std::unordered_map<int, int> inv_lead;     // INV atom -> lead mono id
static std::unordered_map<int, Id> inv_rest;      // INV atom -> p - lead (monic)
static Id reduce_mono(int mi) {
    auto it = red_cache.find(mi);
    if (it != red_cache.end()) return it->second;
    Mono m = monos[mi];
    Id res = -1;
    for (auto& pr : m) {
        Atom& at = atoms[pr.first];
        if ((at.k == SQRT && pr.second >= 2) || (at.k == ROOT && pr.second >= at.n) ||
            (at.k == ABS && pr.second >= 2) || (at.k == VAR && at.sq >= 0 && pr.second >= 2)) {
            int d = at.k == ROOT ? at.n : 2;
            Mono rest;
            mono_div(m, {{pr.first, d}}, rest);
            Poly p;
            p.push_back({mono_id(rest), 1});
            Id arg = at.k == VAR ? at.sq : at.a[0];
            if (at.k == ABS) arg = mul(arg, arg);
            res = mul(poly_id(std::move(p)), arg);
            break;
        }
    }
    if (res < 0)
        for (auto& pr : m) {
            if (atoms[pr.first].k != INV) continue;
            auto l = inv_lead.find(pr.first);
            if (l == inv_lead.end()) continue;
            Mono q, r1;
            if (!mono_div(m, monos[l->second], q)) continue;
            // the lead monomial must not use the inverse itself
            if (!mono_div(q, {{pr.first, 1}}, r1)) continue;
            // i*L = 1 - i*rest
            int at = pr.first;  // reducing q terminates: its exponent of the lead is smaller
            Id b   = reduce_mono(mono_id(q));
            res    = sub(reduce_mono(mono_id(r1)), mul(b, inv_rest[at]));
            break;
        }
    if (res < 0) {
        Poly p;
        p.push_back({mi, 1});
        res = poly_id(std::move(p));
    }
    red_cache[mi] = res;
    return res;
}
static Iv iv_mono(const Mono& m) {
    Iv r{1, 1};
    for (auto& p : m) r = iv_mul(r, iv_pow(atoms[p.first].iv, p.second));
    return r;
}
static Id define(Id a) {  // wrap in a DEF atom
    if (polys[a].size() <= 1) return a;
    return atom_val(get_atom(DEF, "", {a}, 0, [&] { return iv_of(a); }));
}
static Id mul(Id a, Id b) {
    Q q;
    if (is_const(a, &q)) return scale(b, q);
    if (is_const(b, &q)) return scale(a, q);
    if (polys[a].size() * polys[b].size() > opt_maxterms) {
        if (polys[a].size() >= polys[b].size())
            a = define(a);
        else
            b = define(b);
        if (polys[a].size() * polys[b].size() > opt_maxterms) {
            a = define(a);
            b = define(b);
        }
    }
    const Poly x = polys[a], y = polys[b];
    std::map<int, Q> acc;
    bool simple = true;
    vector<pair<Id, Q>> extra;
    for (auto& t : x)
        for (auto& u : y) {
            Mono m = mono_mul(monos[t.first], monos[u.first]);
            int mi = mono_id(m);
            Id r   = reduce_mono(mi);
            Q c    = t.second * u.second;
            const Poly& rp = polys[r];
            for (auto& v : rp) acc[v.first] += c * v.second;
        }
    (void)simple;
    Poly r;
    for (auto& e : acc)
        if (e.second != 0) r.push_back({e.first, e.second});
    return poly_id(std::move(r));
}
static Id powi(Id a, int n) {
    Id r = cst(1);
    for (int i = 0; i < n; ++i) r = mul(r, a);
    return r;
}

//------------------------------------------------------------------------------------------------
// intervals and path condition
struct Canon {
    Id key;   // poly without constant, leading (first) coefficient 1
    Q f, c;   // a = f*key + c
};
static Canon canon(Id a) {
    Canon r;
    Poly p = polys[a];
    r.c    = 0;
    if (!p.empty() && p[0].first == 0) {
        r.c = p[0].second;
        p.erase(p.begin());
    }
    r.f = 1;
    if (!p.empty()) {
        r.f = p[0].second;
        for (auto& t : p) t.second /= r.f;
    }
    r.key = poly_id(std::move(p));
    return r;
}
static std::unordered_map<Id, Iv> refine;  // canonical key -> interval learnt on this path
static double qd(const Q& q) { return q.get_d(); }
// greatest common monomial of the terms of a polynomial
static Mono common_mono(const Poly& x) {
    Mono g = monos[x[0].first];
    for (size_t i = 1; i < x.size() && !g.empty(); ++i) {
        Mono h;
        for (auto& f : g) {
            int e = std::min(f.second, exp_of(monos[x[i].first], f.first));
            if (e > 0) h.push_back({f.first, e});
        }
        g = h;
    }
    return g;
}
static Iv iv_of(Id a) {
    Canon c = canon(a);
    const Poly p = polys[c.key];
    Iv r{0, 0};
    if (p.size() > 0) {
        double lo = 0, hi = 0;
        for (auto& t : p) {
            Iv m     = iv_mono(monos[t.first]);
            double f = qd(t.second);
            lo += f >= 0 ? m0(f, m.lo) : m0(f, m.hi);
            hi += f >= 0 ? m0(f, m.hi) : m0(f, m.lo);
        }
        double mag = std::max(std::fabs(lo), std::fabs(hi));
        r          = widen(lo, hi);
        if (p.size() > 1 && std::isfinite(mag)) {
            r.lo -= 1e-14 * mag;
            r.hi += 1e-14 * mag;
        }
        if (p.size() > 1 && p.size() < 200) {  // g*(rest): often much tighter than term by term
            Mono g = common_mono(p);
            if (!g.empty()) {
                std::map<int, Q> acc;
                for (auto& t : p) {
                    Mono m;
                    mono_div(monos[t.first], g, m);
                    acc[mono_id(m)] += t.second;
                }
                Poly rest;
                for (auto& e : acc) rest.push_back({e.first, e.second});
                Iv f = iv_mul(iv_mono(g), iv_of(poly_id(std::move(rest))));
                r.lo = std::max(r.lo, f.lo);
                r.hi = std::min(r.hi, f.hi);
            }
        }
        auto it = refine.find(c.key);
        if (it != refine.end()) {
            r.lo = std::max(r.lo, it->second.lo);
            r.hi = std::min(r.hi, it->second.hi);
        }
    }
    double f = qd(c.f), k = qd(c.c);
    double lo = f >= 0 ? m0(f, r.lo) : m0(f, r.hi), hi = f >= 0 ? m0(f, r.hi) : m0(f, r.lo);
    Iv o = widen(lo + k, hi + k);
    if (k != 0) {  // cancellation slack
        double s = 1e-15 * std::fabs(k);
        if (std::isfinite(o.lo)) o.lo -= s;
        if (std::isfinite(o.hi)) o.hi += s;
    }
    // exact end points when nothing was multiplied
    return o;
}

enum { LT = 1, EQ = 2, GT = 4 };
struct Cons {
    Id p;      // poly compared with 0
    int mask;  // allowed signs
};
static vector<Cons> pc;
static std::unordered_map<Id, vector<pair<Q, int>>> unused_;
static std::unordered_map<Id, int> sign_known;  // canonical (scaled incl. const) poly -> mask

static string mode_name;
static long my_path;
static long my_decisions, my_queries;
static vector<pair<string, int>> choices;

//------------------------------------------------------------------------------------------------
// concrete evaluation under a witness
static map<int, double> witness;  // VAR atom -> value
static bool have_witness = false;
struct Evaluator {
    const map<int, double>& w;
    std::unordered_map<int, double> ca;
    std::unordered_map<Id, double> cp;
    Evaluator(const map<int, double>& w) : w(w) {}
    double poly(Id a) {
        auto it = cp.find(a);
        if (it != cp.end()) return it->second;
        long double s = 0;
        const Poly p  = polys[a];
        for (auto& t : p) {
            long double m = qd(t.second);
            for (auto& f : monos[t.first]) {
                double v = atom(f.first);
                for (int i = 0; i < f.second; ++i) m *= v;
            }
            s += m;
        }
        return cp[a] = (double)s;
    }
    static double fn(const string& n, double x) {
        if (n == "sin") return std::sin(x);
        if (n == "cos") return std::cos(x);
        if (n == "tanh") return std::tanh(x);
        if (n == "tan") return std::tan(x);
        if (n == "exp") return std::exp(x);
        if (n == "log") return std::log(x);
        if (n == "floor") return std::floor(x);
        if (n == "atan") return std::atan(x);
        if (n == "sinh") return std::sinh(x);
        if (n == "cosh") return std::cosh(x);
        return 0;
    }
    double atom(int i) {
        auto it = ca.find(i);
        if (it != ca.end()) return it->second;
        const Atom& t = atoms[i];
        double v      = 0;
        switch (t.k) {
            case VAR: {
                auto x = w.find(i);
                if (x != w.end())
                    v = x->second;
                else if (t.sq >= 0)
                    v = std::sqrt(std::max(0.0, poly(t.sq)));
                else {
                    v = (std::isfinite(t.iv.lo) && std::isfinite(t.iv.hi)) ? 0.5 * (t.iv.lo + t.iv.hi) : 0;
                }
            } break;
            case INV: v = 1 / poly(t.a[0]); break;
            case SQRT: v = std::sqrt(std::max(0.0, poly(t.a[0]))); break;
            case ROOT: v = std::pow(std::max(0.0, poly(t.a[0])), 1.0 / t.n); break;
            case ABS: v = std::fabs(poly(t.a[0])); break;
            case DEF: v = poly(t.a[0]); break;
            case ITE: {
                double c = poly(t.a[0]);
                int s    = c < 0 ? LT : c > 0 ? GT : EQ;
                v        = (t.n & s) ? poly(t.a[1]) : poly(t.a[2]);
            } break;
            case FN: v = fn(t.name, poly(t.a[0])); break;
            case DELTA: {
                size_t h = t.a.size() / 2;
                auto f   = [&](size_t o) {
                    double x = poly(t.a[o]);
                    switch (t.name[0] - '0') {
                        case INV: return 1 / x;
                        case SQRT: return std::sqrt(std::max(0.0, x));
                        case ABS: return std::fabs(x);
                        case ITE: return (t.n & (x < 0 ? LT : x > 0 ? GT : EQ)) ? poly(t.a[o + 1]) : poly(t.a[o + 2]);
                        default: return fn(t.name.substr(1), x);
                    }
                };
                v = f(0) - f(h);
            } break;
            default: break;
        }
        return ca[i] = v;
    }
};

//------------------------------------------------------------------------------------------------
// SMT-LIB emission
static string qs(const Q& q) {
    string n = mpz_class(abs(q.get_num())).get_str(), d = q.get_den().get_str();
    string r = d == "1" ? n + ".0" : "(/ " + n + ".0 " + d + ".0)";
    return q < 0 ? "(- " + r + ")" : r;
}
static string ds(double d) { return qs(Q(d)); }
struct Emit {
    std::ostringstream decl, defs;
    std::set<int> seen_a, seen_m;
    bool linear;
    vector<int> vars;
    Emit(bool linear) : linear(linear) {}
    string an(int a) { return "a" + std::to_string(a); }
    string mono(int mi) {
        const Mono m = monos[mi];
        if (m.empty()) return "1.0";
        for (auto& p : m) atom(p.first);
        if (m.size() == 1 && m[0].second == 1) return an(m[0].first);
        if (!linear) {
            string r = "(*";
            for (auto& p : m)
                for (int i = 0; i < p.second; ++i) r += " " + an(p.first);
            return r + ")";
        }
        string n = "m" + std::to_string(mi);
        if (seen_m.insert(mi).second) {
            decl << "(declare-const " << n << " Real)\n";
            bounds(n, iv_mono(m));
        }
        return n;
    }
    void bounds(const string& n, Iv iv) {
        if (std::isfinite(iv.lo)) defs << "(assert (>= " << n << " " << ds(iv.lo) << "))\n";
        if (std::isfinite(iv.hi)) defs << "(assert (<= " << n << " " << ds(iv.hi) << "))\n";
    }
    string poly(Id a) {
        const Poly p = polys[a];
        if (p.empty()) return "0.0";
        vector<string> t;
        for (auto& x : p) {
            string m = mono(x.first);
            if (x.first == 0)
                t.push_back(qs(x.second));
            else if (x.second == 1)
                t.push_back(m);
            else
                t.push_back("(* " + qs(x.second) + " " + m + ")");
        }
        if (t.size() == 1) return t[0];
        string r = "(+";
        for (auto& s : t) r += " " + s;
        return r + ")";
    }
    static string rel(int mask, const string& p) {
        switch (mask) {
            case LT: return "(< " + p + " 0.0)";
            case EQ: return "(= " + p + " 0.0)";
            case GT: return "(> " + p + " 0.0)";
            case LT | EQ: return "(<= " + p + " 0.0)";
            case GT | EQ: return "(>= " + p + " 0.0)";
            case LT | GT: return "(not (= " + p + " 0.0))";
            case 0: return "false";
            default: return "true";
        }
    }
    void atom(int i) {
        if (!seen_a.insert(i).second) return;
        const Atom t = atoms[i];
        decl << "(declare-const " << an(i) << " Real)\n";
        bounds(an(i), t.iv);
        switch (t.k) {
            case VAR: vars.push_back(i); break;
            case INV:
                if (!linear) {
                    string p = poly(t.a[0]);  // emits the atoms it needs first
                    defs << "(assert (= (* " << an(i) << " " << p << ") 1.0))\n";
                } else if (inv_lead.count(i)) {
                    // (i*p) expands to 1 by construction; nothing linear to add
                }
                break;
            case SQRT:
                defs << "(assert (>= " << an(i) << " 0.0))\n";
                if (!linear) {
                    string p = poly(t.a[0]);
                    defs << "(assert (= (* " << an(i) << " " << an(i) << ") " << p << "))\n";
                }
                break;
            case ROOT: {
                defs << "(assert (>= " << an(i) << " 0.0))\n";
                if (!linear) {
                    string p = poly(t.a[0]);
                    defs << "(assert (= (*";
                    for (int k = 0; k < t.n; ++k) defs << " " << an(i);
                    defs << ") " << p << "))\n";
                }
            } break;
            case ABS: {
                string p = poly(t.a[0]);
                defs << "(assert (= " << an(i) << " (ite (>= " << p << " 0.0) " << p << " (- " << p << "))))\n";
            } break;
            case DEF: {
                string p = poly(t.a[0]);
                defs << "(assert (= " << an(i) << " " << p << "))\n";
            } break;
            case ITE: {
                string c = poly(t.a[0]), a = poly(t.a[1]), b = poly(t.a[2]);
                defs << "(assert (= " << an(i) << " (ite " << rel(t.n, c) << " " << a << " " << b << ")))\n";
            } break;
            case FN: {
                // contracts of the library functions
                string p = poly(t.a[0]);
                if (t.name == "tanh") {
                    defs << "(assert (and (< " << an(i) << " 1.0) (> " << an(i) << " (- 1.0))))\n";
                    defs << "(assert (=> (> " << p << " 0.0) (> " << an(i) << " 0.0)))\n";
                    defs << "(assert (=> (< " << p << " 0.0) (< " << an(i) << " 0.0)))\n";
                    defs << "(assert (=> (= " << p << " 0.0) (= " << an(i) << " 0.0)))\n";
                }
                for (int j : seen_a) {
                    if (j == i || atoms[j].k != FN || atoms[j].name != t.name) continue;
                    if (t.name == "sin" || t.name == "cos" || t.name == "tanh" || t.name == "atan") {
                        // 1-Lipschitz (implies congruence)
                        string q = poly(atoms[j].a[0]);
                        string da = "(- " + p + " " + q + ")", dv = "(- " + an(i) + " " + an(j) + ")";
                        defs << "(assert (<= (ite (>= " << dv << " 0.0) " << dv << " (- " << dv << ")) (ite (>= " << da
                             << " 0.0) " << da << " (- " << da << "))))\n";
                    } else {
                        string q = poly(atoms[j].a[0]);
                        defs << "(assert (=> (= " << p << " " << q << ") (= " << an(i) << " " << an(j) << ")))\n";
                        if (t.name == "exp" || t.name == "log" || t.name == "sinh" || t.name == "floor") {
                            defs << "(assert (=> (<= " << p << " " << q << ") (<= " << an(i) << " " << an(j) << ")))\n";
                            defs << "(assert (=> (>= " << p << " " << q << ") (>= " << an(i) << " " << an(j) << ")))\n";
                        }
                    }
                }
            } break;
            default: break;
        }
    }
    string cons(const Cons& c) { return rel(c.mask, poly(c.p)); }
};

// atoms reachable from a poly (transitively)
static void reach_poly(Id a, std::set<int>& s);
static void reach_atom(int i, std::set<int>& s) {
    if (!s.insert(i).second) return;
    for (Id x : atoms[i].a) reach_poly(x, s);
}
static void reach_poly(Id a, std::set<int>& s) {
    for (auto& t : polys[a])
        for (auto& p : monos[t.first]) reach_atom(p.first, s);
}

static double g_solver_s = 0;
// runs one script, returns the output lines
static vector<string> run_solver(const string& script, double tmo, bool cvc = false) {
    static int cnt = 0;
    char fn[512];
    snprintf(fn, sizeof fn, "%s/q_%d_%d.smt2", out_dir.c_str(), (int)getpid(), cnt++);
    FILE* f = fopen(fn, "w");
    fwrite(script.data(), 1, script.size(), f);
    fclose(f);
    int pfd[2];
    vector<string> lines;
    if (pipe(pfd)) return lines;
    double t = now();
    pid_t p  = fork();
    if (p == 0) {
        dup2(pfd[1], 1);
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 2);
        close(pfd[0]);
        char b[64];
        if (cvc) {
            snprintf(b, sizeof b, "--tlimit=%d", (int)(tmo * 1000));
            execlp("cvc5", "cvc5", b, "--produce-models", "--lang=smt2", fn, (char*)0);
        } else {
            snprintf(b, sizeof b, "-T:%d", (int)std::ceil(tmo));
            execlp(solver_bin.c_str(), solver_bin.c_str(), b, "-memory:3000", "pp.decimal=true",
                   "pp.decimal_precision=25", fn, (char*)0);
        }
        _exit(127);
    }
    close(pfd[1]);
    string out;
    char buf[65536];
    ssize_t n;
    while ((n = read(pfd[0], buf, sizeof buf)) > 0) out.append(buf, n);
    close(pfd[0]);
    int st;
    waitpid(p, &st, 0);
    g_solver_s += now() - t;
    if (!getenv("SX_KEEP")) unlink(fn);
    std::istringstream is(out);
    string l;
    while (std::getline(is, l)) lines.push_back(l);
    if (getenv("SX_DBG")) fprintf(stderr, "[q %s %.2fs: %s]\n", fn, now() - t, lines.empty() ? "?" : lines[0].c_str());
    ++my_queries;
    return lines;
}

// constraints connected (through shared variables) with the given atoms
static vector<Cons> slice(const std::set<int>& seed) {
    vector<std::set<int>> r(pc.size());
    vector<char> in(pc.size(), 0);
    for (size_t i = 0; i < pc.size(); ++i) reach_poly(pc[i].p, r[i]);
    std::set<int> cur = seed;
    bool ch           = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < pc.size(); ++i) {
            if (in[i]) continue;
            bool hit = r[i].empty();
            for (int a : r[i])
                if (cur.count(a)) {
                    hit = true;
                    break;
                }
            if (hit) {
                in[i] = 1;
                cur.insert(r[i].begin(), r[i].end());
                ch = true;
            }
        }
    }
    vector<Cons> o;
    for (size_t i = 0; i < pc.size(); ++i)
        if (in[i]) o.push_back(pc[i]);
    return o;
}

static string get_values(const vector<int>& vars) {
    if (vars.empty()) return "";
    string s = "(get-value (";
    for (int v : vars) s += "a" + std::to_string(v) + " ";
    return s + "))\n";
}
static double parse_num(const string& s, size_t& i) {
    while (i < s.size() && isspace(s[i])) ++i;
    if (s[i] == '(') {
        ++i;
        while (isspace(s[i])) ++i;
        if (s[i] == '-') {
            ++i;
            double v = parse_num(s, i);
            while (i < s.size() && s[i] != ')') ++i;
            ++i;
            return -v;
        }
        if (s[i] == '/') {
            ++i;
            double a = parse_num(s, i), b = parse_num(s, i);
            while (i < s.size() && s[i] != ')') ++i;
            ++i;
            return a / b;
        }
        // root-obj etc: skip
        int d = 1;
        while (i < s.size() && d) {
            if (s[i] == '(') ++d;
            if (s[i] == ')') --d;
            ++i;
        }
        return NAN;
    }
    char* e;
    double v = strtod(s.c_str() + i, &e);
    size_t j = e - s.c_str();
    if (j == i) {
        ++i;
        return NAN;
    }
    i = j;
    if (i < s.size() && s[i] == '?') ++i;
    return v;
}
static void parse_model(const vector<string>& lines, size_t from, map<int, double>& w) {
    string all;
    for (size_t i = from; i < lines.size(); ++i) all += lines[i] + "\n";
    size_t i = 0;
    while ((i = all.find("(a", i)) != string::npos) {
        size_t j = i + 2;
        if (!isdigit(all[j])) {
            ++i;
            continue;
        }
        int a = 0;
        while (isdigit(all[j])) a = a * 10 + (all[j++] - '0');
        double v = parse_num(all, j);
        if (!std::isnan(v)) w[a] = v;
        i = j;
    }
}

// 0 unsat, 1 sat, 2 unknown.   query: PC (sliced) and extra formulae
static int solve(const vector<Cons>& extra, double tmo, map<int, double>* model, bool linear_first = true,
                 bool whole_pc = false) {
    std::set<int> seed;
    for (auto& c : extra) reach_poly(c.p, seed);
    vector<Cons> cs = whole_pc ? pc : slice(seed);
    if (linear_first) {
        Emit e(true);
        std::ostringstream as;
        for (auto& c : cs) as << "(assert " << e.cons(c) << ")\n";
        for (auto& c : extra) as << "(assert " << e.cons(c) << ")\n";
        bool pure = e.seen_m.empty();
        for (int a : e.seen_a) {
            auto k = atoms[a].k;
            if (k == INV || k == SQRT || k == ROOT || k == FN) pure = false;
        }
        string s = "(set-option :produce-models true)\n(set-logic QF_LRA)\n" + e.decl.str() + e.defs.str() + as.str() +
                   "(check-sat)\n" + (pure ? get_values(e.vars) : "");
        auto l = run_solver(s, tmo);
        ++sh->q_lin;
        if (!l.empty() && l[0] == "unsat") return 0;
        if (pure && !l.empty() && l[0] == "sat") {
            if (model) parse_model(l, 1, *model);
            return 1;
        }
    }
    Emit e(false);
    std::ostringstream as;
    for (auto& c : cs) as << "(assert " << e.cons(c) << ")\n";
    for (auto& c : extra) as << "(assert " << e.cons(c) << ")\n";
    string s = "(set-option :produce-models true)\n(set-logic QF_NRA)\n" + e.decl.str() + e.defs.str() + as.str() +
               "(check-sat)\n" + get_values(e.vars);
    auto l = run_solver(s, tmo);
    ++sh->q_nl;
    string r = l.empty() ? "" : l[0];
    if (r == "unsat") return 0;
    if (r == "sat") {
        if (model) parse_model(l, 1, *model);
        return 1;
    }
    ++sh->q_unknown;
    return 2;
}

// concrete check of a constraint at a witness (with slack)
static bool holds_at(const map<int, double>& w, const vector<Cons>& cs) {
    Evaluator ev(w);
    for (auto& c : cs) {
        double v = ev.poly(c.p);
        if (std::isnan(v)) return false;
        int s = v < 0 ? LT : v > 0 ? GT : EQ;
        if (!(c.mask & s)) {
            if ((c.mask & EQ) && std::fabs(v) < 1e-9) continue;
            return false;
        }
    }
    return true;
}

// looks for a point of the path satisfying the extra constraints (only ever used to find witnesses)
static uint64_t rng_state = 88172645463325252ull;
static double rnd() {
    rng_state ^= rng_state << 13;
    rng_state ^= rng_state >> 7;
    rng_state ^= rng_state << 17;
    return (rng_state >> 11) * (1.0 / 9007199254740992.0);
}
static bool sample(const vector<Cons>& extra, map<int, double>& out, int tries) {
    std::set<int> at;
    for (auto& c : pc) reach_poly(c.p, at);
    for (auto& c : extra) reach_poly(c.p, at);
    vector<int> free_, dep;
    for (int i : at)
        if (atoms[i].k == VAR) (atoms[i].sq >= 0 ? dep : free_).push_back(i);
    for (int t = 0; t < tries; ++t) {
        map<int, double> w = witness;
        bool local = have_witness && t % 2;
        for (int v : free_) {
            Iv b = atoms[v].iv;
            if (!std::isfinite(b.lo) || !std::isfinite(b.hi)) b = Iv{-10, 10};
            if (local && rnd() < 0.7) continue;  // keep most inputs of the known point
            double x = b.lo + (b.hi - b.lo) * rnd();
            w[v]     = rnd() < 0.5 ? std::round(x * 64) / 64 : x;
            w[v]     = std::min(std::max(w[v], b.lo), b.hi);
        }
        for (int v : dep) w.erase(v);
        for (int v : dep) {
            Evaluator ev(w);
            double q = ev.poly(atoms[v].sq);
            if (q < 0) {
                w.clear();
                break;
            }
            w[v] = std::sqrt(q) * (rnd() < 0.5 ? -1 : 1);
        }
        if (w.empty() && !free_.empty()) continue;
        bool in = true;
        for (int v : dep)
            if (w[v] < atoms[v].iv.lo || w[v] > atoms[v].iv.hi) in = false;
        if (in && holds_at(w, extra) && holds_at(w, pc)) {
            out = w;
            return true;
        }
    }
    return false;
}

static void learn(const Cons& c) {
    Canon k  = canon(c.p);
    double b = qd(Q(-k.c / k.f));
    int mask = c.mask;
    if (k.f < 0) mask = ((mask & LT) ? GT : 0) | ((mask & GT) ? LT : 0) | (mask & EQ);
    Iv& iv = refine[k.key];
    double e = std::fabs(b) * 1e-15;
    if (!(mask & GT)) iv.hi = std::min(iv.hi, b + e);
    if (!(mask & LT)) iv.lo = std::max(iv.lo, b - e);
    // propagate to the atom when the key is a single atom
    const Poly& p = polys[k.key];
    if (p.size() == 1 && monos[p[0].first].size() == 1 && monos[p[0].first][0].second == 1) {
        Atom& a = atoms[monos[p[0].first][0].first];
        a.iv.lo = std::max(a.iv.lo, iv.lo);
        a.iv.hi = std::min(a.iv.hi, iv.hi);
    }
}
static void add_pc(const Cons& c) {
    if (c.mask == (LT | EQ | GT)) return;
    pc.push_back(c);
    learn(c);
}

//------------------------------------------------------------------------------------------------
// path bookkeeping
struct Assertion {
    string name;
    int kind;  // 0 close, 1 ge, 2 true
    Id d;      // a-b
    double tol;
    int cond;
    size_t npc;  // size of pc when stated
    double ca = 0, cb = 0;
    bool poisoned = false;
};
static vector<Assertion> asserts;
struct Obs {
    string name;
    bool sym;
    Id v;
    double c;
};
static vector<Obs> observed;
struct DiffRec {
    string name;
    Id v;
    double c;
    bool sym;
};
static vector<DiffRec> diffs;
static vector<pid_t> kids;
static int my_tokens = 0;
static bool finished = false;
static bool in_harness = false;

static string jesc(const string& s) {
    string r;
    for (char c : s) {
        if (c == '"' || c == '\\') r += '\\';
        if ((unsigned char)c < 32)
            r += ' ';
        else
            r += c;
    }
    return r;
}
static string jnum(double v) {
    char b[64];
    if (!std::isfinite(v)) return "null";
    snprintf(b, sizeof b, "%.17g", v);
    return b;
}
static void emit_line(const string& s) {
    sem_wait(&sh->lock);
    string fn = out_dir + "/paths.jsonl";
    int fd    = open(fn.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644);
    string t  = s + "\n";
    size_t o  = 0;
    while (o < t.size()) {
        ssize_t n = write(fd, t.data() + o, t.size() - o);
        if (n <= 0) break;
        o += n;
    }
    close(fd);
    sem_post(&sh->lock);
}
static string witness_json(const map<int, double>& w) {
    string s = "{";
    bool first = true;
    for (size_t i = 0; i < atoms.size(); ++i) {
        if (atoms[i].k != VAR || atoms[i].name.empty()) continue;
        auto it  = w.find(i);
        double v = it != w.end() ? it->second
                                 : (std::isfinite(atoms[i].iv.lo) && std::isfinite(atoms[i].iv.hi)
                                        ? 0.5 * (atoms[i].iv.lo + atoms[i].iv.hi)
                                        : 0);
        s += (first ? "\"" : ",\"") + jesc(atoms[i].name) + "\":" + jnum(v);
        first = false;
    }
    for (auto& c : choices) {
        s += (first ? "\"" : ",\"") + ("choice:" + jesc(c.first)) + "\":" + std::to_string(c.second);
        first = false;
    }
    Evaluator ev(w);
    for (auto& d : diffs) {
        s += (first ? "\"" : ",\"") + ("diff:" + jesc(d.name)) + "\":" + jnum(d.sym ? ev.poly(d.v) : d.c);
        first = false;
    }
    return s + "}";
}

static vector<vector<Cons>> negation(const Assertion& a, double tol) {
    vector<vector<Cons>> r;
    if (a.kind == 0) {
        r.push_back({{sub(a.d, cst(Q(tol))), GT}});
        r.push_back({{add(a.d, cst(Q(tol))), LT}});
    } else if (a.kind == 1)
        r.push_back({{add(a.d, cst(Q(tol))), LT}});
    return r;
}

static string show(Id a) {
    string r;
    for (auto& t : polys[a]) {
        r += (r.empty() ? "" : " + ") + jnum(qd(t.second));
        for (auto& f : monos[t.first]) r += "*" + (atoms[f.first].name.empty() ? "a" + std::to_string(f.first) : atoms[f.first].name) + (f.second > 1 ? "^" + std::to_string(f.second) : "");
    }
    return r;
}
static Id resolve(Id a);
static void finish(const string& status, const string& msg) {
    if (finished) return;
    finished = true;
    if (status != "cut")
        for (auto& a : asserts)
            if (a.kind != 2 && !a.poisoned) a.d = resolve(a.d);
    std::ostringstream o;
    string res   = "[";
    bool first   = true;
    auto emit_as = [&](const string& nm, const string& verdict, const map<int, double>* m) {
        res += (first ? "[\"" : ",[\"") + jesc(nm) + "\",\"" + verdict + "\"";
        if (m) res += "," + witness_json(*m);
        res += "]";
        first = false;
    };
    bool silent = status == "cut";
    // path feasibility / final witness
    string feas = "trivial";
    if (!silent) {
        if (!pc.empty()) {
            map<int, double> m;
            if ((have_witness && holds_at(witness, pc)) || (have_witness = sample({}, m, 400))) {
                feas = "sat";
                if (!m.empty()) witness = m;
            } else {
                int r = solve({}, opt_qtime, &m, true, true);
                feas  = r == 0 ? "unsat" : r == 1 ? "sat" : "unknown";
                if (r == 1) {
                    witness      = m;
                    have_witness = true;
                }
            }
        }
    }
    if (!silent && feas != "unsat") {
        // 1. one incremental linear batch
        vector<size_t> open;
        std::set<string> failed_names;
        vector<size_t> todo;
        for (size_t i = 0; i < asserts.size(); ++i) {
            auto& a = asserts[i];
            if (a.kind == 2 || a.poisoned) {
                if (!a.cond) {
                    emit_as(a.name, "sat", &witness);
                    failed_names.insert(a.name);
                } else
                    emit_as(a.name, "unsat", nullptr);
                continue;
            }
            todo.push_back(i);
        }
        if (!todo.empty()) {
            Emit e(true);
            std::ostringstream as, qs_;
            for (auto& c : pc) as << "(assert " << e.cons(c) << ")\n";
            for (size_t i : todo) {
                qs_ << "(push)(assert (or";
                for (auto& d : negation(asserts[i], asserts[i].tol)) {
                    qs_ << " (and";
                    for (auto& c : d) qs_ << " " << e.cons(c);
                    qs_ << ")";
                }
                qs_ << "))(check-sat)(pop)\n";
            }
            string s = "(set-logic QF_LRA)\n" + e.decl.str() + e.defs.str() + as.str() + qs_.str();
            auto l   = run_solver(s, std::max(30.0, opt_qtime * 3));
            ++sh->q_lin;
            size_t k = 0;
            for (auto& x : l) {
                if (x.compare(0, 6, "(error") == 0) break;
                if (x != "sat" && x != "unsat" && x != "unknown") continue;
                if (k >= todo.size()) break;
                if (x == "unsat")
                    emit_as(asserts[todo[k]].name, "unsat", nullptr);
                else
                    open.push_back(todo[k]);
                ++k;
            }
            for (; k < todo.size(); ++k) open.push_back(todo[k]);
            sh->q_assert += todo.size();
        }
        // 2. the rest one by one over non-linear real arithmetic
        int nsat = 0, nunk = 0;
        for (size_t i : open) {
            // a path whose assertions keep timing out gets less time for the rest of them
            const double qt = nunk < 3 ? opt_qtime : opt_qtime / 5;
            auto& a = asserts[i];
            if (failed_names.count(a.name)) continue;
            if (nsat >= 4 || now() - t0 > opt_deadline) {
                emit_as(a.name, nsat >= 4 ? "skipped" : "unknown", nullptr);
                continue;
            }
            string verdict = "unsat";
            if (getenv("SX_DUMP")) {
                fprintf(stderr, "%s: %s\n", a.name.c_str(), show(a.d).c_str());
                for (size_t k = 0; k < atoms.size(); ++k)
                    if (atoms[k].k != VAR) fprintf(stderr, "   a%zu kind %d: %s [%g %g]\n", k, atoms[k].k, show(atoms[k].a[0]).c_str(), atoms[k].iv.lo, atoms[k].iv.hi);
            }
            map<int, double> model;
            // a point of the path that breaks the assertion settles it (every model is replayed on the real code)
            for (double margin : {1000.0, 10.0}) {
                for (auto& d : negation(a, a.tol * margin))
                    if ((have_witness && holds_at(witness, d) && (model = witness, true)) || sample(d, model, 200)) {
                        verdict = "sat";
                        break;
                    }
                if (verdict == "sat") break;
            }
            for (double margin : {1000.0, 1.0}) {
                if (verdict == "sat") break;
                // look for a robust violation first (replayable), then for any
                if (margin > 1 && a.tol <= 0) continue;
                bool done = false, unk = false;
                for (auto& d : negation(a, a.tol * margin)) {
                    map<int, double> m;
                    int r = solve(d, qt, &m, false);
                    if (r == 1) {
                        model   = m;
                        verdict = "sat";
                        done    = true;
                        break;
                    }
                    if (r == 2) unk = true;
                }
                if (done) break;
                if (unk) verdict = "unknown";
                else if (margin == 1.0) verdict = "unsat";
            }
            if (verdict == "unknown") {
                // second solver, then the query with all but a few inputs fixed (finds models only)
                bool all_unsat = true, sat = false;
                for (auto& d : negation(a, a.tol)) {
                    std::set<int> seed;
                    for (auto& c : d) reach_poly(c.p, seed);
                    auto cs = slice(seed);
                    Emit e(false);
                    std::ostringstream as;
                    for (auto& c : cs) as << "(assert " << e.cons(c) << ")\n";
                    for (auto& c : d) as << "(assert " << e.cons(c) << ")\n";
                    string s = "(set-option :produce-models true)\n(set-logic QF_NRA)\n" + e.decl.str() +
                               e.defs.str() + as.str() + "(check-sat)\n" + get_values(e.vars);
                    auto l   = run_solver(s, qt, true);
                    string r = l.empty() ? "" : l[0];
                    if (r == "sat") {
                        parse_model(l, 1, model);
                        sat = true;
                        break;
                    }
                    if (r != "unsat") {
                        all_unsat = false;
                        // fix inputs
                        for (int round = 0; round < 6 && !sat && nunk < 3; ++round) {
                            std::ostringstream fx;
                            map<int, double> w = witness;
                            srand(7 + round);
                            for (size_t vi = 0; vi < e.vars.size(); ++vi) {
                                if ((int)(vi % 3) == round % 3 && round < 3 && e.vars.size() < 12) continue;
                                int v    = e.vars[vi];
                                double x = w.count(v) ? w[v] : 0.5 * (atoms[v].iv.lo + atoms[v].iv.hi);
                                if (round >= 1 && !w.count(v))
                                    x = atoms[v].iv.lo +
                                        (atoms[v].iv.hi - atoms[v].iv.lo) * ((rand() % 15 + 1) / 16.0);
                                if ((rand() % e.vars.size()) < 2) continue;
                                fx << "(assert (= a" << v << " " << ds(x) << "))\n";
                            }
                            string s2 = "(set-option :produce-models true)\n(set-logic QF_NRA)\n" + e.decl.str() +
                                        e.defs.str() + as.str() + fx.str() + "(check-sat)\n" + get_values(e.vars);
                            auto l2 = run_solver(s2, qt);
                            if (!l2.empty() && l2[0] == "sat") {
                                parse_model(l2, 1, model);
                                sat = true;
                            }
                        }
                        if (sat) break;
                    }
                }
                verdict = sat ? "sat" : all_unsat ? "unsat" : "unknown";
                if (verdict == "unknown") ++nunk;
            }
            if (verdict == "sat") {
                // inputs outside the slice keep the values of the path witness
                map<int, double> m = witness;
                for (auto& kv : model) m[kv.first] = kv.second;
                emit_as(a.name, "sat", &m);
                failed_names.insert(a.name);
                ++nsat;
            } else
                emit_as(a.name, verdict, nullptr);
        }
    }
    res += "]";
    // wait for children
    for (pid_t k : kids) {
        int st;
        waitpid(k, &st, 0);
    }
    if (!silent) {
        o << "{\"path\":" << my_path << ",\"status\":\"" << status << "\",\"msg\":\"" << jesc(msg) << "\",\"feasible\":\""
          << feas << "\",\"decisions\":" << my_decisions << ",\"queries\":" << my_queries << ",\"solver_s\":" << g_solver_s
          << ",\"ops\":" << sh->ops << ",\"values\":" << polys.size() << ",\"atoms\":" << atoms.size()
          << ",\"pc\":" << pc.size() << ",\"witness\":" << witness_json(witness) << ",\"asserts\":" << res << ",\"obs\":[";
        Evaluator ev(witness);
        size_t k = 0;
        for (auto& b : observed) {
            if (k > 400) break;
            o << (k++ ? "," : "") << "[\"" << jesc(b.name) << "\"," << jnum(b.sym ? ev.poly(b.v) : b.c) << "]";
        }
        o << "]}";
        emit_line(o.str());
    } else {
        emit_line("{\"path\":" + std::to_string(my_path) + ",\"status\":\"cut\",\"queries\":" + std::to_string(my_queries) +
                  ",\"solver_s\":" + jnum(g_solver_s) + ",\"decisions\":" + std::to_string(my_decisions) + "}");
    }
    for (int i = 0; i < my_tokens; ++i) sem_post(&sh->tokens);
    _exit(0);
}

// returns true in the child
static bool do_fork() {
    if (sh->paths >= opt_maxpaths || now() - t0 > opt_deadline) {
        ++sh->truncated;
        return false;
    }
    ++sh->paths;
    ++sh->forks;
    fflush(stdout);
    fflush(stderr);
    bool par = sem_trywait(&sh->tokens) == 0;
    pid_t p  = fork();
    if (p == 0) {
        my_path      = __sync_add_and_fetch(&sh->next_path, 1);
        kids.clear();
        my_tokens    = par ? 1 : 0;
        my_queries   = 0;
        g_solver_s   = 0;
        my_decisions = 0;
        return true;
    }
    if (p < 0) {
        ++sh->truncated;
        if (par) sem_post(&sh->tokens);
        return false;
    }
    if (par)
        kids.push_back(p);
    else {
        int st;
        waitpid(p, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
            emit_line("{\"path\":-1,\"status\":\"died\",\"msg\":\"exit status " + std::to_string(st) + "\"}");
    }
    return false;
}

// sign mask possible for p given interval / known facts
static int quick_mask(Id p) {
    Q q;
    if (is_const(p, &q)) return q < 0 ? LT : q > 0 ? GT : EQ;
    Iv iv   = iv_of(p);
    int m   = LT | EQ | GT;
    if (iv.lo > 0) m &= GT;
    if (iv.hi < 0) m &= LT;
    if (iv.lo >= 0) m &= (GT | EQ);
    if (iv.hi <= 0) m &= (LT | EQ);
    // recorded facts about exactly this polynomial (up to a positive factor)
    Canon c = canon(p);
    Poly n  = polys[p];
    Q f     = abs(c.f);
    for (auto& t : n) t.second /= f;
    auto it = sign_known.find(poly_id(std::move(n)));
    if (it != sign_known.end()) m &= it->second;
    Poly n2 = polys[p];
    f       = -f;
    for (auto& t : n2) t.second /= f;
    it = sign_known.find(poly_id(std::move(n2)));
    if (it != sign_known.end()) {
        int k = it->second;
        m &= ((k & LT) ? GT : 0) | ((k & GT) ? LT : 0) | (k & EQ);
    }
    return m;
}
static void note_sign(Id p, int mask) {
    Canon c = canon(p);
    Poly n  = polys[p];
    Q f     = abs(c.f);
    for (auto& t : n) t.second /= f;
    Id k    = poly_id(std::move(n));
    auto it = sign_known.find(k);
    if (it == sign_known.end())
        sign_known[k] = mask;
    else
        it->second &= mask;
}
static void constrain(Id p, int mask) {
    add_pc({p, mask});
    note_sign(p, mask);
}

// decides whether sign(p) is in mask; forks if both are possible
static bool decide(Id p, int mask) {
    int m = quick_mask(p);
    if ((m & ~mask) == 0) return true;
    if ((m & mask) == 0) return false;
    int tm = m & mask, fm = m & ~mask;
    ++my_decisions;
    ++sh->decisions;
    if (now() - t0 > opt_deadline) {
        ++sh->truncated;
        finish("deadline", "exploration budget");
    }
    // witness tells one side for free
    bool t_ok = false, f_ok = false, t_known = false, f_known = false;
    map<int, double> tw, fw;
    if (have_witness || pc.empty()) {
        Evaluator ev(witness);
        double v = ev.poly(p);
        if (!std::isnan(v) && std::fabs(v) > 1e-7) {
            int s = v < 0 ? LT : GT;
            if (tm & s) {
                t_ok = t_known = true;
                tw = witness;
            } else if (fm & s) {
                f_ok = f_known = true;
                fw = witness;
            }
        }
    }
    if (!t_known && (tm & ~EQ) && sample({{p, tm & ~EQ}}, tw, 40)) t_ok = t_known = true;
    if (!t_known) {
        int r = solve({{p, tm}}, opt_btime, &tw);
        ++sh->q_branch;
        t_ok = r != 0;
        if (r == 1) {
            map<int, double> w = witness;
            for (auto& k : tw) w[k.first] = k.second;
            tw = w;
        } else
            tw.clear();
    }
    if (!t_ok) {
        note_sign(p, fm);
        learn({p, fm});
        return false;
    }
    if (!f_known && (fm & ~EQ) && sample({{p, fm & ~EQ}}, fw, 40)) f_ok = f_known = true;
    if (!f_known) {
        int r = solve({{p, fm}}, opt_btime, &fw);
        ++sh->q_branch;
        f_ok = r != 0;
        if (r == 1) {
            map<int, double> w = witness;
            for (auto& k : fw) w[k.first] = k.second;
            fw = w;
        } else
            fw.clear();
    }
    if (!f_ok) {
        note_sign(p, tm);
        learn({p, tm});
        return true;
    }
    bool child = do_fork();
    // child explores the false side
    if (child) {
        witness      = fw;
        have_witness = !fw.empty();
        constrain(p, fm);
        return false;
    }
    witness      = tw;
    have_witness = !tw.empty();
    constrain(p, tm);
    return true;
}

//------------------------------------------------------------------------------------------------
// boxing
static const uint64_t TAG = 0xFFFAull << 48;
static inline bool issym(double d) {
    uint64_t u;
    memcpy(&u, &d, 8);
    return (u >> 48) == 0xFFFA;
}
static inline Id idof(double d) {
    uint64_t u;
    memcpy(&u, &d, 8);
    return (Id)(u & 0xffffffffu);
}
// option snap: terms that cannot exceed opt_snap in magnitude anywhere in the box are rounding residues of concrete
// double constants (a mean computed as the sum of thirds, say) and are dropped
static Id snap(Id a) {
    static std::unordered_map<Id, Id> memo;
    auto it = memo.find(a);
    if (it != memo.end()) return it->second;
    Poly out;
    bool cut = false;
    for (auto& t : polys[a]) {
        if (abs(t.second) < opt_snap) {
            Iv v     = iv_mono(monos[t.first]);
            double m = std::max(std::fabs(v.lo), std::fabs(v.hi));
            if (std::isfinite(m) && m * std::fabs(t.second.get_d()) < opt_snap) {
                cut = true;
                continue;
            }
        }
        out.push_back(t);
    }
    // two values whose coefficients agree to within 1e-11 are one value computed along two routes
    static std::map<vector<pair<int, long long>>, Id> canon;
    vector<pair<int, long long>> key;
    bool ok = true;
    for (auto& t : out) {
        double c = t.second.get_d();
        if (std::fabs(c) > 1e6 || std::fabs(c) < 1e-6) ok = false;
        else key.push_back({t.first, llround(c * 1e11)});
    }
    bool symb = out.size() > 1 || (out.size() == 1 && out[0].first != 0);
    Id r      = cut ? poly_id(std::move(out)) : a;
    if (ok && symb) {
        auto c = canon.find(key);
        if (c != canon.end())
            r = c->second;
        else
            canon[key] = r;
    }
    memo[a] = r;
    return r;
}
static double box(Id a) {
    Q q;
    if (opt_snap > 0) a = snap(a);
    if (is_const(a, &q)) return q.get_d();
    uint64_t u = TAG | (uint64_t)(uint32_t)a;
    double d;
    memcpy(&d, &u, 8);
    return d;
}
static Id lift(double d) { return issym(d) ? idof(d) : cst(Q(d)); }
static bool special(double d) { return !issym(d) && !std::isfinite(d); }

static Id inverse(Id p);  // p != 0 known
// Near congruence (option "near"): if the arguments of a new atom differ from those of an existing atom
// of the same kind only by rounding, the new value is the existing one plus a bounded difference.
static std::map<pair<int, string>, vector<int>> by_kind;
static size_t by_kind_upto = 0;
static bool tiny(Id a, Id b, double* w) {  // |a-b| <= w, w tiny
    if (a == b) {
        *w = 0;
        return true;
    }
    if (polys[a].size() > 400 || polys[b].size() > 400) return false;
    Id d = sub(a, b);
    Iv i = iv_of(d);
    *w   = std::max(std::fabs(i.lo), std::fabs(i.hi));
    if (*w < 1e-6) return true;
    Iv x = iv_of(a);  // relative for arguments scaled up by a tiny leading coefficient
    return *w < 1e-9 * std::min(std::fabs(x.lo), std::fabs(x.hi));
}
static bool near_atom(Kind k, const string& name, const vector<Id>& a, int n, Id* out) {
    if (!opt_near || atom_ix.count(std::make_tuple((int)k, name, a, n))) return false;
    for (; by_kind_upto < atoms.size(); ++by_kind_upto) {
        const Atom& t = atoms[by_kind_upto];
        by_kind[{(int)t.k, t.name}].push_back(by_kind_upto);
    }
    for (int i : by_kind[{(int)k, name}]) {
        const Atom t = atoms[i];
        if (t.n != n || t.a.size() != a.size()) continue;
        double w = 0, L = 1;
        bool ok = true;
        for (size_t j = 0; j < a.size() && ok; ++j) {
            double v;
            ok = tiny(a[j], t.a[j], &v);
            if (ok && !(k == ITE && j == 0)) w = std::max(w, v);
        }
        if (!ok) continue;
        Iv x = iv_of(a[0]), y = iv_of(t.a[0]);
        if (k == INV) {
            double m1 = x.lo > 0 ? x.lo : x.hi < 0 ? -x.hi : 0, m2 = y.lo > 0 ? y.lo : y.hi < 0 ? -y.hi : 0;
            if (!(m1 > 0 && m2 > 0)) continue;
            L = 1 / (m1 * m2);
        } else if (k == SQRT) {
            if (!(x.lo > 0 && y.lo > 0)) {
                w = std::sqrt(w);  // |sqrt a - sqrt b| <= sqrt|a-b|
            } else
                L = 1 / (std::sqrt(x.lo) + std::sqrt(y.lo));
        } else if (k == ROOT) {
            if (!(x.lo > 0 && y.lo > 0)) continue;
            L = 1 / (n * std::pow(std::min(x.lo, y.lo), (n - 1.0) / n)) * (1 + 1e-9);
        } else if (k == ABS) {
        } else if (k == FN) {
            if (name != "sin" && name != "cos" && name != "tanh" && name != "atan") continue;
        } else if (k == ITE) {
            // only min/max shapes are continuous: x-y is a multiple of the condition
            auto cont = [](Id c, Id p, Id q) {
                Id d = sub(p, q);
                if (polys[d].empty() || polys[c].empty()) return false;
                Q f = polys[d][0].second / polys[c][0].second;
                return scale(c, f) == d;
            };
            if (!cont(a[0], a[1], a[2]) || !cont(t.a[0], t.a[1], t.a[2])) continue;
        } else
            continue;
        w = w * L * (1 + 1e-9) + 1e-300;
        if (!(w < 1e-3)) continue;
        vector<Id> both = a;
        both.insert(both.end(), t.a.begin(), t.a.end());
        int d = get_atom(DELTA, std::to_string((int)k) + name, both, n, [&] { return Iv{-w, w}; });
        *out  = add(atom_val(i), atom_val(d));
        return true;
    }
    return false;
}
static Id inv_atom(int at) {
    Atom t = atoms[at];
    if (t.k == INV) return t.a[0];
    if (t.k == SQRT) return mul(atom_val(at), inverse(t.a[0]));
    Id v  = atom_val(at);
    int i = get_atom(INV, "", {v}, 0, [&] {
        Iv a = atoms[at].iv;
        if (a.lo > 0) return widen(1 / a.hi, 1 / a.lo);
        if (a.hi < 0) return widen(1 / a.hi, 1 / a.lo);
        return Iv();
    });
    inv_lead[i] = mono_id({{at, 1}});
    inv_rest[i] = cst(0);
    return atom_val(i);
}
static Id inverse(Id p) {
    Q q;
    if (is_const(p, &q)) return cst(Q(1 / q));
    Poly x = polys[p];
    // common monomial factor
    Mono g = common_mono(x);
    Id res = cst(1);
    for (auto& f : g) {
        Id ia = inv_atom(f.first);
        for (int k = 0; k < f.second; ++k) res = mul(res, ia);
    }
    Poly rest;
    {
        std::map<int, Q> acc;
        for (auto& t : x) {
            Mono m;
            mono_div(monos[t.first], g, m);
            acc[mono_id(m)] += t.second;
        }
        for (auto& e : acc) rest.push_back({e.first, e.second});
    }
    if (rest.size() == 1 && rest[0].first == 0) return scale(res, Q(1 / rest[0].second));
    size_t l = lead_ix(rest);
    Q lc     = rest[l].second;
    for (auto& t : rest) t.second /= lc;
    int lm  = rest[l].first;
    Id rp   = poly_id(Poly(rest));
    bool fresh = false;
    Id nr;
    if (near_atom(INV, "", {rp}, 0, &nr)) return scale(mul(res, nr), Q(1 / lc));
    int i = get_atom(INV, "", {rp}, 0, [&] {
        fresh = true;
        Iv a  = iv_of(rp);
        if (a.lo > 0 || a.hi < 0) return widen(1 / a.hi, 1 / a.lo);
        return Iv();
    });
    if (fresh) {
        Poly r2 = rest;
        r2.erase(r2.begin() + l);
        inv_lead[i] = lm;
        inv_rest[i] = poly_id(std::move(r2));
        red_cache.clear();
    }
    return scale(mul(res, atom_val(i)), Q(1 / lc));
}

extern "C" {
double sx_add(double a, double b) {
    if (!issym(a) && !issym(b)) return a + b;
    ++sh->ops;
    if (special(a)) return a;
    if (special(b)) return b;
    return box(add(lift(a), lift(b)));
}
double sx_sub(double a, double b) {
    if (!issym(a) && !issym(b)) return a - b;
    ++sh->ops;
    if (special(a)) return a;
    if (special(b)) return -b;
    return box(sub(lift(a), lift(b)));
}
static double inf_times(double inf, Id s) {  // inf (or nan) times symbolic
    if (std::isnan(inf)) return inf;
    if (decide(s, GT)) return inf;
    if (decide(s, LT)) return -inf;
    return NAN;
}
double sx_mul(double a, double b) {
    if (!issym(a) && !issym(b)) return a * b;
    ++sh->ops;
    if (special(a)) return inf_times(a, lift(b));
    if (special(b)) return inf_times(b, lift(a));
    return box(mul(lift(a), lift(b)));
}
double sx_div(double a, double b) {
    if (!issym(a) && !issym(b)) return a / b;
    ++sh->ops;
    if (special(b)) {
        if (std::isnan(b)) return b;
        return 0.0;
    }
    if (!issym(b)) {
        if (b == 0) {
            Id n = lift(a);
            if (decide(n, GT)) return std::signbit(b) ? -INFINITY : INFINITY;
            if (decide(n, LT)) return std::signbit(b) ? INFINITY : -INFINITY;
            return NAN;
        }
        if (special(a)) return a / b;
        return box(scale(lift(a), Q(1) / Q(b)));
    }
    Id d = lift(b);
    if (decide(d, EQ)) return sx_div(a, 0.0);
    if (special(a)) {
        if (std::isnan(a)) return a;
        return decide(d, GT) ? a : -a;
    }
    return box(mul(lift(a), inverse(d)));
}
double sx_neg(double a) {
    if (!issym(a)) return -a;
    return box(neg(lift(a)));
}
double sx_fma(double a, double b, double c) { return sx_add(sx_mul(a, b), c); }

int sx_fcmp(int pred, double a, double b) {
    // LLVM predicate encoding: bit0 EQ, bit1 GT, bit2 LT, bit3 unordered
    if (!issym(a) && !issym(b)) {
        bool un = std::isnan(a) || std::isnan(b);
        if (un) return (pred & 8) != 0;
        return ((pred & 1) && a == b) || ((pred & 2) && a > b) || ((pred & 4) && a < b);
    }
    int mask = ((pred & 1) ? EQ : 0) | ((pred & 2) ? GT : 0) | ((pred & 4) ? LT : 0);
    if (special(a)) {
        if (std::isnan(a)) return (pred & 8) != 0;
        return (mask & (a > 0 ? GT : LT)) != 0;
    }
    if (special(b)) {
        if (std::isnan(b)) return (pred & 8) != 0;
        return (mask & (b > 0 ? LT : GT)) != 0;
    }
    if (mask == 7) return 1;
    if (mask == 0) return 0;
    return decide(sub(lift(a), lift(b)), mask);
}
double sx_select(int pred, double a, double b, double x, double y) {
    bool plain = (!issym(a) && !issym(b)) || special(a) || special(b) || special(x) || special(y);
    if (plain || !opt_ite) return sx_fcmp(pred, a, b) ? x : y;
    int mask = ((pred & 1) ? EQ : 0) | ((pred & 2) ? GT : 0) | ((pred & 4) ? LT : 0);
    if (mask == 7) return x;
    if (mask == 0) return y;
    Id c  = sub(lift(a), lift(b));
    int m = quick_mask(c);
    if ((m & ~mask) == 0) return x;
    if ((m & mask) == 0) return y;
    Id ix = lift(x), iy = lift(y);
    if (ix == iy) return x;
    // canonical form: condition polynomial with positive leading coefficient, mask containing GT;
    // for min, max and |.| the tie does not matter
    Canon k = canon(c);
    if (k.f < 0) mask = ((mask & LT) ? GT : 0) | ((mask & GT) ? LT : 0) | (mask & EQ);
    Id cn = scale(c, Q(1) / k.f);
    if (!(mask & GT)) {
        mask = 7 ^ mask;
        std::swap(ix, iy);
    }
    Id dxy = sub(ix, iy);
    if (dxy == c || neg(dxy) == c) mask = (mask & LT) ? mask : GT;
    if (ix == neg(iy) && (ix == c || iy == c) && !(mask & LT)) mask = GT;
    Id nr;
    if (near_atom(ITE, "", {cn, ix, iy}, mask, &nr)) return box(nr);
    int at = get_atom(ITE, "", {cn, ix, iy}, mask, [&] {
        Iv p = iv_of(ix), q = iv_of(iy);
        return Iv{std::min(p.lo, q.lo), std::max(p.hi, q.hi)};
    });
    return box(atom_val(at));
}
double sx_fabs(double a) {
    if (!issym(a)) return std::fabs(a);
    Id p  = lift(a);
    int m = quick_mask(p);
    if ((m & LT) == 0) return a;
    if ((m & GT) == 0) return sx_neg(a);
    if (opt_abs_fork) return decide(p, GT | EQ) ? a : sx_neg(a);
    // sign normalisation and constant factor
    Canon k = canon(p);
    Q f     = k.f;
    Id cn   = scale(p, Q(1) / f);
    Id nr;
    if (near_atom(ABS, "", {cn}, 0, &nr)) return box(scale(nr, abs(f)));
    int at  = get_atom(ABS, "", {cn}, 0, [&] {
        Iv i = iv_of(cn);
        return widen(i.lo > 0 ? i.lo : i.hi < 0 ? -i.hi : 0, std::max(std::fabs(i.lo), std::fabs(i.hi)));
    });
    return box(scale(atom_val(at), abs(f)));
}
static double root(double a, int n) {
    Id p = lift(a);
    if (n % 2 == 0 || true) {
        if (opt_sqrt_nonneg) {
            if (quick_mask(p) & LT) constrain(p, GT | EQ);
        } else if (decide(p, LT))
            return NAN;
    }
    // normal form: positive powers and reciprocals leave the root, sqrt(a/b) = sqrt(a*b)/b
    Id out = cst(1);
    if (n == 2 && !polys[p].empty()) {
        Mono g = common_mono(polys[p]);
        for (auto& f : g) {
            const Atom t = atoms[f.first];
            if (!(t.iv.lo > 0) && !(t.iv.hi < 0)) continue;
            int e = t.k == INV ? (f.second + 1) / 2 : f.second / 2;
            if (!e) continue;
            out = mul(out, powi(t.iv.hi < 0 ? neg(atom_val(f.first)) : atom_val(f.first), e));
            Id base = t.k == INV ? t.a[0] : inverse(atom_val(f.first));
            p       = mul(p, powi(base, 2 * e));
        }
        if (is_const(p)) return box(scale(out, Q(std::sqrt(qd(polys[p].empty() ? Q(0) : polys[p][0].second)))));
    }
    if (n == 2 && !polys[p].empty()) {
        // arguments that differ by the square of a rational share one atom
        static std::unordered_map<Id, vector<pair<Id, Q>>> seen;
        Poly x = polys[p];
        Q f    = x[0].second;
        for (auto& t : x) t.second /= f;
        auto& known = seen[poly_id(std::move(x))];
        bool hit    = false;
        for (auto& k : known) {
            Q r = f / k.second;
            if (r <= 0 || !mpz_perfect_square_p(r.get_num().get_mpz_t()) || !mpz_perfect_square_p(r.get_den().get_mpz_t())) continue;
            out = scale(out, Q(sqrt(mpz_class(r.get_num())), sqrt(mpz_class(r.get_den()))));
            p   = k.first;
            hit = true;
            break;
        }
        if (!hit) known.push_back({p, f});
    }
    Id nr;
    if (near_atom(n == 2 ? SQRT : ROOT, "", {p}, n, &nr)) return box(mul(out, nr));
    int at = get_atom(n == 2 ? SQRT : ROOT, "", {p}, n, [&] {
        Iv i = iv_of(p);
        return widen(i.lo > 0 ? std::pow(i.lo, 1.0 / n) : 0, std::pow(std::max(0.0, i.hi), 1.0 / n));
    });
    return box(mul(out, atom_val(at)));
}
double sx_sqrt(double a) {
    if (!issym(a)) return std::sqrt(a);
    ++sh->ops;
    // perfect squares of a single monomial: sqrt(x^2) = |x|
    const Poly p = polys[idof(a)];
    if (p.size() == 1 && p[0].second > 0) {
        bool even = true;
        for (auto& f : monos[p[0].first])
            if (f.second % 2) even = false;
        double c = p[0].second.get_d();
        Q r(std::sqrt(c));
        if (even && r * r == p[0].second) {
            Mono h;
            for (auto& f : monos[p[0].first]) h.push_back({f.first, f.second / 2});
            Poly q;
            q.push_back({mono_id(h), r});
            return sx_fabs(box(poly_id(std::move(q))));
        }
    }
    return root(a, 2);
}
double sx_hypot(double a, double b) {
    if (!issym(a) && !issym(b)) return std::hypot(a, b);
    if (special(a) || special(b)) return std::hypot(issym(a) ? 0 : a, issym(b) ? 0 : b);
    double s = sx_add(sx_mul(a, a), sx_mul(b, b));
    if (issym(s)) note_sign(idof(s), GT | EQ);  // a sum of squares
    return sx_sqrt(s);
}
double sx_cbrt(double a) {
    if (!issym(a)) return std::cbrt(a);
    return root(a, 3);
}
double sx_powi(double a, int n) {
    if (!issym(a)) return std::pow(a, n);
    Id r = powi(lift(a), std::abs(n));
    if (n >= 0) return box(r);
    return sx_div(1.0, box(r));
}
static double fn1(const char* name, double a, Iv iv, double (*f)(double)) {
    if (!issym(a)) return f(a);
    ++sh->ops;
    Id nr;
    if (near_atom(FN, name, {lift(a)}, 0, &nr)) return box(nr);
    int at = get_atom(FN, name, {lift(a)}, 0, [&] { return iv; });
    return box(atom_val(at));
}
double sx_exp(double a) { return fn1("exp", a, {0, INFINITY}, std::exp); }
double sx_log(double a) {
    if (issym(a)) {
        if (decide(lift(a), LT)) return NAN;
        if (decide(lift(a), EQ)) return -INFINITY;
    }
    return fn1("log", a, {}, std::log);
}
double sx_pow(double a, double b) {
    if (!issym(a) && !issym(b)) return std::pow(a, b);
    ++sh->ops;
    if (issym(b)) {
        fprintf(stderr, "sx: symbolic exponent\n");
        abort();
    }
    if (special(a)) return std::pow(a, b);
    if (b == std::floor(b) && std::fabs(b) <= 40) return sx_powi(a, (int)b);
    for (int n = 2; n <= 12; ++n) {
        double k = std::round(b * n);
        if (std::fabs(k / n - b) < 1e-15 * std::max(1.0, std::fabs(b)) && std::fabs(k) <= 24) {
            if (n == 2) {
                double s = sx_sqrt(a);
                return issym(s) ? sx_powi(s, (int)k) : std::pow(s, k);
            }
            double s = root(a, n);
            if (!issym(s)) return s;
            return sx_powi(s, (int)k);
        }
    }
    fprintf(stderr, "sx: unsupported exponent %g\n", b);
    abort();
}
double sx_sin(double a) { return fn1("sin", a, {-1, 1}, std::sin); }
double sx_cos(double a) { return fn1("cos", a, {-1, 1}, std::cos); }
double sx_tan(double a) { return fn1("tan", a, {}, std::tan); }
double sx_tanh(double a) { return fn1("tanh", a, {-1, 1}, std::tanh); }
double sx_sinh(double a) { return fn1("sinh", a, {}, std::sinh); }
double sx_cosh(double a) { return fn1("cosh", a, {1, INFINITY}, std::cosh); }
double sx_atan(double a) { return fn1("atan", a, {-1.5707963267948968, 1.5707963267948968}, std::atan); }
#define UNSUP1(n)                                          \
    double sx_##n(double a) {                              \
        if (!issym(a)) return std::n(a);                   \
        fprintf(stderr, "sx: unsupported symbolic " #n "\n"); \
        abort();                                           \
    }
UNSUP1(asin)
UNSUP1(acos)
UNSUP1(log10)
UNSUP1(tgamma)
double sx_atan2(double a, double b) {
    if (!issym(a) && !issym(b)) return std::atan2(a, b);
    abort();
}
double sx_fmod(double a, double b) {
    if (!issym(a) && !issym(b)) return std::fmod(a, b);
    abort();
}
double sx_fmin(double a, double b) {
    if (special(a) && std::isnan(a)) return b;
    if (special(b) && std::isnan(b)) return a;
    return sx_select(4, a, b, a, b);
}
double sx_fmax(double a, double b) {
    if (special(a) && std::isnan(a)) return b;
    if (special(b) && std::isnan(b)) return a;
    return sx_select(2, a, b, a, b);
}
double sx_copysign(double a, double b) {
    if (!issym(b)) {
        if (!issym(a)) return std::copysign(a, b);
        double m = sx_fabs(a);
        return std::signbit(b) ? sx_neg(m) : m;
    }
    double m = sx_fabs(a);
    return sx_fcmp(3, b, 0.0) ? m : sx_neg(m);
}
// bit pattern used in a sign test
long sx_sbits(long b) {
    double a;
    memcpy(&a, &b, 8);
    if (!issym(a)) return b;
    return sx_fcmp(4, a, 0.0) ? -1 : 0;
}
// integer-valued results are case split
static double integral(double a, int how) {  // 0 floor 1 ceil 2 trunc 3 round
    Id p  = lift(a);
    Iv iv = iv_of(p);
    if (!std::isfinite(iv.lo) || !std::isfinite(iv.hi) || iv.hi - iv.lo > 64) {
        fprintf(stderr, "sx: integer conversion of unbounded value\n");
        abort();
    }
    for (double k = std::floor(iv.lo); k <= std::ceil(iv.hi); k += 1) {
        double lo = k, hi = k + 1;  // [lo,hi)
        bool in = false;
        if (how == 0 || (how == 2 && k > 0))
            in = sx_fcmp(3, a, lo) && sx_fcmp(4, a, hi);
        else if (how == 1 || (how == 2 && k < 0))
            in = sx_fcmp(2, a, k - 1) && sx_fcmp(5, a, k);
        else if (how == 2)
            in = sx_fcmp(2, a, -1.0) && sx_fcmp(4, a, 1.0);
        else
            in = sx_fcmp(3, a, k - 0.5) && sx_fcmp(4, a, k + 0.5);
        if (in) return k;
    }
    finish("cut", "");
    return 0;
}
double sx_floor(double a) { return issym(a) ? integral(a, 0) : std::floor(a); }
double sx_ceil(double a) { return issym(a) ? integral(a, 1) : std::ceil(a); }
double sx_trunc(double a) { return issym(a) ? integral(a, 2) : std::trunc(a); }
double sx_round(double a) { return issym(a) ? integral(a, 3) : std::round(a); }
double sx_toint(double a) { return issym(a) ? integral(a, 2) : a; }
double sx_concrete(double a) {
    if (issym(a)) {
        fprintf(stderr, "sx: symbolic value in long double\n");
        abort();
    }
    return a;
}
int sx_fpclass(double a, int mask) {
    if (issym(a)) {
        // finite, never nan/inf; sign/zero classes decided
        int fin = mask & (0x8 | 0x10 | 0x20 | 0x40 | 0x80 | 0x100);
        if (fin == (0x8 | 0x10 | 0x20 | 0x40 | 0x80 | 0x100)) return 1;
        if (!fin) return 0;
        Id p = lift(a);
        if (decide(p, EQ)) return (mask & 0x60) != 0;
        if (decide(p, GT)) return (mask & 0x100) != 0;
        return (mask & 0x8) != 0;
    }
    int c;
    if (std::isnan(a)) c = 2;
    else if (std::isinf(a)) c = a < 0 ? 4 : 0x200;
    else if (a == 0) c = std::signbit(a) ? 0x20 : 0x40;
    else if (std::fabs(a) < 2.2250738585072014e-308) c = a < 0 ? 0x10 : 0x80;
    else c = a < 0 ? 8 : 0x100;
    return (mask & c) != 0 || (c == 2 && (mask & 1));
}
// float: symbolic payload 22 bits (the rounding to float is not modelled)
float sx_fptrunc(double a) {
    if (!issym(a)) return (float)a;
    Id i = idof(a);
    if (i + 1 >= (1 << 22)) {
        fprintf(stderr, "sx: too many values for float\n");
        abort();
    }
    uint32_t u = 0xFFC00000u | (uint32_t)(i + 1);
    float f;
    memcpy(&f, &u, 4);
    return f;
}
double sx_fpext(float f) {
    uint32_t u;
    memcpy(&u, &f, 4);
    if ((u >> 22) == 0x3FF && (u & 0x3FFFFF)) return box((Id)(u & 0x3FFFFF) - 1);
    return f;
}

//------------------------------------------------------------------------------------------------
// harness interface
double sx_real(const char* name, double lo, double hi) {
    if (lo == hi) return lo;
    for (auto& a : atoms)
        if (a.k == VAR && a.name == name) return box(atom_val(&a - &atoms[0]));
    int at = new_atom(VAR, name, {}, 0, Iv{lo, hi});
    return box(atom_val(at));
}
int sx_choice(const char* name, int n) {
    for (int i = 0; i + 1 < n; ++i) {
        bool child = do_fork();
        if (!child) {
            // the parent takes the earliest remaining value
            choices.push_back({name, i});
            return i;
        }
    }
    choices.push_back({name, n - 1});
    return n - 1;
}
void sx_assume_ge(double a, double b) {
    Id d = sub(lift(a), lift(b));
    Q q;
    if (is_const(d, &q)) {
        if (q < 0) finish("cut", "");
        return;
    }
    constrain(d, GT | EQ);
    have_witness = have_witness && holds_at(witness, {{d, GT | EQ}});
}
void sx_assume_gt(double a, double b) {
    Id d = sub(lift(a), lift(b));
    Q q;
    if (is_const(d, &q)) {
        if (q <= 0) finish("cut", "");
        return;
    }
    constrain(d, GT);
    have_witness = have_witness && holds_at(witness, {{d, GT}});
}
void sx_assume_eq(double a, double b) {
    Id d = sub(lift(a), lift(b));
    Q q;
    if (is_const(d, &q)) {
        if (q != 0) finish("cut", "");
        return;
    }
    constrain(d, EQ);
    // c*y^2 + rest = 0 with y absent from rest: rewrite y^2 from now on
    int best = -1;
    for (auto& t : polys[d]) {
        const Mono& m = monos[t.first];
        if (m.size() == 1 && m[0].second == 2 && atoms[m[0].first].k == VAR && atoms[m[0].first].sq < 0) {
            bool once = true;
            for (auto& u : polys[d])
                if (u.first != t.first && exp_of(monos[u.first], m[0].first)) once = false;
            if (once && m[0].first > best) best = m[0].first;
        }
    }
    if (best >= 0) {
        Poly r = polys[d];
        int mi = mono_id({{best, 2}});
        Q c;
        for (auto& t : r)
            if (t.first == mi) c = t.second;
        r.erase(std::remove_if(r.begin(), r.end(), [&](const pair<int, Q>& t) { return t.first == mi; }), r.end());
        for (auto& t : r) t.second /= -c;
        atoms[best].sq = poly_id(std::move(r));
        red_cache.clear();
    }
    have_witness = have_witness && holds_at(witness, {{d, EQ}});
}
static void observe2(const string& n, double a) {
    Obs o;
    o.name = n;
    o.sym  = issym(a);
    o.v    = o.sym ? lift(a) : 0;
    o.c    = o.sym ? 0 : a;
    observed.push_back(o);
}
static void push_assert(const char* name, int kind, double a, double b, double tol) {
    Assertion s;
    s.name = name;
    s.kind = kind;
    s.tol  = tol;
    s.cond = 1;
    s.npc  = pc.size();
    if (special(a) || special(b)) {
        s.poisoned = true;
        if (kind == 0)
            s.cond = !issym(a) && !issym(b) && a == b;
        else {
            double x = issym(a) ? 0 : a, y = issym(b) ? 0 : b;
            s.cond   = x >= y;
        }
        s.d = 0;
    } else
        s.d = sub(lift(a), lift(b));
    asserts.push_back(s);
    if (observed.size() < 400) {
        observe2(string("A:") + name, a);
    }
}
void sx_close(const char* name, double a, double b, double tol) { push_assert(name, 0, a, b, tol); }
void sx_ge(const char* name, double a, double b, double tol) { push_assert(name, 1, a, b, tol); }
void sx_true(const char* name, int cond) {
    Assertion s;
    s.name = name;
    s.kind = 2;
    s.cond = cond;
    s.d    = 0;
    s.tol  = 0;
    s.npc  = pc.size();
    asserts.push_back(s);
}
void sx_observe(const char* name, double v) { observe2(name, v); }
int sx_is_native() { return 0; }
int sx_thorough() {
    const char* t = getenv("SX_TIER");
    return t && !strcmp(t, "thorough");
}
void sx_cut() { finish("cut", ""); }
int sx_known(double v) { return !issym(v); }
double sx_named(const char*, double v) {
    if (!issym(v)) return v;
    return box(define(lift(v)));
}
void sx_option(const char* name, double v) {
    string n = name;
    if (n == "ite") opt_ite = v != 0;
    else if (n == "abs_fork") opt_abs_fork = v != 0;
    else if (n == "abort_ok") opt_abort_ok = v != 0;
    else if (n == "sqrt_nonneg") opt_sqrt_nonneg = v != 0;
    else if (n == "snap") opt_snap = v;
    else if (n == "near") opt_near = v != 0;
    else if (n == "qtime") opt_qtime = v;
    else if (n == "btime") opt_btime = v;
    else if (n == "maxterms") opt_maxterms = (size_t)v;
    else if (n == "maxpaths") opt_maxpaths = (long)v;
}

}  // extern C
// rewrites |p| and (c ? a : b) whose condition is decided on this path
static std::unordered_map<Id, Id> rs_cache;
static std::unordered_map<int, Id> rs_atom;
static Id resolve(Id a);
static Id resolve_atom(int i) {
    auto it = rs_atom.find(i);
    if (it != rs_atom.end()) return it->second;
    Atom t = atoms[i];
    Id r   = atom_val(i);
    vector<Id> b;
    for (Id x : t.a) b.push_back(resolve(x));
    switch (t.k) {
        case INV:
            if (b != t.a) r = inverse(b[0]);
            break;
        case ABS: {
            int m = quick_mask(b[0]);
            if (!(m & LT))
                r = b[0];
            else if (!(m & GT))
                r = neg(b[0]);
            else if (b != t.a)
                r = lift(sx_fabs(box(b[0])));
        } break;
        case ITE: {
            int m = quick_mask(b[0]);
            if (!(m & ~t.n))
                r = b[1];
            else if (!(m & t.n))
                r = b[2];
            else if (b != t.a)
                r = atom_val(get_atom(ITE, "", b, t.n, [&] { return t.iv; }));
        } break;
        case SQRT:
        case ROOT:
        case FN:
            if (b != t.a) r = atom_val(get_atom(t.k, t.name, b, t.n, [&] { return t.iv; }));
            break;
        case DEF:
            if (b != t.a) r = define(b[0]);
            break;
        default: break;
    }
    return rs_atom[i] = r;
}
static Id resolve(Id a) {
    auto it = rs_cache.find(a);
    if (it != rs_cache.end()) return it->second;
    const Poly p = polys[a];
    bool ch      = false;
    for (auto& t : p)
        for (auto& f : monos[t.first]) {
            int at = f.first;
            if (resolve_atom(at) != atom_val(at)) ch = true;
        }
    Id r = a;
    if (ch) {
        r = cst(0);
        for (auto& t : p) {
            Id q         = cst(t.second);
            const Mono m = monos[t.first];
            for (auto& f : m) q = mul(q, powi(resolve_atom(f.first), f.second));
            r = add(r, q);
        }
    }
    return rs_cache[a] = r;
}

extern "C" {
static std::map<pair<Id, int>, Id> dcache;
static Id dpoly(Id a, int x);
static Id datom(int i, int x) {
    if (i == x) return cst(1);
    Atom t = atoms[i];
    switch (t.k) {
        case VAR: return cst(0);
        case INV: return neg(mul(mul(atom_val(i), atom_val(i)), dpoly(t.a[0], x)));
        case SQRT: {
            Id d = dpoly(t.a[0], x);
            if (polys[d].empty()) return d;
            return scale(mul(d, mul(atom_val(i), inverse(t.a[0]))), Q(1, 2));
        }
        case ROOT: {
            Id d = dpoly(t.a[0], x);
            if (polys[d].empty()) return d;
            return scale(mul(d, mul(atom_val(i), inverse(t.a[0]))), Q(1, t.n));
        }
        case DEF: return dpoly(t.a[0], x);
        case ABS: {
            Id d = dpoly(t.a[0], x);
            if (polys[d].empty()) return d;
            int s = get_atom(ITE, "", {t.a[0], cst(1), cst(-1)}, GT, [] { return Iv{-1, 1}; });
            return mul(atom_val(s), d);
        }
        case ITE: {
            Id p = dpoly(t.a[1], x), q = dpoly(t.a[2], x);
            if (p == q) return p;
            int s = get_atom(ITE, "", {t.a[0], p, q}, t.n, [] { return Iv(); });
            return atom_val(s);
        }
        case FN: {
            Id d = dpoly(t.a[0], x);
            if (polys[d].empty()) return d;
            double v = box(t.a[0]);
            if (t.name == "sin") return mul(d, lift(sx_cos(v)));
            if (t.name == "cos") return neg(mul(d, lift(sx_sin(v))));
            if (t.name == "exp") return mul(d, atom_val(i));
            if (t.name == "tanh") return mul(d, sub(cst(1), mul(atom_val(i), atom_val(i))));
            abort();
        }
        default: abort();
    }
}
static Id dpoly(Id a, int x) {
    auto k  = std::make_pair(a, x);
    auto it = dcache.find(k);
    if (it != dcache.end()) return it->second;
    Id r         = cst(0);
    const Poly p = polys[a];
    for (auto& t : p) {
        Mono m = monos[t.first];
        for (auto& f : m) {
            Id d = datom(f.first, x);
            if (polys[d].empty()) continue;
            Mono rest;
            mono_div(m, {{f.first, 1}}, rest);
            Poly q;
            q.push_back({mono_id(rest), t.second * f.second});
            r = add(r, mul(poly_id(std::move(q)), d));
        }
    }
    dcache[k] = r;
    return r;
}
double sx_diff(const char* name, double y, double x) {
    DiffRec r;
    r.name = name;
    r.sym  = false;
    r.c    = 0;
    double res = 0;
    if (issym(y)) {
        if (!issym(x)) abort();
        const Poly& p = polys[idof(x)];
        if (p.size() != 1 || p[0].second != 1 || monos[p[0].first].size() != 1) {
            fprintf(stderr, "sx: sx_diff by a non-input\n");
            abort();
        }
        int at = monos[p[0].first][0].first;
        dcache.clear();
        res = box(dpoly(idof(y), at));
    }
    r.sym = issym(res);
    if (r.sym)
        r.v = idof(res);
    else
        r.c = res;
    diffs.push_back(r);
    return res;
}

// aborts of the code under test end the path
void __assert_fail(const char* e, const char* f, unsigned l, const char*) noexcept {
    string m = string("assert: ") + e + " at " + f + ":" + std::to_string(l);
    if (sh && in_harness) finish("abort", m);
    fprintf(stderr, "%s\n", m.c_str());
    _exit(3);
}
}  // extern C

static void on_signal(int s) {
    signal(s, SIG_DFL);
    if (sh && in_harness && !finished) finish("signal", string("signal ") + std::to_string(s));
    _exit(4);
}

int main(int argc, char** argv) {
    auto env = [](const char* n, double d) {
        const char* s = getenv(n);
        return s ? atof(s) : d;
    };
    opt_deadline = env("SX_DEADLINE", 600);
    opt_qtime    = env("SX_QTIME", opt_qtime);
    opt_btime    = env("SX_BTIME", opt_btime);
    opt_maxpaths = (long)env("SX_MAXPATHS", (double)opt_maxpaths);
    if (argc > 1) out_dir = argv[1];
    if (getenv("SX_SOLVER")) solver_bin = getenv("SX_SOLVER");
    t0 = now();
    sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)sh, 0, sizeof *sh);
    sem_init(&sh->tokens, 1, (unsigned)env("SX_JOBS", 8) - 1);
    sem_init(&sh->lock, 1, 1);
    sh->paths = 1;
    mono_id({});
    cst(0);
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL}) signal(s, on_signal);
    pid_t p = fork();
    if (p == 0) {
        in_harness = true;
        string st = "ok", msg;
        try {
            sx_harness();
        } catch (std::exception& e) {
            st  = "exception";
            msg = e.what();
        } catch (...) {
            st = "exception";
        }
        finish(st, msg);
        _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    // stragglers: descendants with tokens are awaited by their parents, so everything is done here
    FILE* f = fopen((out_dir + "/summary.json").c_str(), "w");
    fprintf(f,
            "{\"exit\":%d,\"forks\":%ld,\"decisions\":%ld,\"q_branch\":%ld,\"q_assert\":%ld,\"q_lin\":%ld,\"q_nl\":%ld,"
            "\"q_unknown\":%ld,\"ops\":%ld,\"truncated\":%ld,\"wall_s\":%.2f}\n",
            st, sh->forks, sh->decisions, sh->q_branch, sh->q_assert, sh->q_lin, sh->q_nl, sh->q_unknown, sh->ops,
            sh->truncated, now() - t0);
    fclose(f);
    return 0;
}
