// Native side: the same harness over the untouched code, inputs read from a witness file.
#include "sx.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <string>
#include <unistd.h>
static std::map<std::string, double> in;
static int nfail = 0;
extern "C" {
double sx_real(const char* n, double lo, double hi) {
    auto it = in.find(n);
    if (it == in.end()) return 0.5 * (lo + hi);
    double v = it->second;
    return v < lo ? lo : (v > hi ? hi : v);
}
int sx_choice(const char* n, int k) {
    auto it = in.find(std::string("choice:") + n);
    return it == in.end() ? 0 : (int)it->second % k;
}
static void assume(bool c) {
    if (!c) printf("ASSUME-FALSE\n");
}
void sx_assume_ge(double a, double b) { assume(a >= b - 1e-9 * (1 + std::fabs(b))); }
void sx_assume_gt(double a, double b) { assume(a > b - 1e-9 * (1 + std::fabs(b))); }
void sx_assume_eq(double a, double b) { assume(std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b))); }
void sx_close(const char* n, double a, double b, double tol) {
    printf("OBS A:%s %.17g\n", n, a);
    if (!(std::fabs(a - b) <= tol)) {
        ++nfail;
        printf("FAIL %s: %.17g vs %.17g (tol %g)\n", n, a, b, tol);
    }
}
void sx_ge(const char* n, double a, double b, double tol) {
    printf("OBS A:%s %.17g\n", n, a);
    if (!(a >= b - tol)) {
        ++nfail;
        printf("FAIL %s: %.17g < %.17g (tol %g)\n", n, a, b, tol);
    }
}
void sx_true(const char* n, int c) {
    if (!c) {
        ++nfail;
        printf("FAIL %s\n", n);
    }
}
void sx_observe(const char* n, double v) { printf("OBS %s %.17g\n", n, v); }
double sx_diff(const char* n, double, double) {
    auto it = in.find(std::string("diff:") + n);
    return it == in.end() ? NAN : it->second;
}
double sx_named(const char*, double v) { return v; }
int sx_known(double) { return 1; }
int sx_is_native() { return 1; }
int sx_thorough() {
    const char* t = getenv("SX_TIER");
    return t && !strcmp(t, "thorough");
}
void sx_option(const char*, double) {}
void sx_cut() {
    printf("CUT\n");
    fflush(stdout);
    _exit(0);
}
}
int main(int argc, char** argv) {
    if (argc > 1) {
        std::ifstream f(argv[1]);
        std::string n;
        double v;
        std::string line;
        while (std::getline(f, line)) {
            auto p = line.rfind('\t');
            if (p == std::string::npos) continue;
            in[line.substr(0, p)] = strtod(line.c_str() + p + 1, nullptr);
        }
    }
    try {
        sx_harness();
    } catch (std::exception& e) {
        ++nfail;
        printf("FAIL uncaught-exception: %s\n", e.what());
    } catch (...) {
        ++nfail;
        printf("FAIL uncaught-exception\n");
    }
    printf("DONE %d\n", nfail);
    fflush(stdout);
    _exit(nfail ? 1 : 0);
}
