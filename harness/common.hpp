#pragma once
#include "general_definitions.hpp"
#include "sx.h"
#include <cstdio>
#include <string>
namespace hx {
inline std::string nm(const std::string& s) { return s; }
// run parameter: "K" or "K=V" in the run's parameter list
inline double param(const std::string& k, double def = 0) {
    const char* e = getenv("SX_PARAMS");
    std::string s = " " + std::string(e ? e : "") + " ";
    size_t i = s.find(" " + k + "=");
    if (i != std::string::npos) return atof(s.c_str() + i + k.size() + 2);
    return s.find(" " + k + " ") != std::string::npos ? 1 : def;
}
template <typename... T>
std::string nm(const std::string& s, T... t) {
    std::string r = s;
    int d[]       = {(r += "." + std::to_string(t), 0)...};
    (void)d;
    return r;
}
template <typename... T>
double real(double lo, double hi, const std::string& s, T... t) {
    return sx_real(nm(s, t...).c_str(), lo, hi);
}
template <typename... T>
void close(double a, double b, double tol, const std::string& s, T... t) {
    sx_close(nm(s, t...).c_str(), a, b, tol);
}
template <typename... T>
void ge(double a, double b, double tol, const std::string& s, T... t) {
    sx_ge(nm(s, t...).c_str(), a, b, tol);
}
template <typename... T>
double diff(double y, double x, const std::string& s, T... t) {
    return sx_diff(nm(s, t...).c_str(), y, x);
}
template <typename... T>
void ok(int c, const std::string& s, T... t) {
    sx_true(nm(s, t...).c_str(), c);
}
// unit vector (nx, ny): two symbols constrained to the circle
inline void unit(const std::string& s, double& nx, double& ny) {
    nx = sx_real((s + ".x").c_str(), -1, 1);
    ny = sx_real((s + ".y").c_str(), -1, 1);
    sx_assume_eq(nx * nx + ny * ny, 1.0);
}
}
