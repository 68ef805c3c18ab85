// Point clouds named by a string:  g<d><digits>  points on a grid with d coordinates;  family:size:stride
#pragma once
#include "mc.hpp"
namespace cloud {
using Cloud = std::vector<std::vector<double>>;

inline Cloud family(const std::string& name, int n) {
  Cloud c; const double pi = std::acos(-1.0);
  auto poly = [&](int k, double r, double x, double y) { for(int i = 0; i < k; i++) c.push_back({x + r * std::cos(2 * pi * i / k + 0.1), y + r * std::sin(2 * pi * i / k + 0.1)}); };
  if(name == "poly") poly(n, 1, 0, 0);
  else if(name == "line") for(int i = 0; i < n; i++) c.push_back({0.3 * i});
  else if(name == "power") for(int i = 0; i < n; i++) c.push_back({std::pow(1.5, i) * 0.1, 0.25});
  else if(name == "same") for(int i = 0; i < n; i++) c.push_back({1.5, -2, 7});
  else if(name == "pairs") for(int i = 0; i < n; i++) c.push_back({double(i / 2) * 0.7, double(i % 2) * 0.2});
  else if(name == "two") { poly(n / 2, 0.8, 0, 0); poly(n - n / 2, 0.8, 9, 1); }
  else if(name == "eight") { poly(n / 2, 0.8, 0, 0); poly(n - n / 2, 0.8, 1.7, 0); }
  else if(name == "rings") { poly(n / 2, 0.5, 0, 0); poly(n - n / 2, 1.2, 0, 0); }
  else if(name == "grid") for(int i = 0; i < n; i++) c.push_back({double(i % 3) * 0.6, double(i / 3) * 0.6});
  else if(name == "cross") { for(int i = 0; i < n; i++) { std::vector<double> x(4, 0); x[(i / 2) % 4] = (i % 2 ? -0.5 : 0.5) * (1 + 0.3 * (i / 8)); c.push_back(x); } }      // octahedron, 16-cell
  else if(name == "cube") for(int i = 0; i < n; i++) c.push_back({double(i & 1) * 0.5, double(i >> 1 & 1) * 0.55, double(i >> 2 & 1) * 0.6, double(i >> 3) * 0.7});
  else if(name == "icosa") { double p = (1 + std::sqrt(5.0)) / 2; for(int i = 0; i < n; i++) { double a = (i & 1 ? -0.5 : 0.5), b = (i & 2 ? -0.5 : 0.5) * p; int k = i / 4 % 3; std::vector<double> x(3, 0); x[(k + 1) % 3] = a; x[(k + 2) % 3] = b; c.push_back(x); } }
  else if(name == "helix") for(int i = 0; i < n; i++) c.push_back({std::cos(1.1 * i) * 0.7, std::sin(1.1 * i) * 0.7, 0.15 * i});
  else if(name == "spread") for(int i = 0; i < n; i++) c.push_back({double((i * i * 7 + 3 * i) % 11) * 0.31, double((i * i * i + 5) % 13) * 0.23});
  else if(name == "blobs") for(int i = 0; i < n; i++) { static const double at[] = {0, 9, 100, 240, 500, 41}; c.push_back({at[i / 2 % 6] + i / 12 * 7 + (i % 2) * (i / 2 % 3 == 2 ? 10 : 1 + 0.13 * (i / 2)), 0.01 * i}); }
  else if(name == "gaps") for(int i = 0; i < n; i++) c.push_back({0.1 * i * i + 0.013 * (i * i * i % 7), 0.2 * (i % 3)});
  else if(name == "high") for(int i = 0; i < n; i++) { std::vector<double> x(12, 0); x[i % 12] = 0.4; x[(i * 5 + 1) % 12] -= 0.21; if(i >= 12) x[(i * 7) % 12] += 0.1 * (i / 12); c.push_back(x); }
  else if(name == "far") for(int i = 0; i < n; i++) c.push_back({1e5 + std::cos(0.9 * i) * 0.8, -3e4 + std::sin(0.9 * i) * 0.8, -7e3 + 0.03125 * i});
  else if(name == "tiny") for(int i = 0; i < n; i++) c.push_back({1e-3 * std::cos(0.7 * i), 1e-3 * std::sin(0.7 * i)});
  else if(name == "jit") for(int i = 0; i < n; i++) c.push_back({std::fmod(i * 0.6180339887, 1.0) * 3, std::fmod(i * 0.7548776662 + 0.3, 1.0) * 2});
  return c;
}
static const std::vector<const char*> FAM = {"poly", "line", "power", "same", "pairs", "two", "eight", "rings", "grid", "cross", "cube", "icosa", "helix", "spread", "high", "far"};
inline double dist(const std::vector<double>& a, const std::vector<double>& b) { double s = 0; for(size_t i = 0; i < a.size(); i++) s += (a[i] - b[i]) * (a[i] - b[i]); return std::sqrt(s); }
inline Cloud points(const std::string& c) {
  Cloud pts;
  if(c[0] == 'g' && isdigit(c[1])) {
    int d = c[1] - '0'; static const double SC[] = {0.5, 0.55, 0.61, 0.47};
    for(size_t i = 2; i < c.size(); i += d) { std::vector<double> x; for(int k = 0; k < d; k++) x.push_back(mc::dig(c[i + k]) * (d == 1 ? 0.5 : SC[k]) - 0.7); pts.push_back(x); }
  } else {
    auto p = mc::split(c, ':'); auto base = family(p[0], mc::toi(p[1])); int n = base.size(), k = mc::toi(p[2]);
    for(int i = 0; i < n; i++) pts.push_back(base[(i * k) % n]);
  }
  return pts;
}
}  // namespace cloud
