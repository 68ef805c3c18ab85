// Structured graphs named by a string family:labelling
#pragma once
#include "mc.hpp"
namespace graphs {
// weight digits of a structured graph: 0..8 inside the threshold, 9 outside; lab relabels the points
inline std::string named(int n, const std::string& spec) {
  auto p = mc::split(spec, ':'); const std::string& f = p[0]; int lab = mc::toi(p[1]);
  auto w = [&](int a, int b) -> int {   // a < b
    int g = std::min(b - a, n - b + a);
    if(f == "full") return 1;
    if(f == "fullmix") return (a * 7 + b * 3 + a * b) % 6;
    if(f == "fullone") return a == 0 && b == 1 ? 5 : a == 1 && b == n - 1 ? 3 : 1;
    if(f == "fullend") return a == n - 3 && b == n - 2 ? 6 : a == 1 && b == n - 2 ? 3 : 1;
    if(f == "fullup") return std::min(8, b);
    if(f == "fulldown") return std::max(0, 8 - a);
    if(f == "cycle") return g == 1 ? 1 + a % 2 : 9;
    if(f == "wheel") { if(a == 0) return b % 3; int m = n - 1, h = std::min(b - a, m - b + a); return h == 1 ? 1 : 9; }
    if(f == "cone") { if(a == 0) return 3; int m = n - 1, h = std::min(b - a, m - b + a); return h == 1 ? 1 : 9; }
    if(f == "tree") return a == (b - 1) / 2 ? b % 4 : 9;
    if(f == "circ2") return g <= 2 ? g : 9;
    if(f == "circ3") return g <= 3 ? g : 9;
    if(f == "bip") return a % 2 != b % 2 ? (a + b) / 2 % 3 : 9;
    if(f == "star") return a == 0 ? 1 : (b == a + 1 && a % 3 == 1) ? 2 : 9;
    if(f == "levels") return (a * 7 + b * 3) % 5 + (b - a > n / 2 ? 5 : 0);
    if(f == "fan") return a == 0 || b == a + 1 ? 1 + a % 2 : 9;
    if(f == "ladder") return (b == a + 2 || (b == a + 1 && a % 2 == 0)) ? a % 3 : 9;
    if(f == "blocks") return a / 5 == b / 5 ? (a + b) % 4 : 9;
    if(f == "octa") return b == a + n / 2 ? 9 : 1 + a % 2;
    return 9;
  };
  std::vector<int> perm(n); for(int i = 0; i < n; i++) perm[i] = i;
  int step = 1 + lab; while(std::__gcd(step, n) != 1) step++;
  for(int i = 0; i < n; i++) perm[i] = (i * step + lab) % n;
  std::string s; for(int i = 0; i < n; i++) for(int j = i + 1; j < n; j++) s += char('0' + std::min(9, w(std::min(perm[i], perm[j]), std::max(perm[i], perm[j]))));
  return s;
}
}  // namespace graphs
