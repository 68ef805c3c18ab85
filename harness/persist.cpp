// Persistence intervals computed by the persistence stage over a complex built from a distance matrix.
// Case: stage|rep|n|dim|eps|weights[|embedding]   stage F = fast stage; weights digits index LEVEL, eps a level digit:
// stage P = persistence stage (pairs), which also reports the classes still open at the threshold.
// the threshold is just above LEVEL[eps] (strictly between levels, so inclusive/exclusive does not matter).
#include "vr.hpp"
#include "pipePacket.hpp"
#include "basePipe.hpp"
#ifndef WHAT
#define WHAT 1   // 0: components only (dimension 0); 1: loops and voids; 2: pairs stage, everything
#endif
const char* mc::harness_name = "persist";
size_t mc::harness_batch = 4000;
double mc::harness_case_timeout = 10;
// Embeddings of the levels into the reals: s standard, z lowest level is zero (coincident points),
// n nearly equal and large (equal in single precision, closer than a thousandth), g wide geometric range,
// u one unit in the last place apart, h between 2 and 4 with the threshold exactly twice one of the levels.
static double level(int k, char e = 's') { return e == 'z' ? 0.5 * k : e == 'n' ? 4096 + k * 1e-4 : e == 'g' ? std::pow(100.0, k) / 100 : e == 'u' ? 1 + std::ldexp(double(k), -52) : e == 'h' ? 2 + 0.25 * k : 0.5 * (k + 1); }
static double between(int k, char e) { return e == 'n' ? level(k, e) + 5e-5 : e == 'g' ? level(k, e) * 3 : e == 'u' ? 1.5 : e == 'h' ? 2 * level(k / 2, e) : level(k, e) + 0.25; }

// all weak orders of m items as level words (surjective onto an initial segment)
static void weak_orders(int m, const std::function<void(const std::vector<int>&)>& f) {
  for(int k = 1; k <= m; k++) mc::words(m, k, [&](const std::vector<int>& w) {
    unsigned seen = 0; for(int x : w) seen |= 1u << x;
    if(seen == (1u << k) - 1) f(w);
  });
}

// Cycles of n points: neighbours at levels 0..1 (every word), two steps away at 3..5 (four patterns), further apart
// higher still, in four labellings; long chains have to be summed to reduce these.
static void cycles(mc::Explorer& E, const std::function<void(int, int, const std::vector<int>&)>& f) {
  for(int n = 6; n <= (E.thorough() ? 10 : E.small() ? 7 : 8); n++) mc::words(n, 2, [&](const std::vector<int>& w) {
    if(n > 8 && w[0]) return;
    for(int pat = 0; pat < 4; pat++) for(int lab = 0; lab < 4; lab++) {
      std::vector<int> pos(n);   // position on the cycle of each point
      int stride = lab == 1 ? n - 1 : 1;
      for(int i = 0; i < n; i++) pos[i] = lab == 2 ? (i % 2 ? n - 1 - i / 2 : i / 2) : lab == 3 ? (i < (n + 1) / 2 ? 2 * i : 2 * (i - (n + 1) / 2) + 1) : (i * stride) % n;
      std::vector<int> lev;
      for(int i = 0; i < n; i++) for(int j = i + 1; j < n; j++) {
        int a = std::min(pos[i], pos[j]), b = std::max(pos[i], pos[j]), h = std::min(b - a, n - (b - a));
        int st = (b - a == h) ? a : b;   // where the shorter way starts
        lev.push_back(h == 1 ? w[st] : h == 2 ? 3 + (pat == 0 ? 0 : pat == 1 ? st % 2 : pat == 2 ? (3 * st) / n : 2 - (3 * st) / n) : 6 + 2 * (h - 3) + (pat > 1 && st % 2));
      }
      int top = 0; for(int x : lev) top = std::max(top, x);
      f(n, top, lev);
    }
  });
}
// Strict orders of all the distances of n points: ranks under the maps x -> a*x+b and x -> a/(x+b) modulo a prime
static void orders(mc::Explorer& E, const std::function<void(int, int, const std::vector<int>&)>& f) {
  static const int P[] = {0, 0, 0, 0, 0, 11, 17, 23, 29, 37};
  for(int n = 6; n <= (E.small() ? 7 : 9); n++) for(int inv = 0; inv < 2; inv++) { int m = n * (n - 1) / 2, p = P[n];
    for(int a = 1; a < p; a++) for(int b = 0; b < p; b++) {
      if(n == 9 && !E.thorough() && (a + 3 * b) % 4) continue;
      std::vector<int> v; for(int x = 0; x < m; x++) { int y = (x + b) % p, r = 0; if(!inv) r = (a * x + b) % p; else if(y) { for(r = 1; r * y % p != a; r++); } v.push_back(r); }
      std::vector<int> t = v; std::sort(t.begin(), t.end()); for(int& x : v) x = std::lower_bound(t.begin(), t.end(), x) - t.begin();
      f(n, m - 1, v);
    } }
}
// Larger, sparse complexes, given by name:  =family:labelling:order  (levels of the n(n-1)/2 pairs)
static std::vector<int> named(int n, const std::string& spec) {
  auto p = mc::split(spec.substr(1), ':'); const std::string& fam = p[0]; int lab = mc::toi(p[1]), ord = mc::toi(p[2]); const int OUT = 1000;
  std::vector<int> at(n); for(int i = 0; i < n; i++) at[i] = lab == 0 ? i : lab == 1 ? n - 1 - i : lab == 2 ? (i % 2 ? n - 1 - i / 2 : i / 2) : lab == 3 ? (i < (n + 1) / 2 ? 2 * i : 2 * (i - (n + 1) / 2) + 1) : (i + n / 2) % n;
  std::vector<std::pair<int, int>> e; std::map<std::pair<int, int>, int> far;   // edges in a fixed order
  auto add = [&](int a, int b) { if(a != b) { auto q = std::make_pair(std::min(a, b), std::max(a, b)); if(std::find(e.begin(), e.end(), q) == e.end()) e.push_back(q); } };
  std::string base = fam; bool closed = fam.back() == '!';   // trees with ! : every other pair at the level where the tree joins it
  if(closed) base.pop_back();
  if(base == "path") for(int i = 1; i < n; i++) add(i - 1, i);
  else if(base == "star") for(int i = 1; i < n; i++) add(0, i);
  else if(base == "binary") for(int i = 1; i < n; i++) add((i - 1) / 2, i);
  else if(base == "comb") for(int i = 1; i < n; i++) add(i % 2 ? i - 1 : i - 2, i);
  else if(base == "mix") for(int i = 1; i < n; i++) add((i * 7 + 3) % i, i);
  else if(base == "forest") { for(int i = 3; i < n; i++) add(i - 3, i); }
  else if(base == "ring") { for(int i = 0; i < n; i++) add(i, (i + 1) % n); }
  else if(base == "ring2") { for(int i = 0; i < n; i++) add(i, (i + 1) % n); for(int i = 0; i < n; i++) add(i, (i + 2) % n); }
  else if(base == "ring3") { for(int k = 1; k <= 3; k++) for(int i = 0; i < n; i++) add(i, (i + k) % n); }
  else if(base == "twins") { int h = n / 2; for(int k = 1; k <= 2; k++) { for(int i = 0; i < h; i++) add(i, (i + k) % h); for(int i = 0; i < n - h; i++) add(h + i, h + (i + k) % (n - h)); } add(0, h); }
  else if(base == "theta") { int h = n / 3; for(int i = 0; i + 1 < n; i++) if(i != h && i != 2 * h) add(i, i + 1); add(0, h + 1); add(0, 2 * h + 1); add(h, 2 * h); add(h, n - 1); for(int i = 0; i + 2 < n; i++) add(i, i + 2); }
  else if(base == "wheel") { for(int i = 1; i < n; i++) add(i, i % (n - 1) + 1); for(int i = 1; i < n; i++) add(0, i); }
  else if(base == "susp") { for(int i = 2; i < n; i++) add(i, i + 1 < n ? i + 1 : 2); for(int i = 2; i < n; i++) { add(0, i); add(1, i); } }     // a sphere
  else if(base == "cross") { for(int i = 0; i < n; i++) for(int j = i + 1; j < n; j++) if(i / 2 != j / 2) add(i, j); }                              // cross polytope
  else if(base == "crossx") { for(int k = 0; k < 2; k++) for(int i = 0; i < n; i++) for(int j = i + 1; j < n; j++) if((i / 2 == j / 2) == (k == 1)) add(i, j); }       // filled at the end
  else if(base == "torus" || base == "klein" || base == "annulus" || base == "moebius") { int w = base == "annulus" || base == "moebius" ? 3 : n >= 16 ? 4 : 3, h = n / w; bool flip = base == "klein" || base == "moebius", wrap = base == "torus" || base == "klein";
    auto id = [&](int x, int y) { if(y >= h) { y -= h; if(flip) x = w - 1 - x; } return y * w + (x % w); };
    for(int y = 0; y < h; y++) for(int x = 0; x < w; x++) { if(x + 1 < w || wrap) { add(id(x, y), id((x + 1) % w, y)); add(id(x, y), id((x + 1) % w, y + 1)); } add(id(x, y), id(x, y + 1)); } }
  else if(base == "hub" || base == "hubsusp") {   // spokes through middle points, a ring around them, and a last point closing the ring from outside (suspended): the class needs the whole ring
    int k = base == "hub" ? 0 : 2, m = (n - 2 - k) / 2, o = k + 2 * m + 1; for(int s = 0; s < k; s++) for(int x = k; x <= o; x++) add(s, x);
    for(int i = 1; i <= m; i++) { add(k, k + i); add(k + i, k + m + i); } for(int i = 0; i < m; i++) add(k + m + 1 + i, k + m + 1 + (i + 1) % m); for(int i = 1; i <= m; i++) add(o, k + m + i); }
  else if(base == "sheet" || base == "tube" || base == "donut") { int w = 1; while((w + 1) * (w + 1) <= n) w++; int h = n / w; bool wx = base != "sheet", wy = base == "donut";
    auto id = [&](int x, int y) { return (y % h) * w + x % w; };
    for(int y = 0; y < h; y++) for(int x = 0; x < w; x++) { bool rx = wx || x + 1 < w, ry = wy || y + 1 < h; if(rx) add(id(x, y), id(x + 1, y)); if(ry) add(id(x, y), id(x, y + 1)); if(rx && ry) add(id(x, y), id(x + 1, y + 1)); } }
  else if(base == "solid" || base == "solidhole") { int w = 1; while((w + 1) * (w + 1) * (w + 1) <= n) w++;   // a cube cut into tetrahedra, perhaps without its middle point
    auto id = [&](int x, int y, int z) { return (z * w + y) * w + x; };
    for(int z = 0; z < w; z++) for(int y = 0; y < w; y++) for(int x = 0; x < w; x++) for(int k = 1; k < 8; k++) { int X = x + (k & 1), Y = y + (k >> 1 & 1), Z = z + (k >> 2); if(X >= w || Y >= w || Z >= w) continue; int a = id(x, y, z), b = id(X, Y, Z), mid = id(w / 2, w / 2, w / 2); if(base == "solidhole" && (a == mid || b == mid)) continue; add(a, b); } }
  int m = e.size(); std::vector<int> rank(m); static const int A[] = {1, -1, 2, 3, 5, 7, 11, 13};
  for(int i = 0; i < m; i++) rank[i] = ord == 0 ? 0 : ord == 1 ? i : ord == 2 ? m - 1 - i : ord < 8 ? int((long)(i * A[ord] + ord) % m) : ord == 8 ? i % 2 : ord == 9 ? i / 3 : ord == 10 ? (i * i + i / 2) % m : (i * 17 + i * i % 5) % (m / 2 + 1);
  std::vector<std::vector<int>> d(n, std::vector<int>(n, OUT)); for(int i = 0; i < m; i++) d[e[i].first][e[i].second] = d[e[i].second][e[i].first] = rank[i];
  if(closed) { for(int i = 0; i < n; i++) d[i][i] = -1; for(int k = 0; k < n; k++) for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) d[i][j] = std::min(d[i][j], std::max(d[i][k], d[k][j])); }
  std::vector<int> r; for(int i = 0; i < n; i++) for(int j = i + 1; j < n; j++) r.push_back(d[at[i]][at[j]]);
  return r;
}
static void large(mc::Explorer& E, const std::function<void(const char*, int, int, int, const std::string&)>& f) {
  auto go = [&](const char* fam, int n, const char* reps, int dim, int labs, std::vector<int> ords) { for(int l = 0; l < labs; l++) for(int o : ords) { std::string s = std::string("=") + fam + ":" + std::to_string(l) + ":" + std::to_string(o); auto v = named(n, s); int top = 0; for(int x : v) if(x < 1000) top = std::max(top, x); f(reps, n, dim, top, s); if((l + o) % 3 == 0 && top > 1) f(reps, n, dim, top / 2, s); } };
  std::vector<int> all = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, some = {0, 1, 2, 4, 8, 11};
  if(WHAT != 1) for(int n : {10, 13, 14, 15, 16, 17, 20, 24, 33, 40}) { if(E.small() && n != 15) continue; for(const char* fam : {"path", "star", "binary", "comb", "mix", "forest", "path!", "binary!", "mix!", "comb!"}) { bool c = strchr(fam, '!') != nullptr; if(c && n > 20) continue; go(fam, n, WHAT == 2 ? (c ? "T" : n <= 20 ? "LT" : "T") : n <= 20 ? "LTI" : "T", WHAT == 2 && !c ? 2 : 1, 5, all); } }
  if(WHAT == 0 && !E.small()) for(int n : {64, 65, 66, 70, 100, 130, 200, 257, 300}) for(const char* fam : {"path", "star", "binary", "comb", "mix", "forest"}) { if(n > 130 && fam[0] != 'm' && fam[0] != 'p' && !E.thorough()) continue; go(fam, n, n == 70 ? "LT" : "T", 1, n > 100 && !E.thorough() ? 1 : 3, n > 100 && !E.thorough() ? some : all); }
  if(WHAT == 0 && !E.small()) { for(int n : {40, 70}) for(const char* fam : {"path!", "mix!", "binary!", "star!"}) go(fam, n, "T", 1, E.thorough() ? 5 : 2, some); for(int n : {40, 66, 100}) for(const char* fam : {"ring2", "ring3", "twins", "theta", "wheel"}) go(fam, n, "T", 1, E.thorough() ? 5 : 2, all); }
  if(WHAT == 2 && !E.small()) { for(const char* fam : {"path", "mix", "ring2"}) for(int n : {130, 310}) go(fam, n, "T", fam[0] == 'r' && n < 200 ? 2 : 1, 1, {1, 5});
    for(int n : {25, 36}) for(const char* fam : {"path!", "mix!"}) go(fam, n, "T", 1, E.thorough() ? 3 : 1, some); for(int n : {12, 14}) for(const char* fam : {"path!", "binary!", "mix!"}) go(fam, n, "T", 2, E.thorough() ? 5 : 1, some); }
  if(WHAT != 0) {
    for(int n : {9, 11, 13, 16, 20, 25, 32, 40}) { if(E.small() && n != 13) continue; for(const char* fam : {"ring", "ring2", "twins", "theta", "wheel"}) go(fam, n, WHAT == 2 && n > 20 ? "T" : n <= 16 ? "LT" : "T", 2, n <= 25 ? 5 : 2, n <= 20 ? all : some); }
    if(!E.small()) for(int n : {66, 70, 100, 130}) { for(const char* fam : {"ring", "ring2", "twins", "theta", "wheel"}) if(WHAT == 1 || n == 66) go(fam, n, "T", 2, 1, {0, 1, 5, 8}); if(n < 100 && WHAT == 1) go("ring3", n, "T", 2, 1, {1, 5}); }
    for(int n : {25, 36, 49, 64, 100}) if(!E.small() && (WHAT == 1 || n <= 36)) for(const char* fam : {"sheet", "tube", "donut"}) go(fam, n, n == 25 ? "LT" : "T", 2, n <= 36 ? 2 : 1, n <= 64 ? all : some);
    for(int n : {12, 22, 42, 72, 142, 270}) if(!E.small() || n == 22) for(const char* fam : {"hub", "hubsusp"}) { bool sus = fam[3]; if(n > (WHAT == 1 ? sus ? 142 : 270 : 72) && !E.thorough()) continue; go(fam, n + 2 * sus, n <= 42 ? "LT" : "T", sus ? 3 : 2, n <= 42 ? 3 : 1, n <= 42 ? all : std::vector<int>{1, 2, 9}); }
    for(int n : {27, 64}) if(!E.small() && (WHAT == 1 || n == 27)) for(const char* fam : {"solid", "solidhole"}) go(fam, n, "T", 3, n == 27 ? 2 : 1, n == 27 ? all : some);
    for(int n : {9, 10, 12, 14}) if(!E.small() || n == 9) { go("ring3", n, "T", n <= 10 ? 3 : 2, 5, n <= 12 ? all : some); go("ring3", n, "L", 2, 2, some); }
    for(int n : {7, 8, 10, 12, 14}) if(!E.small() || n == 7) go("susp", n, "T", 3, 5, all);
    for(int n : {8, 10}) if(!E.small() && (n == 8 || E.thorough())) { go("cross", n, "T", n / 2, n == 8 ? 5 : 1, n == 8 ? all : some); go("cross", n, "T", 3, 2, some); }
    for(int n = 5; n <= 9; n++) if(!E.small() || n == 6) for(const char* fam : {"cross", "crossx", "ring3", "path!", "mix!", "comb!"}) for(int D = 4; D <= 6; D++) go(fam, n, n < 9 ? "LT" : "T", D, n < 8 ? 5 : 2, all);   // high dimensions
    if(!E.small()) { for(int D = 4; D <= 5; D++) go("cross", 10, "T", D, 1, WHAT == 1 ? all : some); go("cross", 12, "T", 6, 1, {0, 5}); go("crossx", 10, "T", 5, 2, some); go("crossx", 10, "L", 5, 1, {1}); go("crossx", 12, "T", 6, 1, {1, 9}); }
    for(int n : {9, 12, 15, 16, 20, 24}) if(!E.small() || n == 12) for(const char* fam : {"torus", "klein", "annulus", "moebius"}) { bool w = fam[0] == 't' || fam[0] == 'k'; if(!w && n % 3) continue; if(w && n >= 16 && n % 4) continue; go(fam, n, "T", w && n <= 12 ? 3 : 2, n <= 16 ? 5 : 2, n <= 16 ? all : some); if(n <= 12) go(fam, n, "L", 2, 1, all); }
  }
}
// The same orders under other embeddings of the levels
static void embedded(mc::Explorer& E, const std::function<void(const char*, int, int, int, const std::vector<int>&, char)>& f, int mindim) {
  auto maxw = [](const std::vector<int>& w) { int m = 0; for(int x : w) m = std::max(m, x); return m; };
  for(char e : {'z', 'n', 'g', 'u', 'h'}) {
    for(int n = 2; n <= 4; n++) weak_orders(n * (n - 1) / 2, [&](const std::vector<int>& w) {
      for(int dim = mindim; dim <= (mindim == 1 ? 2 : 3); dim++) f(n < 4 || dim == mindim ? "LT" : e == 'z' ? "L" : "T", n, dim, maxw(w), w, e);
    });
    if(!E.small()) mc::words(10, e == 'z' || E.thorough() ? 3 : 2, [&](const std::vector<int>& w) { f(e == 'z' ? "L" : "T", 5, mindim == 1 ? 2 : 3, maxw(w), w, e); });
  }
}

static void enumerate_pairs(mc::Explorer& E) {
  large(E, [&](const char* reps, int n, int dim, int eps, const std::string& w) { for(const char* r = reps; *r; r++) E.add(std::string("P|") + *r + "|" + std::to_string(n) + "|" + std::to_string(dim) + "|" + std::to_string(eps) + "|" + w); });
  auto emit = [&](const char* reps, int n, int dim, int eps, const std::vector<int>& w) {
    for(const char* r = reps; *r; r++) E.add(std::string("P|") + *r + "|" + std::to_string(n) + "|" + std::to_string(dim) + "|" + std::to_string(eps) + "|" + mc::wstr(w));
  };
  auto maxw = [](const std::vector<int>& w) { int m = 0; for(int x : w) m = std::max(m, x); return m; };
  embedded(E, [&](const char* reps, int n, int dim, int eps, const std::vector<int>& w, char e) {
    for(const char* r = reps; *r; r++) E.add(std::string("P|") + *r + "|" + std::to_string(n) + "|" + std::to_string(dim) + "|" + std::to_string(eps) + "|" + mc::wstr(w) + "|" + e); }, 2);
  cycles(E, [&](int n, int top, const std::vector<int>& w) { emit(n <= 6 ? "LT" : "T", n, 2, top, w); if(n == 7) emit("L", n, 3, top, w); });
  orders(E, [&](int n, int top, const std::vector<int>& w) { if(n <= 8) emit("T", n, 2 + n % 2, top, w); else emit("L", n, 2, top, w); });
  for(int n = 1; n <= 4; n++) weak_orders(n * (n - 1) / 2, [&](const std::vector<int>& w) {
    for(int dim = 1; dim <= 3; dim++) for(int e = 0; e <= maxw(w); e++) emit("LT", n, dim, e, w);
  });
  mc::words(10, 3, [&](const std::vector<int>& w) {
    for(int dim = 1; dim <= 3; dim++) for(int e = dim == 2 ? 1 : 2; e <= 2; e++) emit(dim == 3 || e == 1 ? "T" : "LT", 5, dim, e, w); });
  mc::words(15, 2, [&](const std::vector<int>& w) { if(w[0] == 0) { emit("T", 6, 3, 1, w); emit("T", 6, 2, 0, w); } if(E.thorough()) emit("L", 6, 3, 1, w); });
  if(E.thorough()) {
    mc::words(10, 4, [&](const std::vector<int>& w) { emit("LT", 5, 2, 3, w); });
    std::vector<int> p(10); for(int i = 0; i < 10; i++) p[i] = i;
    do { if(p[0] < p[1]) emit("T", 5, 3, 9, p); } while(std::next_permutation(p.begin(), p.end()));
  }
}

void mc::enumerate(Explorer& E) {
  if(WHAT == 2) {
    E.add("P|I|3|2|1|001");   // the pairing stage of the indexed tree: known finding, see known_findings.txt
    enumerate_pairs(E); return;
  }
  auto emit = [&](const char* reps, int n, int dim, int eps, const std::vector<int>& w) {
    for(const char* r = reps; *r; r++) E.add(std::string("F|") + *r + "|" + std::to_string(n) + "|" + std::to_string(dim) + "|" + std::to_string(eps) + "|" + wstr(w));
  };
  auto maxw = [](const std::vector<int>& w) { int m = 0; for(int x : w) m = std::max(m, x); return m; };
  embedded(E, [&](const char* reps, int n, int dim, int eps, const std::vector<int>& w, char e) {
    for(const char* r = reps; *r; r++) E.add(std::string("F|") + *r + "|" + std::to_string(n) + "|" + std::to_string(dim) + "|" + std::to_string(eps) + "|" + wstr(w) + "|" + e); }, WHAT ? 2 : 1);
  large(E, [&](const char* reps, int n, int dim, int eps, const std::string& w) { for(const char* r = reps; *r; r++) E.add(std::string("F|") + *r + "|" + std::to_string(n) + "|" + std::to_string(dim) + "|" + std::to_string(eps) + "|" + w); });
  cycles(E, [&](int n, int top, const std::vector<int>& w) { if(WHAT) { emit(n <= 6 ? "LTI" : "T", n, 2, top, w); if(n == 7) emit("L", n, 3, top, w); } else if(n <= 8) emit("L", n, 1, top, w); });
  orders(E, [&](int n, int top, const std::vector<int>& w) { if(WHAT) { emit("T", n, 2, top, w); if(n == 7) emit("L", n, 3, top, w); if(n == 8 && E.thorough()) emit("T", n, 4, top, w); } else emit("T", n, 1, top, w); });
  // every order type of the distances of up to 4 points, every threshold between two distances
  for(int n = 1; n <= 4; n++) weak_orders(n * (n - 1) / 2, [&](const std::vector<int>& w) {
    for(int dim = 1; dim <= (WHAT ? 3 : 2); dim++) { if(WHAT && dim < 2) continue; for(int e = 0; e <= maxw(w); e++) emit("LTI", n, dim, e, w); }
  });
  // 5 points, three distinct distances
  words(10, 3, [&](const std::vector<int>& w) {
    for(int dim = WHAT ? 2 : 1; dim <= (WHAT ? 3 : 1); dim++) for(int e = dim == 3 ? 2 : 1; e <= 2; e++) emit(dim == 2 || (WHAT == 0 && e == 2) ? "LTI" : "LT", 5, dim, e, w);
  });
  // 6 points, two distances (the octahedron and its relatives are here), everything inside or the far pairs cut off
  words(15, 2, [&](const std::vector<int>& w) { 
    if(WHAT) { emit("T", 6, 3, 1, w); if(E.thorough()) { emit("L", 6, 3, 1, w); emit("T", 6, 2, 0, w); emit("T", 6, 4, 1, w); } }
    else { emit("T", 6, 1, 0, w); emit("L", 6, 1, 0, w); } });
  if(WHAT) {
    // octahedron with every filtration order of two weights on its 12 edges, antipodal pairs last
    words(12, 2, [&](const std::vector<int>& w) {
      std::vector<int> full; size_t k = 0;
      for(int i = 0; i < 6; i++) for(int j = i + 1; j < 6; j++) full.push_back((i / 2 == j / 2) ? 2 + i / 2 : w[k++]);
      emit("T", 6, 3, 4, full); if(E.thorough()) emit("L", 6, 3, 4, full);
    });
  }
  if(E.thorough()) {
    if(WHAT) {
      // every strict order of the 10 distances of 5 points
      std::vector<int> p(10); for(int i = 0; i < 10; i++) p[i] = i;
      do { emit("T", 5, 3, 9, p); } while(std::next_permutation(p.begin(), p.end()));
      words(10, 4, [&](const std::vector<int>& w) { emit("L", 5, 2, 3, w); });
    } else {
      words(10, 4, [&](const std::vector<int>& w) { emit("LT", 5, 1, 2, w); });
      words(15, 3, [&](const std::vector<int>& w) { if(w[0] <= w[1]) emit("T", 6, 1, 1, w); });
    }
  }
}

void mc::run_case(const std::string& cs) {
  auto f = split(cs, '|');
  bool pairs = f[0] == "P"; char rep = f[1][0]; int n = toi(f[2]), dim = toi(f[3]), e = toi(f[4]);
  char emb = f.size() > 6 ? f[6][0] : 's';
  std::vector<double> LEVEL; for(int i = 0; i < 36; i++) LEVEL.push_back(level(i, emb));
  vr::Mat d; if(f[5][0] != '=') d = vr::matrix(n, f[5], LEVEL); else { auto v = named(n, f[5]); d.assign(n, std::vector<double>(n, 0)); size_t k = 0; for(int i = 0; i < n; i++) for(int j = i + 1; j < n; j++) d[i][j] = level(v[k++], emb); }
  double eps = between(e, emb);
  std::string ct = rep == 'L' ? "simplexArrayList" : rep == 'I' ? "indSimplexTree" : "simplexTree";
  std::map<std::string, std::string> cfg = {{"dimensions", std::to_string(dim)}, {"epsilon", std::to_string(eps)}, {"debug", "0"}, {"outputFile", "console"}, {"twist", "false"}, {"complexType", ct}};
  pipePacket pk(cfg, ct);
  pk.complex->setDistanceMatrix(d);
  std::vector<double> pt = {1.0};
  for(int i = 0; i < n; i++) pk.complex->insert(pt);
  pk.complex->expandDimensions(dim);
  basePipe factory;
  basePipe* p = factory.newPipe(pairs ? "persistence" : "fast", ct);
  MC_CHECK(p && p->configPipe(cfg), "the persistence stage was not configured");
  pipePacket out = p->runPipeWrapper(pk);
  op(n + 3);
  auto got = vr::parse(out.bettiOutput);
  auto full = vr::persistence(vr::complex(d, eps, dim, true), dim - 1);
  std::vector<vr::Bar> exp;
  for(auto b : full) {
    if(pairs && b.dim == 0 && b.b == b.d) continue;
    if((b.dim == 0 || pairs) && std::isinf(b.d)) b.d = eps;
    else if(std::isinf(b.d)) continue;      // classes of dimension >= 1 still open at the threshold are not reported
    exp.push_back(b);
  }
  std::sort(exp.begin(), exp.end());
  auto sel = [&](std::vector<vr::Bar> v) { std::vector<vr::Bar> r; for(auto& b : v) if(WHAT == 2 || (WHAT ? b.dim > 0 : b.dim == 0)) r.push_back(b); return r; };
  auto cmp = [&](const std::vector<vr::Bar>& g, const char* what) {
    auto a = sel(g), b = sel(exp);
    bool same = a.size() == b.size();
    for(size_t i = 0; same && i < a.size(); i++) same = a[i].dim == b[i].dim && std::fabs(a[i].b - b[i].b) < 2e-6 && std::fabs(a[i].d - b[i].d) < 2e-6;
    MC_CHECK(same, what << ": got " << vr::show(a) << " expected " << vr::show(b));
  };
  cmp(got, "reported intervals");
  for(auto& b : sel(exp)) { observe(b.dim); observe_d(b.b); observe_d(b.d); if(b.dim > 0 || b.d != eps) nontrivial(); }
  if((n < 5 || f[5][0] == '1')) {   // the same stage, having run on another complex in between, answers the same
    for(int k = 0; k < 2; k++) {   // configured for something else in between, larger and smaller
    auto cfg2 = cfg; cfg2["dimensions"] = std::to_string(k ? 1 : dim + 1); cfg2["epsilon"] = std::to_string(k ? level(0, emb) : between(e + 2, emb)); cfg2["twist"] = k ? "true" : "false"; if(n != 3) MC_CHECK(p->configPipe(cfg2), "the persistence stage was not configured a second time");
    pipePacket other(cfg2, ct); other.complex->setDistanceMatrix(vr::matrix(5, "0012100120", LEVEL));
    for(int i = 0; i < 5; i++) other.complex->insert(pt);
    other.complex->expandDimensions(dim);
    p->runPipeWrapper(other); }
    if(n != 3) MC_CHECK(p->configPipe(cfg), "the persistence stage was not configured again");
    pipePacket pk2 = pk; pk2.bettiTable.clear(); pk2.bettiOutput = "";
    cmp(vr::parse(p->runPipeWrapper(pk2).bettiOutput), "second run of the same stage"); op(2);
  }
  if(pairs) return;
  std::vector<vr::Bar> tab;
  for(auto& t : out.bettiTable) tab.push_back({t.bettiDim, t.birth, t.death});
  std::sort(tab.begin(), tab.end());
  cmp(tab, "interval table");
}
