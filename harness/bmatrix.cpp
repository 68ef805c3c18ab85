// Boundary matrix algebra over the two-element field.
// Case: mat|rows|cols|bits (rows as masks)     pat|rows|cols|k (patterns, wide matrices)     chain|n|mask of n-1 chains|mask of chains|k       ns|words
#include "mc.hpp"
#include <bitset>
#include "pipePacket.hpp"
#include "persistencePairs.hpp"
#include "boundaryPipe.hpp"
const char* mc::harness_name = "bmatrix";
size_t mc::harness_batch = 8000;
double mc::harness_case_timeout = 10;
using M = std::vector<std::vector<unsigned>>;
using Row = std::bitset<640>;
using R = std::vector<Row>;
static bool pattern(int k, int i, int j, int c) { return k == 0 ? (i * j) % 3 == 1 : k == 1 ? std::abs(i - j) <= 2 : k == 2 ? (i * i + j * j) % 5 < 2 : k == 3 ? ((i / 2) * 3 + j) % 7 == 0 : k == 4 ? (j + i * 5) % 11 < 5 : k == 5 ? i % 4 && (i * 7 + j * j * 3) % 13 < 4 : k == 6 ? j >= i % c : k == 7 ? (i & j) == 0 : k == 8 ? j == 0 || j == c - 1 || j == i : k == 9 ? j == i || j == (i + c / 2) % c : (j * 7 + i) % c < 2; }
static int rank(R r) { int k = 0; for(int c = 0; c < 640; c++) { size_t p = k; while(p < r.size() && !r[p][c]) p++; if(p == r.size()) continue; std::swap(r[p], r[k]); for(size_t i = 0; i < r.size(); i++) if((int)i != k && r[i][c]) r[i] ^= r[k]; k++; } return k; }

void mc::enumerate(Explorer& E) {
  auto all = [&](int r, int c) { for(uint64_t m = 0; m < (1ull << (r * c)); m++) { std::string s; for(int i = 0; i < r; i++) { if(i) s += ','; s += std::to_string((m >> (i * c)) & ((1u << c) - 1)); } E.add("mat|" + std::to_string(r) + "|" + std::to_string(c) + "|" + s); } };
  for(int r = 1; r <= 4; r++) for(int c = 1; c <= 4; c++) all(r, c);
  all(1, 8); all(2, 6); all(6, 2); all(3, 5); all(5, 3); all(8, 1); all(7, 2); if(E.thorough()) { all(4, 5); all(5, 4); all(6, 3); all(3, 6); all(9, 2); }
  // complete boundary matrices of structured complexes: edges x vertices of circulant graphs
  for(int n = 5; n <= (E.small() ? 12 : 24); n++) for(int a = 1; a < n; a++) for(int b = a; b < n; b++) { std::string s; int rows = 0; for(int q : {a, b}) for(int i = 0; i < n; i++) { s += (rows++ ? "," : "") + std::to_string((1ull << i) ^ (1ull << (i + q) % n)); } E.add("mat|" + std::to_string(rows) + "|" + std::to_string(n) + "|" + s); }
  // larger matrices: bands, dense patterns, repeated and zero rows
  for(int r : {9, 16, 17, 24, 33, 40}) for(int c : {8, 16, 31, 32, 33, 48, 62}) for(int k = 0; k < (E.small() ? 2 : 8); k++) { std::string s; for(int i = 0; i < r; i++) { uint64_t m = 0; for(int j = 0; j < c; j++) { if(pattern(k, i, j, c)) m |= 1ull << j; } if(i) s += ','; s += std::to_string(m); } E.add("mat|" + std::to_string(r) + "|" + std::to_string(c) + "|" + s); }
  if(!E.small()) for(int r : {3, 33, 64, 65, 70, 100, 130}) for(int c : {63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 256, 257, 300, 515}) for(int k = 0; k < 11; k++) if(E.thorough() || r * c < 20000) E.add("pat|" + std::to_string(r) + "|" + std::to_string(c) + "|" + std::to_string(k));
  if(!E.small()) for(int r : {255, 256, 257, 300, 600}) for(int c : {2, 9, 33}) for(int k = 0; k < 11; k++) E.add("pat|" + std::to_string(r) + "|" + std::to_string(c) + "|" + std::to_string(k));
  for(int n = 1; n <= 4; n++) for(int k = 1; k < n; k++) { int a = 0, b = 0; for(unsigned m = 0; m < (1u << n); m++) { a += __builtin_popcount(m) == k; b += __builtin_popcount(m) == k + 1; }
    for(unsigned x = 0; x < (1u << a); x++) for(unsigned y = 0; y < (1u << b); y++) E.add("chain|" + std::to_string(n) + "|" + std::to_string(x) + "|" + std::to_string(y) + "|" + std::to_string(k)); }
  // boundaries extracted from a matrix whose rows stand for simplices: a path, disjoint pairs, a cycle, triangles, single points
  for(int k = 0; k < 5; k++) { E.add("ext|0|0|" + std::to_string(k) + "|"); for(int r = 1; r <= 4; r++) for(int c = 1; c <= 4; c++) { if(r * c > (E.small() ? 9 : 12) && !E.thorough()) continue; for(uint64_t m = 0; m < (1ull << (r * c)); m++) { std::string t; for(int i = 0; i < r; i++) { if(i) t += ','; t += std::to_string((m >> (i * c)) & ((1u << c) - 1)); } E.add("ext|" + std::to_string(r) + "|" + std::to_string(c) + "|" + std::to_string(k) + "|" + t); } }
    for(int r : {9, 16, 33, 70}) for(int c : {8, 31, 100}) for(int q = 0; q < 11; q++) if(!E.small() || r * c < 200) E.add("ext|" + std::to_string(r) + "|" + std::to_string(c) + "|" + std::to_string(k) + "|p" + std::to_string(q)); }
  for(int n = 0; n <= 3; n++) words(n, 12, [&](const std::vector<int>& w) { E.add("ns|" + wstr(w)); });
  for(int n : {17, 25, 33, 65, 130, 300}) for(int k = 1; k <= 11; k++) { std::string t; for(int i = 0; i < n; i++) t += wstr({(i * k + i / 7) % 12}); E.add("ns|" + t); }
}

void mc::run_case(const std::string& cs) {
  auto f = split(cs, '|'); persistencePairs pp; boundaryPipe bp;
  auto span = [](const M& m) { R r; for(auto& row : m) { Row x; for(size_t i = 0; i < row.size(); i++) x[i] = row[i] != 0; r.push_back(x); } return r; };
  auto reduced = [&](const std::pair<M, std::pair<int, int>>& g, const R& rows, int c, const char* what) {
    int rk = rank(rows); MC_CHECK(g.second.first == rk && g.second.second == c - rk, what << ": rank " << g.second.first << " and nullity " << g.second.second << ", expected " << rk << " and " << c - rk);
    MC_CHECK(g.first.size() == rows.size(), what << ": " << g.first.size() << " rows left of " << rows.size());
    R out = span(g.first), both = out; both.insert(both.end(), rows.begin(), rows.end());
    MC_CHECK(rank(out) == rk && rank(both) == rk, what << ": the reduced rows span another space");
    int nz = 0; for(auto& r : g.first) { for(unsigned x : r) MC_CHECK(x <= 1, what << ": entry " << x); } for(auto& x : out) nz += x.any();
    MC_CHECK(nz == rk, what << ": " << nz << " non-zero rows, rank " << rk); };
  if(f[0] == "mat" || f[0] == "pat") {
    int c = toi(f[2]); M m; R rows; if(f[0] == "pat") for(int i = 0; i < toi(f[1]); i++) { rows.push_back(Row()); m.push_back({}); for(int j = 0; j < c; j++) { rows.back()[j] = pattern(toi(f[3]), i, j, c); m.back().push_back(rows.back()[j]); } } else for(auto& x : split(f[3], ',')) { rows.push_back(Row(std::stoull(x))); std::vector<unsigned> r; for(int i = 0; i < c; i++) r.push_back(rows.back()[i]); m.push_back(r); }
    std::set<unsigned> exp; std::vector<std::pair<int, Row>> base; for(size_t i = 0; i < rows.size(); i++) { Row t = rows[i]; for(auto& b : base) if(t[b.first]) t ^= b.second; int at = t._Find_first(); if(at < 640) { exp.insert(i); base.push_back({at, t}); } }
    auto got = pp.getRankNull(m, 0); op();
    MC_CHECK(got == exp, "rows independent of the earlier ones: got " << show(got) << " expected " << show(exp));
    reduced(bp.reduceBoundaryMatrix(m), rows, c, "reduction"); op();
    observe(exp.size()); for(unsigned x : exp) observe(x); if(exp.size() > 1 && exp.size() < rows.size()) nontrivial(); return;
  }
  if(f[0] == "ext") {
    int r = toi(f[1]), c = toi(f[2]), k = toi(f[3]); M m, e; std::vector<std::string> rw = r ? split(f[4], ',') : std::vector<std::string>();
    for(int i = 0; i < r; i++) { std::vector<unsigned> x; uint64_t bits = f[4][0] == 'p' ? 0 : std::stoull(rw[i]); for(int j = 0; j < c; j++) x.push_back(f[4][0] == 'p' ? pattern(toi(f[4].substr(1)), i, j, c) : bits >> j & 1); m.push_back(x);
      unsigned u = i; e.push_back(k == 0 ? std::vector<unsigned>{u, u + 1} : k == 1 ? std::vector<unsigned>{2 * u, 2 * u + 1} : k == 2 ? std::vector<unsigned>{u, (u + 1) % r} : k == 3 ? std::vector<unsigned>{u / 2 * 2, u / 2 * 2 + 1, 50 + u} : std::vector<unsigned>{u}); }
    std::vector<std::set<unsigned>> exp; for(int j = 0; j < c; j++) { std::set<unsigned> b; for(int i = 0; i < r; i++) if(m[i][j]) b.insert(e[i].begin(), e[i].end()); if(b.size() < 2) continue; bool dis = true; for(auto& o : exp) for(unsigned x : b) if(o.count(x)) dis = false; if(dis) exp.push_back(b); }
    auto g = bp.extractBoundaries(e, m, 0); op(); MC_CHECK(g.size() == exp.size(), g.size() << " boundaries extracted, expected " << exp.size());
    for(size_t i = 0; i < g.size(); i++) { MC_CHECK(std::set<unsigned>(g[i].begin(), g[i].end()) == exp[i] && g[i].size() == exp[i].size(), "boundary " << i << " is " << show(g[i]) << ", expected " << show(exp[i])); observe(g[i].size()); }
    if(g.size() > 1) nontrivial(); return;
  }
  if(f[0] == "chain") {
    int n = toi(f[1]), k = toi(f[4]); unsigned x = toi(f[2]), y = toi(f[3]); M a, b; int i = 0, j = 0;
    for(unsigned m = 0; m < (1u << n); m++) { std::vector<unsigned> v; for(int q = 0; q < n; q++) if(m >> q & 1) v.push_back(3 * q + 1); if(__builtin_popcount(m) == k && (x >> i++ & 1)) a.push_back(v); if(__builtin_popcount(m) == k + 1 && (y >> j++ & 1)) b.push_back(v); }
    auto g = bp.boundaryMatrix(a, b); op();
    R rows; for(auto& s : a) { Row r; for(size_t q = 0; q < b.size(); q++) if(std::includes(b[q].begin(), b[q].end(), s.begin(), s.end())) r.set(q); rows.push_back(r); }
    if(a.empty() ) { MC_CHECK(g.second.first == 0 && g.second.second == (int)b.size(), "boundary of chains without faces: rank " << g.second.first << " nullity " << g.second.second); return; }
    if(b.empty()) { MC_CHECK(g.second.first == 0 && g.second.second == 0, "boundary of no chains: rank " << g.second.first << " nullity " << g.second.second); return; }
    reduced(g, rows, b.size(), "boundary matrix"); nontrivial();
    for(auto& s : a) for(auto& t : b) { int in = std::includes(t.begin(), t.end(), s.begin(), s.end()); op(3); MC_CHECK(bp.checkFace(s, t) == in && pp.checkFace(s, t) == in && pp.checkFace(std::set<unsigned>(s.begin(), s.end()), std::set<unsigned>(t.begin(), t.end())) == in, "face test of " << show(s) << " in " << show(t)); }
    observe(g.second.first); return;
  }
  std::vector<std::pair<double, std::vector<unsigned>>> cx; for(char ch : f[1]) { int d = dig(ch); std::vector<unsigned> v; for(int q = 0; q <= d % 3; q++) v.push_back(q + d); cx.push_back({0.5 * (d / 3), v}); }
  for(unsigned n = 1; n <= 4; n++) for(double e : {-0.1, 0.0, 0.5, 0.75, 1.0, 2.0}) { M exp; for(auto& p : cx) if(p.second.size() == n && p.first <= e) exp.push_back(p.second); op(2); MC_CHECK(bp.nSimplices(e, n, cx) == exp && pp.nSimplices(e, n, cx) == exp, "simplices with " << n << " vertices up to " << e); }
}
