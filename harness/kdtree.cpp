// kd-tree queries against exhaustive search.
// Case: dim|side|size|points[|scale]   scale: all coordinates and radii times two to this power, or e<number>: times this number;  points: one digit string per point (dim digits of the grid), size = first points used (0 = all)
#include "mc.hpp"
#include "kdTree.hpp"
const char* mc::harness_name = "kdtree";
size_t mc::harness_batch = 3000;
double mc::harness_case_timeout = 10;

void mc::enumerate(Explorer& E) {
  auto all = [&](int n, int dim, int side, bool sizes, const std::string& scale = "") {
    words(n * dim, side, [&](const std::vector<int>& w) {
      for(int s = 0; s <= (sizes ? n : 0); s++) E.add(std::to_string(dim) + "|" + std::to_string(side) + "|" + std::to_string(s) + "|" + wstr(w) + scale);
    });
  };
  for(const char* sc : {"|-12", "|13", "|-40"}) { all(3, 1, 4, true, sc); if(E.small()) continue; all(5, 1, 3, false, sc); all(3, 2, 3, false, sc); all(5, 2, 2, false, sc); all(4, 3, 2, false, sc); }
  for(const char* sc : {"|e0.7", "|e0.1"}) { all(3, 1, 4, true, sc); if(E.small()) continue; all(3, 2, 3, false, sc); all(4, 1, 4, false, sc); }
  for(int n = 1; n <= (E.small() ? 4 : 6); n++) all(n, 1, n <= 5 ? 4 : 3, n <= 4);
  for(int n = 1; n <= 3; n++) all(n, 2, 3, true);
  if(!E.small()) all(4, 2, 3, false); all(5, 2, 2, false); if(!E.small()) all(6, 2, 2, false); all(2, 3, E.small() ? 2 : 3, true); if(!E.small()) all(4, 3, 2, false); all(7, 1, 2, false);
  if(E.thorough()) { all(5, 2, 3, false); all(7, 2, 2, false); all(5, 3, 2, false); all(7, 1, 3, false); }
  // larger sets: every cyclic order of structured point sets
  for(int n = 8; n <= 40; n += 4) for(int k = 1; k < n; k += E.small() ? n : 3) { std::string p; for(int i = 0; i < n; i++) { int q = (i * k) % n; p += char('0' + q % 5); p += char('0' + (q * q + k) % 5); } E.add("2|5|0|" + p); E.add("2|5|" + std::to_string(n / 2) + "|" + p); }
  if(!E.small()) for(int n : {64, 65, 100, 128, 129, 200, 255, 256, 257, 258, 300}) for(int k : {1, 3, 7}) { std::string p; for(int i = 0; i < n; i++) { int q = (i * k) % n; p += char('0' + (q + q / 5) % 10); p += char('0' + (q * q / 3 + k) % 10); } E.add("2|10|0|" + p); E.add("2|10|0|" + p + (k == 3 ? "|-12" : "|13")); }
  for(int n = 5; n <= (E.thorough() ? 40 : 24); n += 3) for(int dim : {3, 4}) for(int k = 1; k < (E.small() ? 2 : 8); k++) { std::string p; for(int i = 0; i < n; i++) for(int j = 0; j < dim; j++) p += char('0' + (i * (2 * j + k) + j * i * i / (k + 1) + k) % 5); E.add(std::to_string(dim) + "|5|0|" + p); if(k % 3 == 0) E.add(std::to_string(dim) + "|5|" + std::to_string(n - 2) + "|" + p); }
}

void mc::run_case(const std::string& cs) {
  auto f = split(cs, '|');
  int dim = toi(f[0]), side = toi(f[1]), size = toi(f[2]); const std::string& p = f[3];
  std::vector<std::vector<double>> pts; 
  // a different scale per axis, so that axes cannot be confused
  const double U = f.size() > 4 && f[4][0] == 'e' ? atof(f[4].c_str() + 1) : std::ldexp(1.0, f.size() > 4 ? toi(f[4]) : 0);
  const double SC[] = {1.0 * U, 1.5 * U, 0.75 * U, 1.25 * U};
  for(size_t i = 0; i < p.size(); i += dim) { std::vector<double> x; for(int k = 0; k < dim; k++) x.push_back(dig(p[i + k]) * SC[k] - U); pts.push_back(x); }
  kdTree t(pts, size); op();
  size_t n = size ? size : pts.size();
  std::vector<std::vector<double>> Q;
  int steps = dim == 1 ? 4 * side + 1 : dim == 2 ? 2 * side + 1 : side + 1;
  words(dim, std::min(steps, dim == 1 ? 17 : dim == 2 ? 7 : 3), [&](const std::vector<int>& w) { std::vector<double> q; for(int k = 0; k < dim; k++) q.push_back((w[k] - 1) * (dim == 1 ? 0.25 : 0.5) * SC[k] - U); Q.push_back(q); });
  for(auto& x : pts) Q.push_back(x);
  for(double far : {-100.0, 8.0, 1000.0}) for(int k = 0; k < dim; k++) { auto q = pts[0]; q[k] = far * U; Q.push_back(q); q = pts.back(); q[k] += far * U / 16; Q.push_back(q); }
  auto dist = [&](const std::vector<double>& a, const std::vector<double>& b) { double s = 0; for(int k = 0; k < dim; k++) s += (a[k] - b[k]) * (a[k] - b[k]); return std::sqrt(s); };
  for(auto& q : Q) {
    std::vector<double> d; for(size_t i = 0; i < n; i++) d.push_back(dist(pts[i], q));
    double best = *std::min_element(d.begin(), d.end());
    auto np = t.nearestPoint(q); size_t ni = t.nearestIndex(q); auto pi = t.nearestPointIndex(q); op(3);
    MC_CHECK(ni < n && pi.second < n, "nearest neighbour of " << show(q) << ": index " << ni << " is not one of the " << n << " points");
    MC_CHECK(pts[ni] == np && pts[pi.second] == pi.first, "nearest neighbour of " << show(q) << ": index and point disagree");
    MC_CHECK(dist(np, q) <= best * (1 + 1e-12) && dist(pi.first, q) <= best * (1 + 1e-12), "nearest neighbour of " << show(q) << ": got " << show(np) << " at distance " << dist(np, q) << ", the nearest point is at " << best);
    observe(ni);
    std::set<double> radii = {0, 0.5 * U, U, 10 * U}; for(size_t i = 0; i < n && i < 4; i++) { radii.insert(d[i]); }
    for(double r : radii) {
      // a point at the radius counts, except where the rounded distance alone decides (r*r is not the exact squared distance)
      auto d2 = [&](size_t i) { double s = 0; for(int k = 0; k < dim; k++) s += (pts[i][k] - q[k]) * (pts[i][k] - q[k]); return s; };
      std::vector<size_t> exp; std::set<size_t> may;
      for(size_t i = 0; i < n; i++) if(d[i] <= r) { exp.push_back(i); if(d2(i) != r * r && std::fabs(d[i] - r) < 1e-9 * U) may.insert(i); } else if(d[i] - r < 1e-9 * U) may.insert(i);
      auto got = t.neighborhoodIndices(q, r); op();
      auto srt = got; std::sort(srt.begin(), srt.end());
      if(!may.empty()) {
        std::vector<size_t> a, b; for(size_t i : srt) if(!may.count(i)) a.push_back(i); for(size_t i : exp) if(!may.count(i)) b.push_back(i);
        MC_CHECK(a == b && std::adjacent_find(srt.begin(), srt.end()) == srt.end(), "neighbours of " << show(q) << " within " << r << ": got " << show(srt) << " expected " << show(exp));
      } else
      MC_CHECK(srt == exp, "neighbours of " << show(q) << " within " << r << ": got " << show(srt) << " expected " << show(exp));
      auto pp = t.neighborhoodPoints(q, r); auto pi2 = t.neighborhood(q, r); op(2);
      MC_CHECK(pp.size() == got.size() && pi2.size() == got.size(), "the neighbourhood queries disagree on the number of points");
      for(size_t i = 0; i < got.size(); i++) MC_CHECK(pp[i] == pts[got[i]] && pi2[i].second == got[i] && pi2[i].first == pts[got[i]], "the neighbourhood queries disagree");
      observe(exp.size());
    }
  }
  if(n >= 3) nontrivial();
}
