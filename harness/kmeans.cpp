// k-means++ under every enumerated random stream: whatever the random choices, the labelling and the centroids are a
// valid k-means result of all the points, namely the outcome of Lloyd's iteration, stopped at the limit, from some ordered
// choice of distinct points.
// Case: dim|k|iterations|seed|points[|scale[|r]]      r: the stage has clustered other points with another configuration before      the generator is seeded through the interposed std::random_device
#include "mc.hpp"
#include <random>
#include "pipePacket.hpp"
#include "preprocessor.hpp"
const char* mc::harness_name = "kmeans";
size_t mc::harness_batch = 1;     // the generator is static: a fresh process per case
double mc::harness_case_timeout = 20;
static unsigned g_seed = 1;
namespace std { random_device::result_type random_device::_M_getval() { return g_seed; } }

void mc::enumerate(Explorer& E) {
  auto all = [&](int n, int dim, int side, int k0, int k1, int seeds, std::vector<int> its, const char* scale = "") {
    words(n * dim, side, [&](const std::vector<int>& w) { for(int k = k0; k <= k1; k++) for(int s = 0; s < seeds; s++) for(int it : its)
      E.add(std::to_string(dim) + "|" + std::to_string(k) + "|" + std::to_string(it) + "|" + std::to_string(s) + "|" + wstr(w) + scale); });
  };
  int S = E.thorough() ? 12 : E.small() ? 1 : 3;
  for(int n = 1; n <= 3; n++) all(n, 1, 4, 1, n + 1, S, {1, 2, 250});
  all(4, 1, 4, 1, 5, S, {1, 250}); all(5, 1, 4, 2, 3, E.thorough() ? 6 : 1, {250}); all(3, 2, 2, 1, 4, S, {1, 250}); all(4, 2, 2, 2, 3, S, {250});
  for(const char* sc : {"|g"}) { for(int n = 2; n <= 4; n++) all(n, 1, 4, 1, 4, S, {1, 2, 3, 250}, sc); all(3, 2, 2, 2, 3, S, {1, 2, 250}, sc); if(!E.small()) { all(5, 1, 4, 2, 3, 1, {1, 2, 250}, sc); all(4, 2, 2, 2, 3, S, {1, 2, 250}, sc); } }
  for(int n = 6; n <= 9; n++) for(int k = 2; k <= 4; k++) for(int it : {1, 2, 3, 250}) for(int s = 0; s < 2 * S; s++) for(int d : {1, 2}) { std::string p; for(int i = 0; i < n * d; i++) p += char('0' + (i * i + 3 * i / 2) % 10); E.add(std::to_string(d) + "|" + std::to_string(k) + "|" + std::to_string(it) + "|" + std::to_string(s) + "|" + p + "|g"); }
  for(const char* sc : {"|n", "|h"}) { for(int n = 2; n <= 4; n++) all(n, 1, 4, 2, 3, S, {1, 250}, sc); all(3, 2, 2, 2, 2, S, {250}, sc); if(!E.small()) all(5, 1, 4, 2, 2, 1, {250}, sc); }
  for(const char* sc : {"|t", "|b", "|b|r", "|s|r", "|g|r"}) { for(int n = 1; n <= 4; n++) if(n > 1 || sc[2]) all(n, 1, E.small() ? 3 : 4, 1, 3, 1, {1, 250}, sc); if(!E.small()) { all(3, 2, 2, 2, 2, S, {2, 250}, sc); all(5, 1, 4, 2, 2, 1, {250}, sc); } }
  for(int d : {15, 16, 17, 33, 40}) for(int n : {5, 12, 30}) for(int k : {2, 3, 5}) for(int it : {1, 250}) for(int s = 0; s < S; s++) { std::string p; for(int i = 0; i < n * d; i++) p += char('0' + (i * i / 3 + 5 * i + i / d) % 10); E.add(std::to_string(d) + "|" + std::to_string(k) + "|" + std::to_string(it) + "|" + std::to_string(s) + "|" + p + (s % 3 == 1 ? "|g" : s % 3 ? "|b" : "|t")); }
  for(int k : {101, 130, 260}) { std::string p; for(int i = 0; i < 300; i++) { p += char('0' + i % 10); p += char('0' + i / 10 % 10); p += char('0' + i / 100); } for(int s = 0; s < S; s++) E.add("3|" + std::to_string(k) + "|" + (s % 2 ? "250" : "1") + "|" + std::to_string(s) + "|" + p); }
  if(E.thorough()) { all(6, 1, 4, 2, 4, 2, {250}); all(3, 2, 3, 2, 3, 4, {250}); }
  for(int d : {3, 4, 6}) for(int n : {5, 9, 30, 70}) for(int k : {2, 3, 5, 12}) for(int it : {1, 3, 250}) for(int s = 0; s < S; s++) { std::string p; for(int i = 0; i < n * d; i++) p += char('0' + (i * i / 3 + 5 * i + i / d) % 10); E.add(std::to_string(d) + "|" + std::to_string(k) + "|" + std::to_string(it) + "|" + std::to_string(s) + "|" + p + (s % 2 ? "|g" : "")); }
  for(int n = 8; n <= 40; n += 8) for(int k = 2; k <= 20; k += 3) for(int s = 0; s < 4 * S; s++) { std::string p; for(int i = 0; i < n; i++) { p += char('0' + (i * i + i / 3) % 10); p += char('0' + (i * 7) % 10); } E.add("2|" + std::to_string(k) + "|250|" + std::to_string(s) + "|" + p); }
}

void mc::run_case(const std::string& cs) {
  auto f = split(cs, '|');
  int dim = toi(f[0]), k = toi(f[1]), it = toi(f[2]); g_seed = 1 + 7919 * toi(f[3]); srand(g_seed);
  char sc = f.size() > 5 ? f[5][0] : 's'; double mul = sc == 'n' ? 1e-4 : sc == 'h' ? 1e5 : sc == 't' ? std::ldexp(1, -43) : sc == 'b' ? std::ldexp(1, 43) : 1, add = sc == 'n' ? 3 : 0, tol = sc == 'n' ? 1e-9 : 1e-9 * mul;
  std::vector<std::vector<double>> pts; std::set<std::vector<double>> distinct;
  for(size_t i = 0; i < f[4].size(); i += dim) { std::vector<double> x; for(int j = 0; j < dim; j++) x.push_back(add + mul * dig(f[4][i + j]) * (j ? 1.5 : 1.0) + (sc == 'g' ? 0.0137 * (j + 1) * dig(f[4][i + j]) * (dig(f[4][i + j]) + j) : 0)); pts.push_back(x); distinct.insert(x); }
  int n = pts.size();
  std::map<std::string, std::string> cfg = {{"clusters", f[1]}, {"iterations", f[2]}, {"debug", "0"}, {"outputFile", "console"}, {"dimensions", "1"}, {"epsilon", "5"}};
  preprocessor factory; auto* km = factory.newPreprocessor("kmeans++");
  MC_CHECK(km && km->configPreprocessor(cfg), "the preprocessor was not configured");
  if(f.size() > 6) { auto other = cfg; other["clusters"] = std::to_string(k % 3 + 2); other["iterations"] = "7"; MC_CHECK(km->configPreprocessor(other), "the preprocessor was not configured"); pipePacket q(other, "simplexTree"); for(int i = 0; i < 9; i++) q.originalData.push_back(std::vector<double>(dim + 1, i * i % 7)); q.fullData = q.originalData; q.originalLabels = {3, 1}; km->runPreprocessorWrapper(q); op(); MC_CHECK(km->configPreprocessor(cfg), "the preprocessor was not configured"); }
  pipePacket pk(cfg, "simplexTree"); pk.originalData = pts; pk.fullData = pts;
  auto dist = [&](const std::vector<double>& a, const std::vector<double>& b) { double s = 0; for(int j = 0; j < dim; j++) s += (a[j] - b[j]) * (a[j] - b[j]); return std::sqrt(s); };
  // outcomes of Lloyd's iteration from every ordered choice of distinct points
  std::vector<std::pair<std::vector<unsigned>, std::vector<std::vector<double>>>> outcomes; bool tie = false;
  { std::vector<std::vector<double>> u(distinct.begin(), distinct.end()); size_t m = std::min<size_t>(k, u.size()), ways = 1; for(size_t i = 0; i < m; i++) ways *= u.size() - i;
    if(m <= 4 && ways <= 3100) {
      std::set<std::pair<std::vector<unsigned>, std::vector<std::vector<double>>>> seen; std::vector<unsigned> pick;
      std::function<void()> rec = [&] {
        if(pick.size() < m) { for(unsigned i = 0; i < u.size(); i++) if(std::find(pick.begin(), pick.end(), i) == pick.end()) { pick.push_back(i); rec(); pick.pop_back(); } return; }
        std::vector<std::vector<double>> c; std::vector<unsigned> lab; for(unsigned i : pick) c.push_back(u[i]);
        for(int z = 0; z < it; z++) {
          std::vector<unsigned> now(n, 0); std::vector<std::vector<double>> sum(m, std::vector<double>(dim, 0)); std::vector<int> cnt(m, 0);
          for(int i = 0; i < n; i++) { double best = INFINITY; for(size_t q = 0; q < m; q++) { double x = dist(pts[i], c[q]); if(std::fabs(x - best) < tol) tie = true; if(x < best) { best = x; now[i] = q; } } cnt[now[i]]++; for(int j = 0; j < dim; j++) sum[now[i]][j] += pts[i][j]; }
          for(size_t q = 0; q < m; q++) if(cnt[q]) for(int j = 0; j < dim; j++) c[q][j] = sum[q][j] / cnt[q];
          bool done = now == lab; lab = now; if(done) break;
        }
        seen.insert({lab, c});
      };
      rec(); outcomes.assign(seen.begin(), seen.end());
    } }
  fresh_dir("output"); write_file("output/k-means++_label_output.csv", "7\n7\nolder\n");
  for(int run = 0; run < 12; run++) {   // the same stage again, further along the same random stream
    pipePacket out = km->runPreprocessorWrapper(pk); op();
    auto& c = out.originalData; auto& l = out.originalLabels;
    int want = std::min<int>(k, distinct.size());
    MC_CHECK((int)c.size() == want, "run " << run << ": " << c.size() << " centroids, expected " << want);
    MC_CHECK((int)l.size() == n, "run " << run << ": " << l.size() << " labels for " << n << " points");
    MC_CHECK(out.fullData == pts, "run " << run << ": the full data were changed");
    std::vector<std::vector<double>> sum(want, std::vector<double>(dim, 0)); std::vector<int> cnt(want, 0);
    for(int i = 0; i < n; i++) { MC_CHECK((int)l[i] < want, "run " << run << ": label " << l[i] << " of point " << i << " names no centroid"); cnt[l[i]]++; for(int j = 0; j < dim; j++) sum[l[i]][j] += pts[i][j]; }
    for(int q = 0; q < want; q++) for(int j = 0; j < dim; j++) {
      MC_CHECK((int)c[q].size() == dim && std::isfinite(c[q][j]), "run " << run << ": centroid " << q << " is " << show(c[q]));
      if(cnt[q]) MC_CHECK(std::fabs(c[q][j] - sum[q][j] / cnt[q]) < tol, "run " << run << ": centroid " << q << " is " << show(c[q]) << ", the mean of its points is " << sum[q][j] / cnt[q] << " in coordinate " << j);
    }
    if(it >= 250) for(int i = 0; i < n; i++) for(int q = 0; q < want; q++) MC_CHECK(dist(pts[i], c[l[i]]) <= dist(pts[i], c[q]) + tol, "run " << run << ": point " << i << " is labelled " << l[i] << " but centroid " << q << " is nearer");
    if(!outcomes.empty()) {
      bool seen = false; for(auto& o : outcomes) { bool same = o.first == l; for(int q = 0; same && q < want; q++) for(int j = 0; j < dim; j++) same &= std::fabs(o.second[q][j] - c[q][j]) < tol; if(same) seen = true; }
      MC_CHECK(seen || tie, "run " << run << ": labels " << show(l) << " are not the outcome of at most " << it << " iterations from any choice of starting points"); observe(tie);
    }
    if(run < 2) {   // the files hold what was returned
      std::string le, lg = read_file("output/k-means++_label_output.csv"); for(auto x : l) le += std::to_string(x) + "\n"; MC_CHECK(lg == le, "run " << run << ": the label file holds '" << lg.substr(0, 200) << "', the labels are '" << le.substr(0, 200) << "'");
      std::vector<std::vector<double>> g; for(auto& line : split(read_file("output/k-means++_centroid_output.csv"), '\n')) { std::vector<double> r; for(auto& x : split(line, ',')) if(!x.empty()) r.push_back(atof(x.c_str())); if(!r.empty()) g.push_back(r); }
      MC_CHECK(g.size() == c.size(), "run " << run << ": the centroid file has " << g.size() << " rows for " << c.size() << " centroids"); for(size_t q = 0; q < g.size(); q++) { MC_CHECK(g[q].size() == c[q].size(), "run " << run << ": row " << q << " of the centroid file is " << show(g[q])); for(int j = 0; j < dim; j++) MC_CHECK(std::fabs(g[q][j] - c[q][j]) <= 1e-6 + 1e-12 * std::fabs(c[q][j]), "run " << run << ": row " << q << " of the centroid file is " << show(g[q]) << ", the centroid is " << show(c[q])); }
    }
    for(auto x : l) observe(x); observe(want);
    if(want > 1) nontrivial();
  }
}
