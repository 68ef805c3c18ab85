// DBSCAN against its definition: core points, density-connected components, border points, noise.
// Case: dim|minPoints|eps index|size|points
#include "mc.hpp"
#include "dbscan.hpp"
const char* mc::harness_name = "dbscan";
size_t mc::harness_batch = 3000;
double mc::harness_case_timeout = 10;
static const std::vector<double> EPS = {0, 1, 1.4142135623730951, 2, 2.5, 10};

void mc::enumerate(Explorer& E) {
  auto all = [&](int n, int dim, int side, std::vector<int> eps, bool sizes, int maxmin) {
    words(n * dim, side, [&](const std::vector<int>& w) {
      for(int m = 1; m <= maxmin; m++) for(int e : eps) for(int s = 0; s <= (sizes ? n : 0); s++)
        E.add(std::to_string(dim) + "|" + std::to_string(m) + "|" + std::to_string(e) + "|" + std::to_string(s) + "|" + wstr(w));
    });
  };
  for(int n = 1; n <= 4; n++) all(n, 1, 5, {0, 1, 3}, true, n + 1);
  all(5, 1, 5, {1, 3}, false, 4); all(6, 1, 5, {1}, false, 4); all(7, 1, 4, {1}, false, 4);
  for(int n = 1; n <= 3; n++) all(n, 2, 3, {0, 1, 2, 3, 5}, n < 3, 3);
  all(4, 2, 3, {1, 2, 3}, false, 4);
  if(E.thorough()) { all(5, 2, 3, {1, 2}, false, 4); all(7, 1, 6, {1, 4}, false, 4); all(8, 1, 5, {1}, false, 4); }
  for(int n = 8; n <= 60; n += 4) for(int k = 1; k < n; k += 5) for(int m = 2; m <= 6; m++) for(int e : {1, 2, 3}) {
    std::string p; for(int i = 0; i < n; i++) { int q = (i * k) % n; p += char('0' + (q * 3 + q / 7) % 10); p += char('0' + (q * q) % 7); }
    E.add("2|" + std::to_string(m) + "|" + std::to_string(e) + "|0|" + p);
  }
  for(int n : {12, 30, 64, 65, 130, 200, 256, 257, 300}) for(int dim : {1, 2, 3, 4}) for(int k = 1; k < (E.small() ? 3 : n > 200 ? 4 : 9); k++) for(int m : {2, 3, 5, 8}) for(int e : {1, 2, 3, 4}) {
    std::string p; for(int i = 0; i < n; i++) for(int j = 0; j < dim; j++) p += char('0' + ((i * (k + j) + i * i / (j + 2) + i / 9 * k) % (n > 100 ? 10 : 6 + k % 4)));
    E.add(std::to_string(dim) + "|" + std::to_string(m) + "|" + std::to_string(e) + "|" + std::to_string(k % 3 ? 0 : n - 5) + "|" + p);
  }
}

void mc::run_case(const std::string& cs) {
  auto f = split(cs, '|');
  int dim = toi(f[0]), minp = toi(f[1]); double eps = EPS[toi(f[2])]; int size = toi(f[3]); const std::string& p = f[4];
  std::vector<std::vector<double>> pts;
  for(size_t i = 0; i < p.size(); i += dim) { std::vector<double> x; for(int k = 0; k < dim; k++) x.push_back(dig(p[i + k])); pts.push_back(x); }
  auto lab = dbscan::cluster(pts, minp, eps, size); op();
  int n = size ? size : (int)pts.size();
  MC_CHECK((int)lab.size() == n, lab.size() << " labels for " << n << " points");
  auto near = [&](int a, int b) { double s = 0; for(int k = 0; k < dim; k++) s += (pts[a][k] - pts[b][k]) * (pts[a][k] - pts[b][k]); return std::sqrt(s) <= eps; };
  std::vector<int> deg(n, 0), comp(n, 0);
  for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) if(near(i, j)) deg[i]++;
  int nc = 0;
  for(int i = 0; i < n; i++) if(deg[i] >= minp && !comp[i]) { // density-connected component of core points
    std::vector<int> st = {i}; comp[i] = ++nc;
    while(!st.empty()) { int x = st.back(); st.pop_back(); for(int j = 0; j < n; j++) if(deg[j] >= minp && !comp[j] && near(x, j)) { comp[j] = nc; st.push_back(j); } }
  }
  std::map<int, int> toLabel; std::set<int> used;
  for(int i = 0; i < n; i++) if(comp[i]) {
    MC_CHECK(lab[i] >= 1, "core point " << i << " is labelled " << lab[i] << ": " << show(lab));
    if(!toLabel.count(comp[i])) { MC_CHECK(used.insert(lab[i]).second, "two density-separated clusters share label " << lab[i] << ": " << show(lab)); toLabel[comp[i]] = lab[i]; }
    MC_CHECK(toLabel[comp[i]] == lab[i], "density-connected core points carry different labels: " << show(lab));
  }
  for(int i = 0; i < n; i++) if(!comp[i]) {
    std::set<int> may; for(int j = 0; j < n; j++) if(comp[j] && near(i, j)) may.insert(toLabel[comp[j]]);
    if(may.empty()) MC_CHECK(lab[i] == -1, "point " << i << " is noise but is labelled " << lab[i] << ": " << show(lab));
    else MC_CHECK(may.count(lab[i]), "border point " << i << " is labelled " << lab[i] << ", which is not the cluster of a core point in reach: " << show(lab));
  }
  for(auto& t : toLabel) MC_CHECK(t.second <= nc, "cluster labels are not 1.." << nc << ": " << show(lab));
  if(nc >= 1 && n > 2) nontrivial();
  for(int x : lab) observe(x + 5);
}
