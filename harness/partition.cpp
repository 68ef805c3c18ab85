// Partitioning helpers: which points go to which partition, and back.
// Case: dim|k|points|labels|rad index     or     dim|k|#points|pattern|rad index for a structured set
#include "mc.hpp"
#include "utils.hpp"
const char* mc::harness_name = "partition";
size_t mc::harness_batch = 4000;
double mc::harness_case_timeout = 10;

void mc::enumerate(Explorer& E) {
  for(int n = 0; n <= 4; n++) for(int k = 1; k <= 3; k++) words(n, 4, [&](const std::vector<int>& p) { words(n, k, [&](const std::vector<int>& l) {
    for(int r = 0; r < 4; r++) E.add("1|" + std::to_string(k) + "|" + wstr(p) + "|" + wstr(l) + "|" + std::to_string(r)); }); });
  for(int n = 1; n <= 3; n++) words(2 * n, 3, [&](const std::vector<int>& p) { words(n, 2, [&](const std::vector<int>& l) { for(int r = 0; r < 4; r++) E.add("2|2|" + wstr(p) + "|" + wstr(l) + "|" + std::to_string(r)); }); });
  if(E.thorough()) { words(5, 4, [&](const std::vector<int>& p) { words(5, 3, [&](const std::vector<int>& l) { for(int r = 0; r < 4; r++) E.add("1|3|" + wstr(p) + "|" + wstr(l) + "|" + std::to_string(r)); }); }); 
    words(8, 2, [&](const std::vector<int>& p) { words(4, 4, [&](const std::vector<int>& l) { E.add("2|4|" + wstr(p) + "|" + wstr(l) + "|1"); }); }); }
  for(int n : {6, 9, 16, 17, 33, 64, 65, 130, 300}) for(int dim : {1, 2, 3, 5, 9}) for(int k : {1, 2, 3, 5, 8, 17, 20}) for(int pat = 0; pat < (E.small() ? 2 : 6); pat++) for(int r = 0; r < 4; r++) { if(n > 65 && dim > 3) continue; E.add(std::to_string(dim) + "|" + std::to_string(k) + "|#" + std::to_string(n) + "|" + std::to_string(pat) + "|" + std::to_string(r)); }
}

void mc::run_case(const std::string& cs) {
  auto f = split(cs, '|');
  int dim = toi(f[0]), k = toi(f[1]); double rad = std::vector<double>{0, 1, 1.5, 3}[toi(f[4])] * (f[2][0] == '#' ? 3 : 1);
  std::vector<std::vector<double>> pts, cen; std::vector<unsigned> lab;
  if(f[2][0] == '#') { int N = toi(f[2].substr(1)), a = toi(f[3]); for(int i = 0; i < N; i++) { std::vector<double> x; for(int j = 0; j < dim; j++) x.push_back(((i * (a + 3) + i * i * (j + 1) + j) % 29) * 0.5 - (a % 2 ? 5 : 0)); pts.push_back(x); lab.push_back(a == 0 ? i % k : a == 1 ? i * k / N : a == 2 ? (i * i + 1) % k : a == 3 ? k - 1 - i % k : a == 4 ? (k > 1 ? 1 : 0) : (i / 3 * 7) % k); } }
  else { for(size_t i = 0; i < f[2].size(); i += dim) { std::vector<double> x; for(int j = 0; j < dim; j++) x.push_back(dig(f[2][i + j]) * 0.5); pts.push_back(x); }
  for(char c : f[3]) lab.push_back(dig(c)); }
  for(int q = 0; q < k; q++) { std::vector<double> x; for(int j = 0; j < dim; j++) x.push_back(q * 0.75 - j * 0.25); cen.push_back(x); }
  utils ut; size_t n = pts.size();
  auto dist = [&](size_t i, int q) { double s = 0; for(int j = 0; j < dim; j++) s += (pts[i][j] - cen[q][j]) * (pts[i][j] - cen[q][j]); return std::sqrt(s); };
  double mr = 0; for(size_t i = 0; i < n; i++) mr = std::max(mr, dist(i, lab[i]));
  MC_CHECK(std::fabs(ut.computeMaxRadius(k, cen, pts, lab) - mr) <= 1e-12 * (1 + mr), "largest distance of a point from its centroid: got " << ut.computeMaxRadius(k, cen, pts, lab) << " expected " << mr); op();
  auto check = [&](const std::pair<std::vector<std::vector<unsigned>>, std::vector<std::vector<std::vector<double>>>>& r, const char* what, const std::function<bool(size_t, int)>& in) {
    MC_CHECK((int)r.first.size() == k && (int)r.second.size() == k, what << ": " << r.first.size() << " partitions, expected " << k);
    for(int q = 0; q < k; q++) {
      std::vector<unsigned> e; std::vector<std::vector<double>> d; for(size_t i = 0; i < n; i++) if(in(i, q)) { e.push_back(i); d.push_back(pts[i]); }
      MC_CHECK(r.first[q] == e, what << ": partition " << q << " holds points " << show(r.first[q]) << ", expected " << show(e));
      MC_CHECK(r.second[q] == d, what << ": the data of partition " << q << " do not belong to its points");
      observe(e.size());
      // entries found within the partition are mapped back to the original points
      std::vector<bettiBoundaryTableEntry> tab;
      for(unsigned i = 0; i <= e.size(); i++) { bettiBoundaryTableEntry b = {i, 0.5 * i, 1.5 * i, {}}; for(unsigned j = 0; j < i; j++) b.boundaryPoints.insert(j); tab.push_back(b); }
      if(e.size() > 1) tab.push_back({7, 1, 2, {(unsigned)e.size() - 1}});
      auto before = tab; ut.mapPartitionIndexing(e, tab); op();
      MC_CHECK(tab.size() == before.size(), what << ": mapping back changed the number of intervals");
      for(size_t t = 0; t < tab.size(); t++) {
        std::set<unsigned> want; for(unsigned j : before[t].boundaryPoints) want.insert(e[j]);
        MC_CHECK(tab[t].boundaryPoints == want, what << ": partition " << q << ", local points " << show(before[t].boundaryPoints) << " map back to " << show(tab[t].boundaryPoints) << ", expected " << show(want));
        MC_CHECK(tab[t].bettiDim == before[t].bettiDim && tab[t].birth == before[t].birth && tab[t].death == before[t].death, what << ": mapping back changed an interval");
      }
    }
  };
  check(ut.separatePartitions(k, pts, lab), "partition by label", [&](size_t i, int q) { return (int)lab[i] == q; }); op();
  check(ut.separatePartitions(rad, cen, pts, lab), "partition by radius", [&](size_t i, int q) { return dist(i, q) < rad; }); op();
  // lists of boundaries: every set of labels, in both orders, with repetitions, and every pair of sets
  std::vector<std::set<unsigned>> bl; for(unsigned m = 0; m < (k > 5 ? 64u : 1u << k); m++) { std::set<unsigned> s; if(k > 5) { for(int q = 0; q < k; q++) if((q * (m % 8 + 1) + m / 8) % 7 < (int)(m % 5)) s.insert(q); } else for(int q = 0; q < k; q++) if(m >> q & 1) s.insert(q); bl.push_back(s); }
  std::vector<std::vector<std::set<unsigned>>> lists = {bl, std::vector<std::set<unsigned>>(bl.rbegin(), bl.rend()), {}};
  auto twice = lists[1]; twice.insert(twice.end(), bl.begin(), bl.end()); lists.push_back(twice);
  if(f[4] == "0" && f[2][0] != '#') for(auto& a : bl) { lists.push_back({a}); for(auto& b : bl) lists.push_back({a, b}); }
  for(auto& bl : lists) {
    auto bp = ut.separateBoundaryPartitions(bl, pts, lab); op();
    MC_CHECK(bp.size() == bl.size(), "boundary partitions: " << bp.size() << ", expected " << bl.size());
    for(size_t b = 0; b < bl.size(); b++) { std::vector<std::vector<double>> d; for(size_t i = 0; i < n; i++) if(bl[b].count(lab[i])) d.push_back(pts[i]); MC_CHECK(bp[b] == d, "boundary partition " << show(bl[b]) << " holds the wrong points"); }
  }
  if(n > 1) nontrivial();
}
