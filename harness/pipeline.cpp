// The standard pipeline on point clouds: distance matrix, neighbourhood graph, Rips expansion, persistence stage.
// Case: chain|rep|dim|eps|cloud    chain f (fast) or p (persistence stage)
//   an additional field r: the packet and the stages have been used before, for another cloud of the same size
//   an additional field s<e>: the points and epsilon are multiplied by 2^e
//   cloud: g<d><digits>  points on a grid with d coordinates;  or  family:size:order
#include "vr.hpp"
#include "clouds.hpp"
#include "pipePacket.hpp"
#include "basePipe.hpp"
const char* mc::harness_name = "pipeline";
size_t mc::harness_batch = 2000;
double mc::harness_case_timeout = 60;
using cloud::FAM;

void mc::enumerate(Explorer& E) {
  auto emit = [&](const char* chain_reps, int dim, const char* eps, const std::string& cloud) {   // "fL pT" ...
    for(const char* p = chain_reps; *p; p += 2) E.add(std::string(1, p[0]) + "|" + p[1] + "|" + std::to_string(dim) + "|" + eps + "|" + cloud);
  };
  auto again = [&](const char* cr, int dim, const char* eps, const std::string& cloud) { emit(cr, dim, eps, cloud + "|r"); };
  for(const char* sc : {"-43", "-20", "-1", "3", "20", "60"}) {
    auto scaled = [&](const char* cr, int dim, const char* eps, const std::string& cloud) { emit(cr, dim, eps, cloud + "|s" + sc); };
    for(int n = 2; n <= 4; n++) words(n, 3, [&](const std::vector<int>& w) { if(!E.small() || sc[0] == '-') scaled("fLfTfIpLpT", 2, "0.7", "g1" + wstr(w)); });
    words(8, 2, [&](const std::vector<int>& w) { if(!E.small() || std::string(sc) == "-43") scaled("fLfTfIpLpT", 2, "0.6", "g2" + wstr(w)); });
    for(int n = 5; n <= (E.small() ? 5 : 9); n++) for(auto f : FAM) for(const char* e : {"0.45", "1.35", "6"}) scaled("fLfTfIpLpT", n % 2 + 1, e, std::string(f) + ":" + std::to_string(n) + ":1");
  }
  for(int n = 1; n <= 4; n++) words(n, 3, [&](const std::vector<int>& w) { for(int D = 1; D <= 2; D++) if(!E.small() || D == 2) again("fLfTfIpLpT", D, "0.7", "g1" + wstr(w)); });
  words(6, 3, [&](const std::vector<int>& w) { again("fLfTfIpLpT", 2, "0.9", "g2" + wstr(w)); });
  if(!E.small()) words(10, 2, [&](const std::vector<int>& w) { again("fLfTfIpLpT", 2, "0.8", "g2" + wstr(w)); });
  for(int n = 5; n <= (E.small() ? 6 : 12); n++) for(auto f : FAM) for(const char* e : {"0.45", "1.35", "6"}) for(int D = 1; D <= 3; D++) if(n < 10 || D < 3) again("fLfTfIpLpT", D, e, std::string(f) + ":" + std::to_string(n) + ":1");
  for(int n = 0; n <= 4; n++) words(n, 4, [&](const std::vector<int>& w) { for(const char* e : {"0.3", "0.7", "1.2", "2"}) for(int D = 1; D <= 2; D++) if(!E.small() || (std::string(e) == "0.7" && D == 2)) emit("fLfTfIpLpT", D, e, "g1" + wstr(w)); });
  if(!E.small()) words(5, 4, [&](const std::vector<int>& w) { for(int D = 1; D <= 2; D++) emit("fLfTfIpLpT", D, "0.8", "g1" + wstr(w)); });
  for(int n = 1; n <= 3; n++) words(2 * n, 3, [&](const std::vector<int>& w) { for(const char* e : {"0.6", "0.9", "3"}) for(int D = 1; D <= 2; D++) emit("fLfTfIpLpT", D, e, "g2" + wstr(w)); });
  if(!E.small()) words(8, 3, [&](const std::vector<int>& w) { for(const char* e : {"0.6", "1.1"}) emit("fLfTfIpLpT", 2, e, "g2" + wstr(w)); });
  words(10, 2, [&](const std::vector<int>& w) { for(int D = 1; D <= 3; D++) emit("fLfTfIpLpT", D, "0.8", "g2" + wstr(w)); });
  if(!E.small()) words(9, 2, [&](const std::vector<int>& w) { emit("fLfTfIpLpT", 2, "0.8", "g3" + wstr(w)); });
  if(!E.small()) words(12, 2, [&](const std::vector<int>& w) { for(int D = 2; D <= 3; D++) emit("fLfTfIpLpT", D, "0.6", "g3" + wstr(w)); });
  words(8, 2, [&](const std::vector<int>& w) { emit("fLfTfIpLpT", 2, "0.6", "g4" + wstr(w)); });
  if(E.thorough()) { words(10, 3, [&](const std::vector<int>& w) { emit("fLfTpT", 2, "0.8", "g2" + wstr(w)); }); words(15, 2, [&](const std::vector<int>& w) { emit("fLfTpT", 3, "0.8", "g3" + wstr(w)); });
    words(14, 2, [&](const std::vector<int>& w) { emit("fLfIpL", 2, "0.8", "g2" + wstr(w)); }); }
  for(int n = 5; n <= (E.thorough() ? 14 : E.small() ? 8 : 12); n++) for(auto f : FAM) for(int k = 1; k < (E.small() ? 3 : n); k++) {
    bool cop = true; for(int q = 2; q <= k; q++) if(k % q == 0 && n % q == 0) cop = false;
    if(!cop) continue;
    for(const char* e : {"0.45", "0.75", "1.35", "1.95", "6"}) for(int D = 1; D <= 3; D++) {
      if(n > 9 && D == 3 && (!E.thorough() || n > 12)) continue;
      if(!E.thorough() && n > 10 && k > 1 && e[0] != '1') continue;
      emit(D == 2 ? "fLfTfIpLpT" : k % 2 ? "fLpT" : "fTfIpL", D, e, std::string(f) + ":" + std::to_string(n) + ":" + std::to_string(k));
    }
  }
  // complexes of dimension 4 to 6
  for(int n = 5; n <= (E.thorough() ? 11 : E.small() ? 7 : 10); n++) for(auto f : FAM) for(int k = 1; k < (E.small() ? 2 : 4); k++) if(k == 1 || n % k) for(const char* e : {"0.75", "1.35", "6"}) for(int D = 4; D <= 6; D++) emit("fLfTfIpLpT", D, e, std::string(f) + ":" + std::to_string(n) + ":" + std::to_string(k));
  // many points, sparse neighbourhoods
  if(!E.small()) for(int n : {17, 33, 64, 65, 66, 70, 130, 260}) for(auto f : {"poly", "line", "power", "two", "eight", "rings", "grid", "helix", "spread"}) for(int k : {1, n % 3 ? 3 : 5}) {
    if(n > 100 && (!E.thorough() && k > 1)) continue;
    for(const char* e : {"0.11", "0.32", "0.65"}) for(int D = 1; D <= 2; D++) { if(n > 50 && D == 2 && e[2] == '6') continue; if(n > 100 && (e[2] != '1' || (D == 2 && f[0] == 's'))) continue;
      emit(D == 2 ? n > 60 ? "fTpL" : "fLfTpT" : "fLfTfIpLpT", D, e, std::string(f) + ":" + std::to_string(n) + ":" + std::to_string(k)); }
  }
}

// Faces that open a class, in the order of the complex: those that are not the last of what remains of a filled cycle one dimension below.
typedef std::vector<uint64_t> Bits;
typedef std::vector<std::vector<std::pair<std::set<unsigned>, double>>> Lists;
struct Eliminate {   // columns over Z2; the rows come in the order of elimination, highest first
  std::map<int, Bits> piv; size_t words;
  Eliminate(size_t R) : words((R + 63) / 64) {}
  int add(Bits c) {
    for(int w = words - 1; w >= 0; w--) while(c[w]) { int r = w * 64 + 63 - __builtin_clzll(c[w]); auto it = piv.find(r); if(it == piv.end()) { piv[r] = c; return r; } for(int x = 0; x <= w; x++) c[x] ^= it->second[x]; }
    return -1;
  }
};
static std::vector<Bits> columns(const Lists& all, unsigned k, double upto, const std::vector<int>& rowof, size_t R) {   // boundaries of the k-simplices
  std::map<std::set<unsigned>, int> at; for(size_t i = 0; i < all[k - 1].size(); i++) at[all[k - 1][i].first] = i;
  std::vector<Bits> r; for(auto& s : all[k]) if(s.second <= upto) { Bits c((R + 63) / 64); for(unsigned v : s.first) { auto f = s.first; f.erase(v); int q = rowof[at.at(f)]; if(q >= 0) c[q / 64] |= 1ull << q % 64; } r.push_back(c); }
  return r;
}
static std::vector<bool> openers(const Lists& all, unsigned k) {   // which k-simplices open a class
  std::vector<int> rowof(all[k - 1].size()); for(size_t i = 0; i < rowof.size(); i++) rowof[i] = i;
  Eliminate el(rowof.size()); std::vector<bool> r; for(auto& c : columns(all, k, 1e308, rowof, rowof.size())) r.push_back(el.add(c) < 0); return r;
}
// A cycle is given by its opening faces. Among the chains of opening faces on the points bp: is there one that is filled by t.death and runs
// through a face of weight t.birth, and is every point of bp on one?
static std::string not_a_cycle(const Lists& all, const std::vector<bool>& opens, const std::vector<unsigned>& bp, unsigned k, double birth, double death) {
  std::vector<int> rowof(all[k].size(), -1), face; std::set<unsigned> b(bp.begin(), bp.end());
  for(int in = 1; in >= 0; in--) for(size_t i = 0; i < all[k].size(); i++) { auto& s = all[k][i]; if(!opens[i] || (s.second <= birth && std::includes(b.begin(), b.end(), s.first.begin(), s.first.end())) != (in == 1)) continue; rowof[i] = face.size(); face.push_back(i); }
  size_t inside = 0; for(int i : face) { auto& s = all[k][i]; if(s.second <= birth && std::includes(b.begin(), b.end(), s.first.begin(), s.first.end())) inside++; }
  Eliminate el(face.size()); for(auto& c : columns(all, k + 1, death, rowof, face.size())) el.add(c);
  bool through = false; std::set<unsigned> on;
  for(auto& p : el.piv) if(p.first < (int)inside) for(size_t q = 0; q < inside; q++) if(p.second[q / 64] >> q % 64 & 1) { auto& s = all[k][face[q]]; on.insert(s.first.begin(), s.first.end()); through = through || s.second == birth; }
  if(!through) return "carry no cycle that opens with the interval and is filled by its end";
  for(unsigned v : bp) if(!on.count(v)) return "include point " + std::to_string(v) + ", which is on no such cycle";
  return "";
}

void mc::run_case(const std::string& cs) {
  auto f = split(cs, '|');
  char rep = f[1][0]; bool pairs = f[0] == "p"; int dim = toi(f[2]); double eps = std::atof(f[3].c_str());
  auto pts = cloud::points(f[4]); double scale = 1;
  if(f.size() > 5 && f[5][0] == 's') { scale = std::ldexp(1.0, toi(f[5].substr(1))); eps *= scale; for(auto& p : pts) for(auto& x : p) x *= scale; char b[40]; snprintf(b, 40, "%.17g", eps); f[3] = b; }
  int n = pts.size();
  std::string ct = rep == 'L' ? "simplexArrayList" : rep == 'I' ? "indSimplexTree" : "simplexTree";
  std::map<std::string, std::string> cfg = {{"dimensions", f[2]}, {"epsilon", f[3]}, {"debug", "0"}, {"outputFile", "console"}, {"twist", "false"}, {"collapse", "false"}, {"complexType", ct}};
  pipePacket pk(cfg, ct); pk.originalData = pts; pk.fullData = pts;
  std::map<std::string, basePipe*> made;
  auto stage = [&](const char* name) {
    basePipe fac; auto*& p = made[name]; if(!p) p = fac.newPipe(name, ct); MC_CHECK(p && p->configPipe(cfg), "stage " << name << " was not configured");
    pk = p->runPipeWrapper(pk); op();
    MC_CHECK(pk.originalData == pts && pk.fullData == pts, "stage " << name << " changed the points");
  };
  if(f.size() > 5 && f[5] == "r") {   // what the program does between partitions
    auto real = pts; auto mine = cfg; cfg["dimensions"] = std::to_string(dim + 1); cfg["epsilon"] = std::to_string(eps * 2); cfg["collapse"] = "true"; cfg["twist"] = "true";
    std::reverse(pts.begin(), pts.end()); for(auto& p : pts) for(auto& x : p) x = 0.75 * x + 0.01; 
    pk.originalData = pk.fullData = pts; for(auto s : {"distMatrix", "neighGraph", "rips", pairs ? "persistence" : "fast"}) stage(s);
    cfg = mine; pts = real; pk.originalData = pk.fullData = pts; pk.bettiTable.clear(); pk.weights.clear(); pk.complex->clear(); op();
  }
  stage("distMatrix");
  auto& dm = pk.complex->distMatrix; vr::Mat d(n, std::vector<double>(n, 0));
  MC_CHECK((int)dm.size() == n, "the distance matrix has " << dm.size() << " rows for " << n << " points");
  std::set<double> w = {0.0, eps};
  for(int i = 0; i < n; i++) { MC_CHECK((int)dm[i].size() >= n, "row " << i << " of the distance matrix has " << dm[i].size() << " entries"); for(int j = i + 1; j < n; j++) {
    double s = 0; for(size_t k = 0; k < pts[i].size(); k++) s += (pts[i][k] - pts[j][k]) * (pts[i][k] - pts[j][k]);
    MC_CHECK(std::fabs(dm[i][j] - std::sqrt(s)) <= 1e-12 * std::sqrt(s), "distance of points " << i << " and " << j << ": " << dm[i][j] << ", expected " << std::sqrt(s));
    d[i][j] = dm[i][j]; if(dm[i][j] < eps) w.insert(dm[i][j]);
    if(std::fabs(dm[i][j] - eps) < 1e-9 * eps) return;
  } }
  MC_CHECK(std::set<double>(pk.weights.begin(), pk.weights.end()) == w, "filtration values: got " << show(pk.weights) << " expected " << show(w));
  stage("neighGraph"); 
  if(n) MC_CHECK(pk.complex->vertexCount() == n, "the neighbourhood graph has " << pk.complex->vertexCount() << " vertices for " << n << " points");
  stage("rips");
  auto ref = vr::complex(d, eps, dim, true); size_t total = 0; for(auto& l : ref) total += l.size();
  if(n) {
    auto all = pk.complex->getAllEdges(eps); op();
    for(int k = 0; k <= dim; k++) {
      auto g = k < (int)all.size() ? vr::canon(all[k]) : std::vector<vr::Key>(), e = k < (int)ref.size() ? vr::canon(ref[k]) : std::vector<vr::Key>();
      MC_CHECK(g == e, "simplices of dimension " << k << ": got " << vr::show(g).substr(0, 200) << " expected " << vr::show(e).substr(0, 200));
    }
  }
  stage(pairs ? "persistence" : "fast");
  auto got = vr::parse(pk.bettiOutput);
  auto full = vr::persistence(ref, dim - 1);
  std::vector<vr::Bar> exp;
  for(auto b : full) {
    if(pairs && b.dim == 0 && b.b == b.d) continue;
    if((b.dim == 0 || pairs) && std::isinf(b.d)) b.d = eps; else if(std::isinf(b.d)) continue;
    exp.push_back(b);
    if(b.dim > 0) nontrivial();
    observe(b.dim); observe_d(b.d);
  }
  std::sort(exp.begin(), exp.end());
  auto cmp = [&](std::vector<vr::Bar> g, const char* what) {
    bool same = g.size() == exp.size();
    // as sets up to the printed precision
    auto rnd = [](std::vector<vr::Bar> v) { for(auto& b : v) { b.b = std::round(b.b * 1e5); b.d = std::round(b.d * 1e5); } std::sort(v.begin(), v.end()); return v; };
    auto x = rnd(g), y = rnd(exp);
    for(size_t i = 0; same && i < x.size(); i++) same = x[i].dim == y[i].dim && std::fabs(x[i].b - y[i].b) <= 1 && std::fabs(x[i].d - y[i].d) <= 1;
    MC_CHECK(same, what << ": got " << vr::show(g).substr(0, 500) << " expected " << vr::show(exp).substr(0, 500));
  };
  if(scale == 1) cmp(got, "reported intervals");    // printed with six decimals
  else MC_CHECK(got.size() == exp.size(), got.size() << " intervals are reported, " << exp.size() << " expected: " << vr::show(exp).substr(0, 500));
  if(pairs) return;
  std::vector<vr::Bar> tab; for(auto& t : pk.bettiTable) tab.push_back({t.bettiDim, t.birth, t.death}); std::sort(tab.begin(), tab.end());
  bool same = tab.size() == exp.size(); for(size_t i = 0; same && i < tab.size(); i++) same = tab[i].dim == exp[i].dim && std::fabs(tab[i].b - exp[i].b) <= 1e-9 * exp[i].b && std::fabs(tab[i].d - exp[i].d) <= 1e-9 * exp[i].d;
  MC_CHECK(same, "interval table: got " << vr::show(tab).substr(0, 500) << " expected " << vr::show(exp).substr(0, 500));
  Lists all; if(n) all = pk.complex->getAllEdges(eps); std::map<unsigned, std::vector<bool>> opens; int large = 0;
  for(auto& t : pk.bettiTable) {
    for(unsigned x : t.boundaryPoints) MC_CHECK((int)x < n, "the boundary of an interval names point " << x << " of " << n);
    if(t.bettiDim == 0) continue;
    // they carry a cycle: it runs through a simplex born with the class, and no point of it is idle
    std::vector<unsigned> bp(t.boundaryPoints.begin(), t.boundaryPoints.end());
    if(t.bettiDim + 1 >= all.size()) continue;
    if(!opens.count(t.bettiDim)) opens[t.bettiDim] = openers(all, t.bettiDim);
    if(all[t.bettiDim + 1].size() > 2500 && ++large > 2) continue;
    std::string bad = not_a_cycle(all, opens[t.bettiDim], bp, t.bettiDim, t.birth, t.death);
    MC_CHECK(bad.empty(), "the boundary points " << show(bp) << " of an interval of dimension " << t.bettiDim << " born at " << t.birth << " " << bad);
  }
}
