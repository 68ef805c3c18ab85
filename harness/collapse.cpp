// Elementary collapse in the expansion stage: a collapsed complex is a subcomplex with the same intervals.
// Case: rep|n|D|weights|embedding|value of the option   (all distances within the threshold except digit 9 = outside)
// weights: the digits of the upper triangle, or =family:labelling for a structured graph with n points
#include "vr.hpp"
#include "graphs.hpp"
#include "pipePacket.hpp"
#include "basePipe.hpp"
const char* mc::harness_name = "collapse";
size_t mc::harness_batch = 2000;
double mc::harness_case_timeout = 10;

void mc::enumerate(Explorer& E) {
  int k = 0;
  auto emit = [&](int n, int D, const std::vector<int>& w, std::initializer_list<int> map, const char* reps = "LT", const char* emb = "|s") {
    std::string s; for(int x : w) s += char('0' + *(map.begin() + x));
    for(const char* r = reps; *r; r++) E.add(std::string(1, *r) + "|" + std::to_string(n) + "|" + std::to_string(D) + "|" + s + emb + (k++ % 3 ? "|true" : "|1"));
    if(k % 16 < 2) E.add(std::string(k % 16 ? "T" : "L") + "|" + std::to_string(n) + "|" + std::to_string(D) + "|" + s + emb + (k % 32 < 16 ? "|false" : "|0"));
  };
  auto named = [&](int n, const char* fam, int lab, int D) { for(const char* r : {"L", "T"}) E.add(std::string(r) + "|" + std::to_string(n) + "|" + std::to_string(D) + "|=" + fam + ":" + std::to_string(lab) + "|s|" + (k++ % 2 ? "true" : "1")); };
  if(E.small()) { named(6, "wheel", 0, 2); named(6, "octa", 1, 3); }
  else for(int lab = 0; lab < (E.thorough() ? 12 : 4); lab++) for(int D = 2; D <= 4; D++) {
    for(int n = 6; n <= (E.thorough() ? 12 : 9); n++) for(const char* f : {"wheel", "cycle", "cone", "tree", "circ2", "circ3", "bip", "star", "levels", "fan"}) if(D < 4 || n <= 8) named(n, f, lab, D);
    for(int n : {6, 8}) named(n, "octa", lab, D);
    if(D < 4) { named(E.thorough() ? 16 : 12, "wheel", lab, 2); named(10, "full", lab, D); }
  }
  for(int n : {14, 20, 33, 48, 70, 130, 260}) { if(E.small() && n > 14) break; for(const char* f : {"wheel", "cycle", "cone", "tree", "circ2", "circ3", "star", "fan", "ladder", "blocks"}) for(int lab = 0; lab < (n > 70 ? 1 : n > 40 ? 2 : 3); lab++) for(int D = 2; D <= (n > 40 ? 2 : 3); D++) named(n, f, lab, D); }
  if(E.small()) { for(int n = 1; n <= 4; n++) words(n * (n - 1) / 2, 3, [&](const std::vector<int>& w) { emit(n, 3, w, {0, 1, 9}); }); words(10, 2, [&](const std::vector<int>& w) { emit(5, 3, w, {0, 9}); }); return; }
  for(int n = 1; n <= 3; n++) words(n * (n - 1) / 2, 4, [&](const std::vector<int>& w) { for(int D = 1; D <= 3; D++) emit(n, D, w, {0, 1, 2, 9}); });
  for(const char* e : {"|n", "|z"}) { words(6, 4, [&](const std::vector<int>& w) { for(int D = 2; D <= 3; D++) emit(4, D, w, {0, 1, 2, 9}, D == 2 ? "LT" : "L", e); });
    words(10, 2, [&](const std::vector<int>& w) { for(int D = 2; D <= 4; D++) emit(5, D, w, {0, 1}, "L", e); }); }
  words(6, 5, [&](const std::vector<int>& w) { for(int D = 1; D <= 3; D++) emit(4, D, w, {0, 1, 2, 3, 9}); });
  words(10, 3, [&](const std::vector<int>& w) { for(int D = 2; D <= 3; D++) emit(5, D, w, {0, 1, 9}, D == 2 ? "LT" : "L"); });
  if(E.thorough()) {
    words(10, 4, [&](const std::vector<int>& w) { for(int D = 2; D <= 4; D++) emit(5, D, w, {0, 1, 2, 9}, "L"); });
    words(15, 2, [&](const std::vector<int>& w) { for(int D = 2; D <= 3; D++) emit(6, D, w, {0, 9}, "L"); });
  } else words(15, 2, [&](const std::vector<int>& w) { if(w[0] == 0 && w[14] == 0) emit(6, 2, w, {0, 9}, "L"); });
}

void mc::run_case(const std::string& cs) {
  auto f = split(cs, '|');
  char rep = f[0][0]; int n = toi(f[1]), D = toi(f[2]);
  char emb = f.size() > 4 ? f[4][0] : 's';
  std::vector<double> LEVEL; for(int i = 0; i < 9; i++) LEVEL.push_back(emb == 'n' ? 4096 + i * 1e-4 : emb == 'z' ? 0.5 * i : 0.5 * (i + 1)); LEVEL.push_back(5000);
  std::string val = f.size() > 5 ? f[5] : "true"; bool on = val == "true" || val == "1";
  auto d = vr::matrix(n, f[3][0] == '=' ? graphs::named(n, f[3].substr(1)) : f[3], LEVEL);
  double eps = emb == 'n' ? 4500 : 10;
  std::string ct = rep == 'L' ? "simplexArrayList" : "simplexTree";
  std::map<std::string, std::string> cfg = {{"dimensions", std::to_string(D)}, {"epsilon", std::to_string(eps)}, {"debug", "0"}, {"outputFile", "console"}, {"twist", "false"}, {"complexType", ct}, {"collapse", val}};
  pipePacket pk(cfg, ct);
  pk.complex->setDistanceMatrix(d);
  std::vector<double> pt = {1.0};
  for(int i = 0; i < n; i++) pk.complex->insert(pt);
  basePipe factory;
  auto* rips = factory.newPipe("rips", ct);
  MC_CHECK(rips && rips->configPipe(cfg), "the expansion stage was not configured");
  pk = rips->runPipeWrapper(pk); op(n + 1);
  auto ref = vr::complex(d, eps, D, true);
  std::set<vr::Key> all; for(auto& l : ref) for(auto& k : vr::canon(l)) all.insert(k);
  std::set<std::vector<unsigned>> have; size_t left = 0;
  auto e = pk.complex->getAllEdges(eps);
  for(auto& l : e) for(auto& k : vr::canon(l)) {
    MC_CHECK(all.count(k), "after collapsing, the complex holds a simplex it did not have before: " << vr::show({k}));
    MC_CHECK(have.insert(k.first).second, "after collapsing, a simplex is listed twice: " << vr::show({k}));
    left++;
  }
  MC_CHECK(pk.complex->simplexCount() == (int)left, "after collapsing, simplex count " << pk.complex->simplexCount() << " but " << left << " are listed");
  for(auto& s : have) if(s.size() > 1) for(size_t i = 0; i < s.size(); i++) {
    auto t = s; t.erase(t.begin() + i);
    MC_CHECK(have.count(t), "after collapsing, simplex " << mc::show(s) << " has lost its face " << mc::show(t));
  }
  MC_CHECK(on || left == all.size(), "without collapsing, " << left << " of " << all.size() << " simplices are left");
  if(left < all.size()) nontrivial();
  observe(left); observe(all.size());
  for(const char* stage : {"persistence", "fast"}) {
    bool pairs = stage[0] == 'p';
    auto* p = factory.newPipe(stage, ct);
    MC_CHECK(p && p->configPipe(cfg), "the persistence stage was not configured");
    pipePacket q = pk; q.bettiOutput = "";
    q = p->runPipeWrapper(q); op();
    auto got = vr::parse(q.bettiOutput);
    std::vector<vr::Bar> exp;
    for(auto b : vr::persistence(ref, D - 1)) {
      if(pairs && b.dim == 0 && b.b == b.d) continue;
      if((b.dim == 0 || pairs) && std::isinf(b.d)) b.d = eps;
      else if(std::isinf(b.d)) continue;
      exp.push_back(b);
    }
    std::sort(exp.begin(), exp.end());
    bool same = got.size() == exp.size();
    for(size_t i = 0; same && i < got.size(); i++) same = got[i].dim == exp[i].dim && std::fabs(got[i].b - exp[i].b) < 2e-6 && std::fabs(got[i].d - exp[i].d) < 2e-6;
    MC_CHECK(same, "intervals of the collapsed complex (" << stage << "): got " << vr::show(got) << " expected " << vr::show(exp));
  }
}
