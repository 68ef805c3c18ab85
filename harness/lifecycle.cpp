// Complex life cycle: every interleaving of insertions, queries and clears leaves the complex equal to
// the Vietoris-Rips complex of the points inserted since the last clear.
// Case: rep|D|m1|m2|ops   ops over I (insert next point), Q (expand + list + compare), C (clear, next matrix)
#include "vr.hpp"
#include "graphs.hpp"
#include "simplexArrayList.hpp"
#include "simplexTree.hpp"
#include "indSimplexTree.hpp"
const char* mc::harness_name = "lifecycle";
size_t mc::harness_batch = 4000;
double mc::harness_case_timeout = 10;
static const std::vector<double> LEVEL = {1.0, 1.5, 3.0, 0.5};
static const double EPS = 2.0;

void mc::enumerate(Explorer& E) {
  std::vector<std::string> mats = {"000000", "010203", "213021", "021100", "321013", "222222", "312033", "202022"};
  int L = E.thorough() ? 9 : 7;
  size_t nm = E.thorough() ? mats.size() : 5;
  for(char rep : std::string("LTI")) for(int len = 1; len <= L; len++)
    words(len, 3, [&](const std::vector<int>& w) {
      std::string ops; int ins = 0, clears = 0; bool ok = true;
      for(int x : w) { char c = "IQC"[x]; ops += c; if(c == 'I') { if(++ins > 4) ok = false; } if(c == 'C') { ins = 0; clears++; } }
      if(!ok || ops[0] == 'Q' || ops.back() == 'I') return;
      for(size_t a = 0; a < nm; a++) for(size_t b = 0; b < (clears ? nm : 1); b++) {
        if(len >= 8 && (a + b) % 3) continue;
        for(int D : {1, 2, 3}) if(D == 3 || len <= 5) E.add(std::string(1, rep) + "|" + std::to_string(D) + "|" + mats[a] + "|" + mats[b] + "|" + ops);
      }
    });
  // many epochs
  { int k = 0; for(char rep : std::string("LTI")) for(int e : {4, 7, 12}) for(int a : {1, 2, 3, 6}) for(int b : {0, 1, 4, 7}) for(int q = 0; q < 4; q++) for(int D : {1, 2, 4}) { std::string ops; for(int i = 0; i < e; i++) { ops += std::string((i % 2 ? b : a) + i % 3, 'I'); if(q == 3 || (i % 3) == q) ops += "Q"; if(i + 1 < e) ops += (i % 4 == 3) ? "CC" : "C"; } k++; static const char* FAM[] = {"levels", "wheel", "circ2", "fan", "cycle", "octa"};
    if(!E.small() || k % 8 == 0) E.add(std::string(1, rep) + "|" + std::to_string(D) + "|=" + FAM[k % 6] + ":" + std::to_string(k % 4) + "|=" + FAM[k / 2 % 5] + ":" + std::to_string(k % 3) + "|" + ops + "QQ"); } }
  // large epochs: a number before an operation repeats it
  { int k = 0; static const char* FAM[] = {"cycle", "fan", "ladder", "blocks", "circ2", "tree", "star", "wheel"}; for(char rep : std::string("LTI")) for(int N : {24, 40, 70, 110, 260}) for(const char* o : {"aIQC3IQ", "3IQCaIQ", "aIQCaIQ", "bIQaIQCbIQC1IQ", "aICbIQCaIQQ", "aIQC1IQC2IQC3IQCbIQ", "2IQCaIC2IQCaIQ"}) for(int D = 1; D <= 3; D++) for(int r = 0; r < (E.thorough() ? 6 : 2); r++) {
    k++; if(E.small() && (N > 24 || k % 5)) continue; if(N > 110 && !E.thorough() && (D != 1 + k % 2 || r)) continue; std::string ops; for(const char* q = o; *q; q++) if(*q == 'a') ops += std::to_string(o[0] == 'b' ? N - N / 2 : N); else if(*q == 'b') ops += std::to_string(N / 2); else ops += *q;
    E.add(std::string(1, rep) + "|" + std::to_string(D) + "|=" + FAM[k % 8] + ":" + std::to_string(k % 4) + ":" + std::to_string(N) + "|=" + FAM[(k / 8 + k) % 7] + ":" + std::to_string(k % 3) + ":" + std::to_string(N) + "|" + ops); } }
  // high dimensions
  { int k = 0; static const char* FAM[] = {"full", "fullmix", "octa", "fullone", "circ3", "fullup", "blocks", "fulldown"}; for(char rep : std::string("LTI")) for(int N : {5, 6, 7, 8, 9}) for(const char* o : {"aIQC3IQ", "3IQCaIQ", "aIQCaIQ", "aICaIQCaIQQ", "aIQCC2IQC3IQCaIQ"}) for(int D = 4; D <= 7; D++) for(int r = 0; r < 8; r++) {
    k++; if(E.small() && (N > 6 || k % 5)) continue; std::string ops; for(const char* q = o; *q; q++) ops += *q == 'a' ? std::string(1, '0' + N) : std::string(1, *q);
    E.add(std::string(1, rep) + "|" + std::to_string(D) + "|=" + FAM[r] + ":" + std::to_string(k % 4) + ":" + std::to_string(N) + "|=" + FAM[(k / 8 + k) % 7] + ":" + std::to_string(k % 3) + ":" + std::to_string(N) + "|" + ops); } }
  // three epochs of up to 9 points, queried in the middle, at the end, or not at all before the next clear
  static const char* FAM[] = {"levels", "wheel", "circ2", "fan", "cycle", "octa"}; int k = 0;
  for(char rep : std::string("LTI")) for(int a : {0, 1, 2, 5, 9}) for(int b : {0, 1, 3, 6, 9}) for(int c : {1, 4, 8}) for(int qa = 0; qa < 3; qa++) for(int qb = 0; qb < 3; qb++) for(int D : {1, 2, 3, 5}) {
    auto ep = [](int n, int q) { std::string s(n, 'I'); if(q == 2 && n > 1) s.insert(n / 2, "Q"); if(q) s += "Q"; return s; };
    for(int r = 0; r < (E.thorough() ? 4 : 1); r++) { k++; E.add(std::string(1, rep) + "|" + std::to_string(D) + "|=" + FAM[k % 6] + ":" + std::to_string(k % 4) + "|=" + FAM[k / 2 % 5] + ":" + std::to_string(k % 3) + "|" + ep(a, qa) + "C" + ep(b, qb) + "C" + ep(c, 2)); }
  }
}

using namespace mc;
static vr::Mat mat(const std::string& w) { if(w[0] != '=') return vr::matrix(4, w, LEVEL); auto p = split(w, ':'); int n = p.size() > 2 ? toi(p[2]) : 9; std::string g = graphs::named(n, w.substr(1)); for(auto& c : g) c = "0130130132"[c - '0']; return vr::matrix(n, g, LEVEL); }

void mc::run_case(const std::string& cs) {
  auto f = split(cs, '|');
  char rep = f[0][0]; int D = toi(f[1]);
  vr::Mat m[2] = {mat(f[2]), mat(f[3])};
  std::map<std::string, std::string> cfg = {{"dimensions", std::to_string(D)}, {"epsilon", "2"}, {"debug", "0"}, {"outputFile", "console"}};
  simplexBase base(cfg);
  simplexBase* c = base.newSimplex(rep == 'L' ? "simplexArrayList" : rep == 'T' ? "simplexTree" : "indSimplexTree", cfg);
  int epoch = 0, n = 0, step = 0; bool expanded = false, queried = false;
  c->setDistanceMatrix(m[0]);
  std::vector<double> pt = {1.0};
  std::string ops; { int rep = 0; for(char o : f[4]) if(isdigit(o)) rep = rep * 10 + o - '0'; else { ops += std::string(std::max(rep, 1), o); rep = 0; } }
  for(char o : ops) {
    step++; op();
    if(o == 'I') { c->insert(pt); n++; expanded = false; }
    else if(o == 'C') { c->clear(); n = 0; epoch++; c->setDistanceMatrix(m[epoch % 2]); if(queried) nontrivial(); }
    else {
      c->expandDimensions(D); expanded = true; queried = true;
      auto got = c->getAllEdges(EPS);
      vr::Mat sub; for(int a = 0; a < n; a++) sub.push_back(std::vector<double>(m[epoch % 2][a].begin(), m[epoch % 2][a].begin() + n));
      auto ref = vr::complex(sub, EPS, D, rep == 'L');
      for(size_t k = 0; k < std::max(got.size(), ref.size()); k++) {
        auto a = k < got.size() ? vr::canon(got[k]) : std::vector<vr::Key>(); auto b = k < ref.size() ? vr::canon(ref[k]) : std::vector<vr::Key>();
        MC_CHECK(a == b, "step " << step << " dimension " << k << ": got " << vr::show(a) << " expected " << vr::show(b));
        if(k < got.size()) for(size_t i = 1; i < got[k].size(); i++) MC_CHECK(got[k][i - 1].second <= got[k][i].second, "step " << step << ": listing not in order of weight");
        for(auto& x : a) { observe_d(x.second); observe(x.first.size()); }
      }
      if(n >= 2 && step > 3) nontrivial();
      size_t t = 0; for(auto& l : ref) t += l.size();
      MC_CHECK(c->simplexCount() == (int)t, "step " << step << ": simplex count " << c->simplexCount() << ", expected " << t);
    }
    MC_CHECK(c->vertexCount() == n, "step " << step << ": vertex count " << c->vertexCount() << ", expected " << n);
    if(n == 0) MC_CHECK(c->simplexCount() == 0, "step " << step << ": an empty complex reports " << c->simplexCount() << " simplices");
    if(n == 0) MC_CHECK(c->getSize() == 0, "step " << step << ": an empty complex reports a size of " << c->getSize());
  }
}
