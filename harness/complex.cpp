// C01/C02: the constructed simplicial complex is exactly the Vietoris-Rips complex.
// Case: rep|n|D|order|weights[|embedding]   weights: one digit per pair (i<j), eps fixed at level 1 (=2.0):
//   digit 0: 1.0 (inside)  1: 2.0 (exactly eps)  2: 3.0 (outside)  3: 1.5 (inside)  4: 0 (coincident)
// rep L = list, T = tree, I = indexed tree.   D = dimension bound.   order: how expansion is requested
//   weights may also be =family:labelling, a structured graph with many points
//   embedding: n nearly equal distances, t tiny ones, g a different distance for every pair within the threshold, p six different distances, m distances that differ in the last digits
//   d direct, s stepwise (1,2,..,D), r repeated, i after every insertion, q listed after every insertion, x likewise, but by dimension or by index first
#include "vr.hpp"
#include "graphs.hpp"
#include "simplexArrayList.hpp"
#include "simplexTree.hpp"
#include "indSimplexTree.hpp"
const char* mc::harness_name = "complex";
size_t mc::harness_batch = 4000;
double mc::harness_case_timeout = 10;
// Embeddings of the levels: s as above; n nearly equal and large (closer than a thousandth, equal in single precision)
static const std::map<char, std::vector<double>> LEVELS = {{'s', {1.0, 2.0, 3.0, 1.5, 0.0}}, {'n', {4096, 4096.0001, 4096.0002, 4096.00005, 0.0}}, {'t', {1e-5, 2e-5, 3e-5, 1.5e-5, 0.0}}, {'p', {1.0, 2.0, 3.0, 1.1, 1.2, 1.3, 1.4, 1.5}}, {'m', {1.0, 2.0, 3.0, 1 + 2.9e-14, 1 + 6e-14}}};
#ifndef REPS
#define REPS "LTI"
#endif

void mc::enumerate(Explorer& E) {
  std::string reps = REPS;
  for(char rep : reps) {
    const char* modes = rep == 'L' ? "dsri" : "dqx";
    auto pairs = [](int n) { return n * (n - 1) / 2; };
    auto all = [&](int n, int k, int D, const char* modes, const std::vector<int>& map, const std::string& emb = "") {
      words(pairs(n), k, [&](const std::vector<int>& w) {
        std::string s; for(int x : w) s += char('0' + map[x]);
        for(const char* m = modes; *m; m++) E.add(std::string(1, rep) + "|" + std::to_string(n) + "|" + std::to_string(D) + "|" + *m + "|" + s + emb);
      });
    };
    int k = 0; auto named = [&](const char* fam, int n, int D, int lab) { E.add(std::string(1, rep) + "|" + std::to_string(n) + "|" + std::to_string(D) + "|" + modes[k++ % strlen(modes)] + "|=" + fam + ":" + std::to_string(lab) + "|g"); E.add(std::string(1, rep) + "|" + std::to_string(n) + "|" + std::to_string(D) + "|" + modes[k++ % strlen(modes)] + "|=" + fam + ":" + std::to_string(lab)); };
    for(int lab = 0; lab < (E.small() ? 1 : E.thorough() ? 8 : 3); lab++) {
      for(const char* fam : {"cycle", "tree", "wheel", "cone", "circ2", "circ3", "star", "fan", "ladder", "blocks"}) for(int n : {8, 11, 17, 34, 66, 70, 130, 260}) if(n < 20 || (!E.small() && (n < 100 || (!lab && rep != 'L') || (!lab && n < 200)))) for(int D : {1, 2, 3, 5}) named(fam, n, D, lab);
      for(int n : {8, 9, 10}) for(int D : {2, 4, 6, 7, 9}) if(n < 10 || D < 6 || !lab) for(const char* fam : {"full", "fullmix", "fullone", "fullup", "fulldown", "fullend"}) if(fam[4] == 0 || D > 4 || !E.small()) named(fam, n, D, lab);
      for(int n : {8, 9, 12}) for(int D : {2, 3, 5}) { named("bip", n, D, lab); if(n < 12 || D < 5) named("levels", n, D, lab); if(n % 2 == 0) named("octa", n, D, lab); }
    }
    if(E.small()) { for(int n = 1; n <= 4; n++) all(n, 3, n, modes, {0, 1, 2}); all(5, 2, 4, "d", {0, 2}); all(5, 2, 2, rep == 'L' ? "d" : "q", {0, 2}); continue; }
    { std::string w = "034567"; do for(int D = 2; D <= 3; D++) for(const char* m = rep == 'L' ? "d" : "dx"; *m; m++) E.add(std::string(1, rep) + "|4|" + std::to_string(D) + "|" + *m + "|" + w + "|p"); while(std::next_permutation(w.begin(), w.end())); }
    for(int n = 2; n <= 4; n++) for(int D = 1; D <= 3; D++) all(n, n == 4 ? 3 : 4, D, "d", {0, 3, 4, 2}, "|m");
    for(std::string e : {"|n", "|t"}) {
      for(int n = 2; n <= 4; n++) for(int D = n == 4 ? 2 : 1; D <= 3; D++) all(n, n == 4 && D == 2 ? 4 : 5, D, "d", {0, 1, 2, 3, 4}, e);
      all(5, 3, 4, "d", {0, 3, 2}, e);
    }
    for(int n = 1; n <= 3; n++) for(int D = rep == 'L' ? 0 : 1; D <= 4; D++) all(n, 5, D, modes, {0, 1, 2, 3, 4});
    for(int D = 1; D <= 4; D++) all(4, 5, D, modes, {0, 1, 2, 3, 4});
    for(int D = 1; D <= 5; D++) all(5, E.thorough() ? 4 : 3, D, D == 4 ? modes : D == 3 && rep != 'L' ? "q" : "d", {0, 2, 3, 1});
    for(int D = 2; D <= 6; D++) if(E.thorough() || D == 3 || D == 5) all(6, 2, D, "d", {0, 2});
    if(E.thorough()) { all(5, 5, 4, "d", {0, 1, 2, 3, 4}); all(6, 3, 5, "d", {0, 2, 3}); all(7, 2, 6, "d", {0, 2}); }
  }
}

template <class C> static std::vector<std::vector<vr::Key>> listing(C& c, double eps) {
  auto e = c.getAllEdges(eps);
  std::vector<std::vector<vr::Key>> r;
  for(auto& l : e) {
    for(size_t i = 1; i < l.size(); i++) MC_CHECK(l[i - 1].second <= l[i].second, "simplices not listed in order of weight: " << l[i - 1].second << " before " << l[i].second);
    r.push_back(vr::canon(l));
  }
  return r;
}

static void compare(const std::vector<std::vector<vr::Key>>& got, const std::vector<std::vector<vr::Simplex>>& ref) {
  for(size_t k = 0; k < std::max(got.size(), ref.size()); k++) {
    auto a = k < got.size() ? got[k] : std::vector<vr::Key>();
    auto b = k < ref.size() ? vr::canon(ref[k]) : std::vector<vr::Key>();
    MC_CHECK(a == b, "dimension " << k << ": got " << vr::show(a) << " expected " << vr::show(b));
    for(auto& x : a) for(unsigned v : x.first) mc::observe(v + 31 * k);
    for(auto& x : a) mc::observe_d(x.second);
    if(k >= 2 && !b.empty()) mc::nontrivial();
  }
}

static void indexed(simplexBase* c, const std::vector<std::vector<vr::Simplex>>& ref, double EPS) {
  auto ie = c->getIndexEdges(EPS); mc::op();
  MC_CHECK(ie.size() == ref.size(), "indexed listing has " << ie.size() << " dimensions, expected " << ref.size());
  auto* t = (indSimplexTree*)c;
  for(size_t k = 0; k < ie.size(); k++) {
    std::vector<vr::Key> a; unsigned pos = 0;
    for(auto& g : ie[k]) {
      a.push_back({std::vector<unsigned>(g.simplexSet.begin(), g.simplexSet.end()), g.weight});
      if(k > 0) MC_CHECK(g.entry && g.entry->sortedIndex == pos, "indexed listing: position of a simplex of dimension " << k << " is recorded as " << g.entry->sortedIndex << ", it is " << pos);
      MC_CHECK(t->getWeight(g.simplexSet) == g.weight, "weight lookup differs from the listing");
      if(pos) MC_CHECK(ie[k][pos - 1].weight <= g.weight, "indexed listing not sorted");
      pos++;
    }
    std::sort(a.begin(), a.end());
    MC_CHECK(a == vr::canon(ref[k]), "indexed listing, dimension " << k << ": got " << vr::show(a));
  }
}
static void bydim(simplexBase* c, const std::vector<std::vector<vr::Simplex>>& ref, double EPS) {
  for(int k : {-1, (int)ref.size(), (int)ref.size() + 1}) MC_CHECK(c->getDimEdges(k, EPS).empty(), "simplices of dimension " << k << ": not empty");
  for(int k = 0; k < (int)ref.size(); k++) {
    std::vector<std::vector<unsigned>> got = c->getDimEdges(k, EPS), exp; mc::op();
    for(auto& s : ref[k]) exp.push_back(std::vector<unsigned>(s.v.begin(), s.v.end()));
    std::sort(got.begin(), got.end()); std::sort(exp.begin(), exp.end());
    MC_CHECK(got == exp, "simplices of dimension " << k << ": got " << got.size() << ", expected " << exp.size());
  }
}

void mc::run_case(const std::string& cs) {
  auto f = split(cs, '|');
  char rep = f[0][0]; int n = toi(f[1]), D = toi(f[2]); char mode = f[3][0];
  char emb = f.size() > 5 ? f[5][0] : 's';
  const auto& LEVEL = LEVELS.at(emb == 'g' ? 's' : emb); const double EPS = LEVEL[1];
  std::string w = f[4]; if(w[0] == '=') { w = graphs::named(n, w.substr(1)); for(auto& c : w) c = "0310301032"[c - '0']; }
  auto d = vr::matrix(n, w, LEVEL);
  if(emb == 'g') {   // all distances different
    int np = n * (n - 1) / 2, c = 0, mul = 0; for(char x : cs) mul = (mul * 31 + x) % 9973; while(std::__gcd(++mul, np) != 1); for(int i = 0; i < n; i++) for(int j = i + 1; j < n; j++) { if(d[i][j] > 0 && d[i][j] < EPS) d[i][j] = 1.0 + 0.5 * ((long)c * mul % np) / np; c++; } }
  bool incl = rep == 'L';
  auto ref = vr::complex(d, EPS, D, incl);
  size_t total = 0; for(auto& l : ref) total += l.size();
  std::vector<double> pt = {1.0};
  std::map<std::string, std::string> cfg = {{"dimensions", std::to_string(D)}, {"epsilon", std::to_string(EPS)}, {"debug", "0"}, {"outputFile", "console"}};
  simplexBase base(cfg);
  simplexBase* c = base.newSimplex(rep == 'L' ? "simplexArrayList" : rep == 'T' ? "simplexTree" : "indSimplexTree", cfg);
  MC_CHECK(c, "no complex was created");
  c->setDistanceMatrix(d);
  for(int i = 0; i < n; i++) {
    c->insert(pt); op();
    if(mode == 'i') {   // the list is complete whenever it has been expanded
      c->expandDimensions(D); op();
      vr::Mat sub; for(int a = 0; a <= i; a++) sub.push_back(std::vector<double>(d[a].begin(), d[a].begin() + i + 1));
      auto r = vr::complex(sub, EPS, D, incl); size_t t = 0; for(auto& l : r) t += l.size();
      MC_CHECK(c->simplexCount() == (int)t, "after inserting and expanding " << i + 1 << " points: simplex count " << c->simplexCount() << ", expected " << t);
    }
    if(rep != 'L' && (n <= 14 || i % 16 < 2)) { // the tree representations are complete after every insertion
      vr::Mat sub; for(int a = 0; a <= i; a++) sub.push_back(std::vector<double>(d[a].begin(), d[a].begin() + i + 1));
      auto r = vr::complex(sub, EPS, D, incl); size_t t = 0; for(auto& l : r) t += l.size();
      MC_CHECK(c->simplexCount() == (int)t, "after inserting " << i + 1 << " points: simplex count " << c->simplexCount() << ", expected " << t);
      if(mode == 'x' && (n <= 20 || i % 16 == 1)) { if(rep == 'I') indexed(c, r, EPS); else bydim(c, r, EPS); if(i % 3 == 1) { compare(listing(*c, EPS), r); op(); } }
      if(mode == 'q' && (n <= 20 || i % 16 == 1)) { compare(listing(*c, EPS), r); op(); }
    }
  }
  if(mode == 's') for(int k = 1; k < D; k++) { c->expandDimensions(k); op(); }
  c->expandDimensions(D); op();
  if(mode == 'r') { c->expandDimensions(D); op(); }
  compare(listing(*c, EPS), ref);
  MC_CHECK(c->simplexCount() == (int)total, "simplex count " << c->simplexCount() << ", expected " << total);
  if(mode == 'd') {   // the reported size is that of one simplex times the number of simplices
    static std::map<char, double> one;
    if(!one.count(rep)) { simplexBase* o = base.newSimplex(rep == 'L' ? "simplexArrayList" : rep == 'T' ? "simplexTree" : "indSimplexTree", cfg); o->setDistanceMatrix({{0}}); o->insert(pt); one[rep] = o->getSize(); }
    MC_CHECK(one[rep] > 0 && c->getSize() == one[rep] * total, "size " << c->getSize() << " for " << total << " simplices, " << one[rep] << " for one");
  }
  MC_CHECK(c->vertexCount() == n, "vertex count " << c->vertexCount() << ", expected " << n);
  compare(listing(*c, EPS), ref);  // asking twice gives the same answer
  op(2);
  if(rep == 'L') {
    auto* l = (simplexArrayList*)c;
    if(n > 12) {   // every simplex, every non-edge, every triple of some points
      for(auto& g : ref) for(auto& s : g) { std::vector<unsigned> v(s.v.begin(), s.v.end()); MC_CHECK(c->find(v) && l->findWeight(v) == s.w, "membership of " << mc::show(v) << ": " << c->find(v) << ", weight " << l->findWeight(v) << ", expected " << s.w); }
      op(2 * total);
      for(unsigned a = 0; a < (unsigned)n; a++) for(unsigned b = a + 1; b < (unsigned)n; b++) { if(d[a][b] > EPS) MC_CHECK(!c->find(std::vector<unsigned>{a, b}) && l->findWeight(std::vector<unsigned>{a, b}) < 0, "membership of the pair " << a << "," << b << " too far apart"); if(b < 10) for(unsigned x = b + 1; x < 10; x++) { bool in = D >= 2 && std::max({d[a][b], d[a][x], d[b][x]}) <= EPS; MC_CHECK(c->find(std::vector<unsigned>{a, b, x}) == in, "membership of " << a << "," << b << "," << x << ": " << !in << ", expected " << in); } }
    } else
    for(unsigned m = 1; m < (1u << n); m++) {
      std::vector<unsigned> v; for(int i = 0; i < n; i++) if(m >> i & 1) v.push_back(i);
      bool in = (int)v.size() - 1 <= D && (v.size() == 1 || vr::weight(d, m) <= EPS);
      if(v.size() <= ref.size() || in) {
        MC_CHECK(c->find(v) == in, "membership of " << mc::show(v) << ": " << c->find(v) << ", expected " << in);
        double w = l->findWeight(v);
        MC_CHECK(in ? w == vr::weight(d, m) : w < 0, "weight of " << mc::show(v) << ": " << w << ", expected " << (in ? vr::weight(d, m) : -1.0));
        op(2);
      } else MC_CHECK(!c->find(v), "membership of " << mc::show(v) << " above the top dimension");
    }
    for(int k = 1; k <= (int)ref.size(); k++) for(double e : {LEVEL[0] / 2, LEVEL[0], LEVEL[3], LEVEL[1]}) {
      std::vector<std::vector<unsigned>> got = c->getDimEdges(k, e), exp; op();
      for(auto& s : ref[k - 1]) if(s.w <= e) exp.push_back(std::vector<unsigned>(s.v.begin(), s.v.end()));
      std::sort(got.begin(), got.end()); std::sort(exp.begin(), exp.end());
      MC_CHECK(got == exp, "simplices with " << k << " vertices within " << e << ": got " << got.size() << ", expected " << exp.size());
    }
    for(int k : {-1, 0, (int)ref.size() + 1, (int)ref.size() + 2}) MC_CHECK(c->getDimEdges(k, EPS).empty(), "simplices with " << k << " vertices: not empty");
  } else if(rep == 'T') {
    bydim(c, ref, EPS);
  } else {
    indexed(c, ref, EPS);
  }
}
