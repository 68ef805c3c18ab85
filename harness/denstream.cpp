// denStream preprocessor against a reference model of the algorithm (decayed sums kept exactly).
// Case: init|lambda|tail[|dimension[|power of two the data and the radius are multiplied with[|1: the stage has clustered other data before]]]     init: run-length list "<site letter><count>," for the initial window, tail: arrivals "<site letter><count>,"
//   # cycles over 40 more sites, = over the first twenty of them, $ over the others, % over 150 places on a far line
//   the site ~ stands for isolated points, each somewhere else
#include "mc.hpp"
#include "pipePacket.hpp"
#include "preprocessor.hpp"
const char* mc::harness_name = "denstream";
size_t mc::harness_batch = 40;
double mc::harness_case_timeout = 60;
// sites are far apart (> 16) or close in irregular steps, so that no decision is a tie
static const std::map<char, std::pair<double, double>> SITE = {{'a', {0, 0}}, {'b', {40.5, 3}}, {'c', {-7.25, 51}}, {'d', {3.3, 1.7}}, {'e', {44.2, 9.1}}, {'f', {90, -20}}, {'g', {92.5, -19}}, {'h', {-60, -61}}, {'i', {20.1, 1.9}},
  {'j', {-26, 0}}, {'k', {100, 200}}, {'l', {100, 210}}, {'m', {-300, 40}}};   // j with 25 points at a, k with l: a radius of exactly 5

void mc::enumerate(Explorer& E) {
  // small data sets: only the initial clustering
  for(int a = 0; a <= 44; a += (a < 17 || a > 22) ? 4 : 1) for(int b = 0; b <= 24; b += (b < 17 || b > 22) ? 6 : 1) for(int d = 0; d <= 4; d += E.small() ? 4 : 2) if(a + b + d)
    for(int l = 0; l < 2; l++) E.add("a" + std::to_string(a) + ",b" + std::to_string(b) + ",d" + std::to_string(d) + ",f1|" + std::to_string(l) + "|");
  if(!E.small()) for(int a : {5, 19, 20, 21, 40, 90}) for(int b : {0, 18, 20, 33, 120}) for(int d : {0, 7, 30}) for(int dim = 1; dim <= 4; dim++) for(int l = 0; l < 3; l++)
    E.add("A" + std::to_string(a) + ",~3,B" + std::to_string(b) + ",D" + std::to_string(d) + ",A" + std::to_string(a) + ",F2|" + std::to_string(l) + "||" + std::to_string(dim));
  // a full initial window, then every arrival word
  std::vector<std::string> inits = {"a25,b30,c24,~921", "~500,b12,a21,d4,~300,e9,~154", "~1000"}, scat = {"A60,B90,~500,C40,~310", "~990,A10", "G300,~100,A300,H300"}; if(E.thorough()) inits.push_back("b40,~300,i20,a19,~621");
  std::vector<std::string> A = {"f1", "f3", "h1", "d1", "e20", "g2", "f40", "a60", "i1"}, S = {"F3", "H2", "D5", "E30", "G1", "A80", "~20", "F1"};
  int L = E.thorough() ? 4 : E.small() ? 1 : 3;
  for(auto& in : inits) for(int len = 0; len <= L; len++) words(len, (int)A.size(), [&](const std::vector<int>& w) {
    std::string t; for(int x : w) t += A[x] + ",";
    for(int l = 0; l < 2; l++) E.add(in + "|" + std::to_string(l) + "|" + (t.empty() ? "a0," : t));
  });
  // scattered clusters in one to four dimensions
  int k = 0;
  for(auto& in : scat) for(int len = 1; len <= L; len++) words(len, (int)S.size(), [&](const std::vector<int>& w) {
    std::string t; for(int x : w) t += S[x] + ","; if(len == 4 && (w[0] + w[3]) % 2) return;
    E.add(in + "|" + std::to_string(k % 3) + "|" + t + "|" + std::to_string(1 + k / 3 % 4)); k++;
  });
  // long histories: clusters that are fed, forgotten and found again, outliers that come at a steady slow pace
  for(int per : {3, 7, 19, 20, 21, 33, 59, 60, 61, 79, 80, 120}) for(int grp : {1, 2, 3, 5}) for(const char* s : {"fh", "FH", "fb", "GA"}) for(int l = 0; l < 3; l++) { if(E.small() && (per != 20 || l)) continue;
    std::string t; for(int r = 0; r < 6; r++) { t += s[r % 2]; t += std::to_string(grp) + ",~" + std::to_string(per) + ","; } E.add("a25,b30,~945|" + std::to_string(l) + "|" + t + "|2"); }
  // slow decay, other magnitudes, a stage used before with other data and another configuration
  for(int per : {7, 20, 37, 41, 60}) for(int grp : {1, 3, 5}) for(const char* s : {"fh", "GA", "FB"}) for(int l : {3, 4}) { if(E.small() && (per != 37 || l == 4)) continue;
    std::string t; for(int r = 0; r < (l == 3 ? 2000 : 3200) / (per + grp); r++) { t += s[r % 2]; t += std::to_string(grp) + ",~" + std::to_string(per) + ","; } E.add("a25,b30,~945|" + std::to_string(l) + "|" + t + "|2"); }
  // a radius of exactly the bound
  for(const char* t : {"j1", "j2", "k1,l1", "l1,k1", "k1,l2", "k1,l1,l1", "j1,k1,l1", "k1,~3,l1", "k1,m1,l1", "l1,a3,k1", "m1,k1,l1,j1", "k1,l1,k1"}) for(const char* u : {"", "a19", "k1,l1,k1", "j1"}) for(int l = 0; l < (E.small() ? 1 : 4); l++) for(const char* in : {"a25,b30,~945", "~970,a25,~5"}) if(!E.small() || !u[0] || in[0] == '~') E.add(std::string(in) + "|" + std::to_string(l) + "|" + t + "," + u + "|2");
  // several outliers at a time: every word of arrivals
  for(const char* pre : {"f1,h1,m1,~2,", "~5,h1,", "a7,~3,f1,h1,~1,m1,"}) words(E.thorough() ? 7 : E.small() ? 3 : 5, 4, [&](const std::vector<int>& w) { std::string t; for(int x : w) t += std::vector<std::string>{"m1,", "h1,", "a19,", "a20,f1,"}[x]; for(int l : {0, 2}) if(!l || w[0] == w[1]) E.add("a25,b30,~945|" + std::to_string(l) + "|" + pre + t + (w[0] % 2 ? "m1,a20,a20,h1,m1" : "a20,a20,m2,h1") + "|2"); });
  // outliers of every age and weight at a pruning moment (every 3, 1, 18 or 70 units of 20 points), with others alive
  auto gap = [](int n) { return n ? ",~" + std::to_string(n) : std::string(); };
  for(int l : {0, 1}) for(int x = 0; x < (l ? 45 : 85); x += E.small() ? 19 : 1) for(int y : {0, 19, 20, 21}) for(int z : {0, 20, 40}) for(int p = 0; p < 3; p++) if((E.thorough() || (x + y + z + p) % 3 == 0 || x % 20 == 19) && (p || !y))
    E.add("a25,b30,~945|" + std::to_string(l) + "|a1" + gap(x) + ",h1" + gap(y) + (p ? ",h1" : "") + gap(z) + (p == 1 ? ",h1" : ",h2") + ",a3|2");
  for(int l : {2, 3}) { int T = l == 2 ? 18 : 70, first = (50 / T + 1) * T - 50; for(int a : {1, first / 2, first - 3, first - 1, first, first + 1, first + T / 2, first + T - 2}) for(int b : {0, 1, T / 4, T / 2, T - 5, T - 2}) for(int c : {0, 2, T / 3, T - 2}) for(int p = 1; p < 3; p++) { if(E.small() && (a + b + c + p) % 7) continue;
    E.add("a25,b30,~945|" + std::to_string(l) + "|a1" + gap(20 * a - 2) + ",h1" + gap(20 * b) + ",h1" + gap(20 * c) + (p == 1 ? ",h1" : ",h2") + ",a3|2"); } }
  // dozens of clusters and more than a hundred outliers; many coordinates
  for(const char* in : {"#1000", "a25,#975", "=420,$520,~60", "#200,~800"}) for(const char* t : {"", "#40", "=400,$40", "=400,#200,$100", "=300,~40,$60,~200,#90", "%150,#40,%150", "%100,=200,%150,=150,%160", "=700,%90,$200,%60"}) for(int l = 0; l < (E.small() ? 1 : 4); l++) for(int dim : {2, 3}) if(!E.small() || (t[0] == '=' && dim == 2)) E.add(std::string(in) + "|" + std::to_string(l) + "|" + t + "|" + std::to_string(dim));
  for(int dim : {5, 9, 25, 40}) for(const char* in : {"A60,B90,~500,C40,~310", "a25,b30,c24,~921", "#1000", "A19,B21,~30"}) for(const char* t : {"", "F3,H2,D5,A30,", "h3,~20,H20,~60,", "f1,~3,f1,b3,A2,~40,#30"}) for(int l = 0; l < 3; l++) if((!t[0] || std::string(in).size() > 15 || in[0] == '#') && (!E.small() || (dim == 25 && !l))) E.add(std::string(in) + "|" + std::to_string(l) + "|" + t + "|" + std::to_string(dim));
  int j = 0;
  for(auto& in : inits) for(int sc : {-40, -13, 17, 40}) if(!E.small() || sc == 17) for(int len = 1; len <= (E.small() ? 1 : 2); len++) words(len, (int)A.size(), [&](const std::vector<int>& w) { std::string t; for(int x : w) t += A[x] + ","; E.add(in + "|" + std::to_string(j++ % 4) + "|" + t + "|2|" + std::to_string(sc) + "|" + std::to_string(j % 2)); });
  for(auto& in : {"A60,B90,~500,C40,~310", "a25,b30,c24,~921", "A19,B21,~30", "~40", "D30"}) for(int d = 1; d <= 4; d++) for(int l = 0; l < (E.small() ? 1 : 4); l++) for(const char* t : {"", "F3,H2,D5,A30,", "h3,~20,H20,~60,"}) if(!t[0] || std::string(in).size() > 15) E.add(std::string(in) + "|" + std::to_string(l) + "|" + t + "|" + std::to_string(d) + "|0|1");
}

namespace {
int DIM = 2; bool undecided;
std::string show17(double x) { char b[40]; snprintf(b, 40, "%.17g", x); return b; }
bool lt(double a, double b, double unit = 1) { if(a != b && std::fabs(a - b) < 1e-9 * (unit + std::fabs(b))) undecided = true; return a < b; }
struct M { double w = 0; double s[48] = {0}, q[48] = {0}; int t = 0, born = 0;
  double decay(int now, double lam) const { return std::pow(2.0, -lam * (now - t)); }
  double rad(int now, double lam, const double* p) const { double f = decay(now, lam), W = w * f + 1, r = 0; for(int k = 0; k < DIM; k++) { double c = (s[k] * f + p[k]) / W; r += (q[k] * f + p[k] * p[k]) / W - c * c; } return std::sqrt(std::max(0.0, r)); }
  void add(int now, double lam, const double* p) { double f = decay(now, lam); w = w * f + 1; for(int k = 0; k < DIM; k++) { s[k] = s[k] * f + p[k]; q[k] = q[k] * f + p[k] * p[k]; } t = now; }
  double dist(const double* p) const { double r = 0; for(int k = 0; k < DIM; k++) r += (s[k] / w - p[k]) * (s[k] / w - p[k]); return std::sqrt(r); }
};
}

void mc::run_case(const std::string& cs) {
  auto f = split(cs, '|'); DIM = f.size() > 3 ? toi(f[3]) : 2; undecided = false;
  static const double LAMBDA[] = {0.25, 1.5, 0.04, 0.01, 0.00625}; const char* LS[] = {".25", "1.5", "0.04", "0.01", "0.00625"};
  double lam = LAMBDA[toi(f[1])], scale = std::ldexp(1.0, f.size() > 4 ? toi(f[4]) : 0), eps = 5 * scale;
  std::vector<char> seq, tail;
  auto expand = [](const std::string& s, std::vector<char>& o) { for(auto& r : mc::split(s, ',')) if(!r.empty()) for(int i = 0; i < mc::toi(r.substr(1)); i++) o.push_back(r[0]); };
  expand(f[0], seq); expand(f[2], tail);
  int n0 = std::min<int>(1000, seq.size());
  for(char c : tail) seq.push_back(c);
  std::vector<std::vector<double>> data;
  for(size_t i = 0; i < seq.size(); i++) {    // upper case: scattered around the site
    std::pair<double, double> s(1000 + 53.0 * i, 500 + 47.0 * (i / 40)); char c = tolower(seq[i]); if(c == '#' || c == '=' || c == '$' || c == '%') { size_t q = i * 7 % (c == '#' ? 40 : c == '%' ? 150 : 20) + (c == '$' ? 20 : c == '%' ? 1000 : 0); s = {-2000 - 61.0 * q, 37.0 * (q % 9) + 0.011 * q * q}; } else if(c != '~') s = SITE.at(c); 
    std::vector<double> x = {s.first, s.second, 0.25 * s.first - 0.5 * s.second, 3 - 0.125 * s.first}; while((int)x.size() < DIM) x.push_back(0.03 * (x.size() % 5) * s.first + 0.5 * (x.size() % 3)); x.resize(DIM);
    if(seq[i] != c) for(int k = 0; k < DIM; k++) x[k] += 0.37 * ((i * (7 + k) + i * i * k) % 11) - 1.3;
    for(auto& v : x) v *= scale;
    data.push_back(x); }
  // ---- reference
  std::vector<M> P, O;
  { // initial density clustering with 20 points within 5
    static std::map<std::string, std::tuple<std::vector<int>, int, bool>> memo; std::vector<int> lab; int nl = 0; auto key = f[0] + "|" + std::to_string(DIM) + "|" + std::to_string(scale);
    if(memo.count(key)) std::tie(lab, nl, undecided) = memo[key];
    else {
    auto near = [&](int a, int b) { double r = 0; for(int k = 0; k < DIM; k++) r += (data[a][k] - data[b][k]) * (data[a][k] - data[b][k]); return !lt(eps, std::sqrt(r), scale); };
    std::vector<std::vector<int>> nb(n0); for(int i = 0; i < n0; i++) for(int j = 0; j < n0; j++) if(near(i, j)) nb[i].push_back(j);
    lab.assign(n0, 0);
    for(int i = 0; i < n0; i++) { if(nb[i].size() < 20 || lab[i]) continue;
      std::vector<int> st = {i}; lab[i] = ++nl;
      while(!st.empty()) { int x = st.back(); st.pop_back(); for(int j : nb[x]) { if(lab[j] && lab[j] != nl) undecided = true; if(!lab[j]) { lab[j] = nl; if(nb[j].size() >= 20) st.push_back(j); } } } }
    memo[key] = std::make_tuple(lab, nl, undecided); }
    P.resize(nl); int t = n0 / 20; for(auto& m : P) m.t = m.born = t;
    for(int i = 0; i < n0; i++) if(lab[i]) P[lab[i] - 1].add(t, lam, data[i].data());
  }
  int Tp = (int)std::ceil((1 / lam) * std::log(2.0 / 1.0)), now = n0 / 20, within = n0 % 20;
  for(size_t i = n0; i < data.size(); i++) {
    if(++within == 20) { within = 0; now++; }
    const double* p = data[i].data(); bool done = false;
    auto nearest = [&](std::vector<M>& v) { int b = 0; for(size_t k = 1; k < v.size(); k++) if(lt(v[k].dist(p), v[b].dist(p), scale)) b = k; return b; };
    if(!P.empty()) { int b = nearest(P); if(!lt(eps, P[b].rad(now, lam, p), scale)) { P[b].add(now, lam, p); done = true; } }
    if(!done && !O.empty()) { int b = nearest(O); if(!lt(eps, O[b].rad(now, lam, p), scale)) { O[b].add(now, lam, p); done = true; if(lt(2, O[b].w)) { P.push_back(O[b]); O.erase(O.begin() + b); nontrivial(); } } }
    if(!done) { M m; m.born = m.t = now; m.add(now, lam, p); O.push_back(m); }
    if(now % Tp == 0 && within == 0) {
      for(size_t k = 0; k < P.size();) if(lt(P[k].w * P[k].decay(now, lam), 2)) { P.erase(P.begin() + k); nontrivial(); } else k++;
      for(size_t k = 0; k < O.size();) { double xi = (std::pow(2, -lam * (now - O[k].born + Tp)) - 1) / (std::pow(2, -lam * Tp) - 1); if(lt(O[k].w * O[k].decay(now, lam), xi)) { O.erase(O.begin() + k); nontrivial(); } else k++; }
    }
  }
  if(undecided) { observe(0xdead); return; }
  // ---- implementation
  std::map<std::string, std::string> cfg = {{"epsilon", show17(eps)}, {"lambda", LS[toi(f[1])]}, {"debug", "0"}, {"outputFile", "console"}, {"dimensions", "1"}};
  preprocessor factory; auto* ds = factory.newPreprocessor("denstream");
  MC_CHECK(ds && ds->configPreprocessor(cfg), "the preprocessor was not configured");
  pipePacket pk(cfg, "simplexTree"); pk.originalData = data; pk.fullData = data;
  auto check = [&](const char* what) {
    bool files = data.size() < 1300; if(files) fresh_dir("output");
    pipePacket out = files ? ds->runPreprocessorWrapper(pk) : ds->runPreprocessor(pk); op(data.size());
    if(files) { std::vector<std::vector<double>> g; for(auto& line : split(read_file("output/DenStream_centroid_output.csv"), '\n')) { std::vector<double> r; for(auto& x : split(line, ',')) if(!x.empty()) r.push_back(atof(x.c_str())); if(!r.empty()) g.push_back(r); }
      MC_CHECK(g.size() == out.originalData.size(), what << ": the file of centres has " << g.size() << " rows for " << out.originalData.size() << " centres"); for(size_t q = 0; q < g.size(); q++) { MC_CHECK(g[q].size() == out.originalData[q].size(), what << ": row " << q << " of the file of centres is " << show(g[q])); for(size_t j = 0; j < g[q].size(); j++) MC_CHECK(std::fabs(g[q][j] - out.originalData[q][j]) <= 1e-6 + 1e-12 * std::fabs(g[q][j]), what << ": row " << q << " of the file of centres is " << show(g[q])); } }
    MC_CHECK(out.originalData.size() == P.size(), what << ": " << out.originalData.size() << " centres, expected " << P.size());
    for(size_t k = 0; k < P.size(); k++) for(int j = 0; j < DIM; j++) MC_CHECK(std::fabs(out.originalData[k][j] - P[k].s[j] / P[k].w) < 1e-7 * scale, what << ": centre " << k << " is " << show(out.originalData[k]) << ", expected " << P[k].s[0] / P[k].w << " " << P[k].s[1] / P[k].w);
    MC_CHECK(out.fullData == data, what << ": the full data were changed");
  };
  if(f.size() > 5 && f[5] == "1") {
    auto other = cfg; other["epsilon"] = "3"; other["lambda"] = "0.7"; other["clusters"] = "4"; MC_CHECK(ds->configPreprocessor(other), "the preprocessor was not configured"); pipePacket q(other, "simplexTree");
    std::vector<std::vector<double>> d2; for(int i = 0; i < 1200; i++) { std::vector<double> x(DIM + i % 1, i % 3 ? 7.5 * (i % 5) : 300.0 + i); x[0] += 0.01 * (i % 7); d2.push_back(x); }
    q.originalData = q.fullData = d2; ds->runPreprocessor(q); op(); MC_CHECK(ds->configPreprocessor(cfg), "the preprocessor was not configured"); }
  check("first run");
  if(f[2].empty() || tail.size() < 30) check("second run of the same preprocessor");
  observe(P.size()); for(auto& m : P) { observe_d(std::floor(m.s[0] / m.w * 1e4)); }
}
