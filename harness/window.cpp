// The sliding and the naive window over a data stream, against a brute-force model of the window.
// Case: slide|W|dim|eps index|earlier stream|stream[|coordinates]      naive|len|pattern      (a stream is a word of runs: letter, count)
#include "vr.hpp"
#include "pipePacket.hpp"
#include "slidingWindow.hpp"
#include "naiveWindow.hpp"
const char* mc::harness_name = "window";
size_t mc::harness_batch = 200;
double mc::harness_case_timeout = 20;
using V = std::vector<double>;
static const std::vector<V> PT = {{0, 0}, {1, 0}, {0, 2}, {4, 0}, {9, 0}, {0.25, 0}, {40, 3}, {42, 3}, {0, -60}, {200, 200}, {0.5, 0}, {0, 2.5}};
static const std::vector<double> EPS = {1.7, 6, 50, 0.05};
static int COORDS = 2;   // of the points of a stream
static std::vector<V> stream2(const std::string& s) { std::vector<V> r; for(size_t i = 0; i < s.size();) { char c = s[i++]; int n = 0; while(i < s.size() && isdigit(s[i])) n = n * 10 + (s[i++] - '0'); if(!n) n = 1; for(int k = 0; k < n; k++) { if(c >= 'a') r.push_back(PT[c - 'a']); else { int q = r.size(); auto& b = PT[c - 'A']; r.push_back({b[0] + 0.03 * ((q * 7) % 11) + 0.002 * (q % 5), b[1] + 0.05 * ((q * q) % 13)}); } } } return r; }   // lower case: the point itself; upper case: points scattered around it

static std::vector<V> stream(const std::string& s) { auto r = stream2(s); if(COORDS != 2) for(size_t i = 0; i < r.size(); i++) { V& x = r[i]; double a = x[0], b = x[1]; if(COORDS == 1) x = {a + 3.7 * b}; else { x.push_back(0.5 * a - 0.25 * b); while((int)x.size() < COORDS) x.push_back((x.size() + 1) * 0.125 * (a + b)); } } return r; }

void mc::enumerate(Explorer& E) {
  auto add = [&](int W, int D, int e, const std::string& pre, const std::string& w) { E.add("slide|" + std::to_string(W) + "|" + std::to_string(D) + "|" + std::to_string(e) + "|" + pre + "|" + w); };
  auto letters = [](const std::vector<int>& w, const std::vector<int>& al) { std::string s; for(int x : w) s += char('a' + al[x]); return s; };
  // every stream over an alphabet
  for(int W = 2; W <= 3; W++) for(int n = 1; n <= (E.thorough() ? 7 : E.small() ? 4 : 6); n++) words(n, 5, [&](const std::vector<int>& w) { add(W, 1 + n % 2, n % 3, "", letters(w, {0, 1, 3, 4, 6})); });
  for(int n = 5; n <= (E.thorough() ? 7 : E.small() ? 5 : 6); n++) words(n, 4, [&](const std::vector<int>& w) { add(4, 2, 1, "", letters(w, {0, 2, 6, 8})); });
  if(!E.small()) words(5, 7, [&](const std::vector<int>& w) { add(3, 2, 2, "", letters(w, {0, 1, 2, 5, 7, 9, 11})); });
  // a full window followed by every continuation (partitions appear, shrink, vanish)
  for(const char* f : {"abc", "abf", "adc", "fab"}) words(E.thorough() ? 7 : E.small() ? 3 : 5, 5, [&](const std::vector<int>& w) { add(3, 2, 1, "", f + letters(w, {6, 7, 1, 8, 3})); });
  for(const char* f : {"abcd", "afkb", "aabc"}) words(E.thorough() ? 7 : E.small() ? 3 : 5, 5, [&](const std::vector<int>& w) { add(4, 2, 2, "", f + letters(w, {6, 7, 2, 8, 0})); });
  for(const char* f : {"abcde", "afkbc", "acdlb"}) words(E.small() ? 3 : 5, 4, [&](const std::vector<int>& w) { add(5, 2, 2, "", f + letters(w, {6, 7, 2, 8})); });
  for(const char* f : {"abcdel"}) words(E.thorough() ? 7 : E.small() ? 3 : 5, 4, [&](const std::vector<int>& w) { add(6, 2, 2, "", f + letters(w, {6, 7, 2, 8})); });
  // partitions that became outdated: long runs
  for(int W : {3, 4}) for(int r : {23, 24, 25, 26, 27}) for(const char* f : {"abcd", "abca"}) for(int x : {6, 8}) for(int y : {7, 6, 2}) for(int z : {0, 8, 9, 2}) for(int k : {1, 2})
    add(W, 1, 1, "", std::string(f).substr(0, W) + char('a' + x) + std::to_string(k) + char('a' + y) + std::to_string(r) + char('a' + z) + "1" + char('a' + (z + 1) % 9) + "1");
  for(int r : {22, 24, 25, 26}) for(int q : {1, 2, 3, 25, 26}) for(const char* t : {"j", "c", "i", "gi", "ih", "jb"}) add(4, 1, 1, "", "abcdg2i2h" + std::to_string(r) + "g" + std::to_string(q) + t);
  // trigger in the middle of the stream, windows filled at that moment, and streams evaluated before
  for(int n : {95, 96, 97, 98, 99, 100, 101, 102, 195, 196, 197, 200, 201}) for(const char* t : {"", "g", "gi"}) { add(4, 2, 2, "", "abcdgih" + std::to_string(n - 6) + t); add(4, 2, 2, "", "abcd" + std::to_string(n - 3) + t); }
  for(const char* pre : {"a", "abc", "abcdgih", "aaaagi", "abcdgih30"}) for(const char* s : {"a", "ab", "abcd", "abcdg", "abcdgi", "aabbgi", "abcdgihh", "abcdgaih"}) for(int W : {2, 3, 4}) add(W, 2, 2, pre, s);
  for(int W : {7, 8}) words(5, 3, [&](const std::vector<int>& w) { add(W, 1, 2, "", std::string("abcdelkf").substr(0, W) + letters(w, {6, 8, 2})); });
  // complexes of dimension 3 to 5
  for(int W = 5; W <= (E.small() ? 5 : 8); W++) for(int D = 3; D <= 5; D++) for(int e = 1; e <= 2; e++) words(E.small() ? 2 : 3, 4, [&](const std::vector<int>& w) { add(W, D, e, "", std::string("abcdelkf").substr(0, W) + letters(w, {6, 8, 2, 11})); });
  // large windows: partitions that are outdated but still hold points, also the one the next point belongs to
  for(int W : {30, 40, 60}) for(int a : {1, 2, 5}) for(int b : {1, 2, 20, 26, 27, 30}) for(int c : {0, 1, 5, 26, 27}) for(int d : {1, 2, 3}) {
    if(E.small() && (W != 40 || d != 2)) continue;
    for(const char* l : {"GIGI", "GIJG", "GIJI", "GAGA", "GAIG", "GIAG", "GIIG", "IGJA", "GAGI", "GIGA"}) {
      std::string t = std::string("A") + std::to_string(W) + l[0] + std::to_string(a) + l[1] + std::to_string(b); if(c) t += l[2] + std::to_string(c); t += l[3] + std::to_string(d);
      add(W, 1, 3, "", t); if(W == 40 && d == 1) add(W, 1, 3, "", t + "G2A2J1I2"); } }
  // points with one, three or five coordinates
  for(int c : {1, 3, 5}) {
    auto addc = [&](int W, int D, int e, const std::string& pre, const std::string& w) { E.add("slide|" + std::to_string(W) + "|" + std::to_string(D) + "|" + std::to_string(e) + "|" + pre + "|" + w + "|" + std::to_string(c)); };
    for(int n = 3; n <= (E.small() ? 3 : 5); n++) words(n, 5, [&](const std::vector<int>& w) { addc(2 + n % 2, 2, n % 3, n == 3 ? "abd" : "", letters(w, {0, 1, 3, 4, 6})); });
    for(const char* f : {"abcd", "afkb"}) words(E.small() ? 2 : 4, 5, [&](const std::vector<int>& w) { addc(4, 2, 2, "", f + letters(w, {6, 7, 2, 8, 0})); });
    for(const char* t : {"A40G5I27G1", "A40G1G1I20J27A2", "A60I30", "A30G20I26J2"}) addc(30, 1, 3, "", t);
  }
  // many reports: the stage reports every hundred points
  for(int n : {299, 300, 301, 400, 450, 500, 501, 650, 1000, 1050}) for(int W : {3, 4}) { if(E.small() && n > 400) continue; add(W, 2, 2, "", "abcdgih" + std::to_string(n / 2 - 6) + "gbaie" + std::to_string(n - n / 2 - 5)); add(W, 1, 2, n % 2 ? "abcdgih120" : "", "A40G30I40J" + std::to_string(n - 110)); }
  for(int W : {98, 99, 100, 101, 199}) for(int n : {99, 100, 101, 150, 200, 201, 299, 300}) { if(n < W || (E.small() && W != 99)) continue; add(W, 1, 3, "", "A" + std::to_string(n)); add(W, 1, 3, "", "A" + std::to_string(W) + (n > W ? "G" + std::to_string(n - W) : "")); }
  for(int n : {999, 1000, 1001, 1003, 1099, 1100, 1101, 1105}) for(int W : {3, 40}) { if(E.small()) continue; for(const char* t : {"gi", "giag", "jgb", "gbig"}) { std::string p = W == 3 ? "abcdgih" : "A40G30I40"; int q = W == 3 ? 7 : 110; add(W, 1, 3, "", p + "J" + std::to_string(n - q - (int)strlen(t)) + t); } }
  // the default window
  for(const char* t : {"A200", "A200G1", "A200G3I2", "A200G30I30G2", "A150G49A1G2I3", "A100G60I40J30G26A2", "A200G100I60G27A30", "A120G40I40J27A1G1I1"}) add(200, 1, 3, "", t);
  for(int n : {1, 2, 3, 49, 50, 51, 52, 60, 99, 100, 101, 149, 150, 151, 199, 200, 201, 250, 300, 399, 401, 450, 500, 650, 1000, 1111}) for(int p = 0; p < 6; p++) E.add("naive|" + std::to_string(n) + "|" + std::to_string(p));
}

namespace { struct It { V x; int key, label; }; struct Undecided {}; }
static double dist(const V& a, const V& b) { double s = 0; for(size_t i = 0; i < a.size(); i++) s += (a[i] - b[i]) * (a[i] - b[i]); return std::sqrt(s); }

struct Model {
  int W, key = 0, changes = 0; std::vector<It> win; std::map<int, int> maxKey;
  double nn(size_t i) const { double b = -1; for(size_t j = 0; j < win.size(); j++) if(j != i && win[j].label == win[i].label) { double d = dist(win[i].x, win[j].x); if(b < 0 || d < b) b = d; } return b; }
  std::map<int, int> count() const { std::map<int, int> r; for(auto& p : win) r[p.label]++; return r; }
  double avg(int l) const { double s = 0; int n = 0; for(size_t i = 0; i < win.size(); i++) if(win[i].label == l) { s += nn(i); n++; } return s / n; }
  void tie(double a, double b) const { bool exact = !changes && (W & (W - 1)) == 0; if(!exact && std::fabs(a - b) < 1e-9 * (1 + std::fabs(b))) throw Undecided(); }
  void push(const V& v, int label) { win.push_back({v, key, label}); maxKey[label] = key; key++; }
  void erase(size_t i) { int l = win[i].label; win.erase(win.begin() + i); if(!count().count(l)) maxKey.erase(l); }
  void add(const V& v) {
    if((int)win.size() < W) { push(v, 0); return; }
    size_t at = 0; for(size_t i = 1; i < win.size(); i++) if(dist(v, win[i].x) < dist(v, win[at].x)) at = i;
    double d = dist(v, win[at].x); auto cnt = count(); int near = win[at].label, target, del = -1;
    double a = avg(near);
    if(cnt.size() == 1) {
      if(d == 0) return; tie(a, 0.25); if(a <= 0.25 && d <= 1) return; tie(d, 4 * a); if(!(a == 0 || d / a > 4)) return;
      target = near + 1; del = 0;
    } else {
      int mx = cnt.rbegin()->first; if(cnt[near] > 1) { tie(a, 0.25); tie(d, 4 * a); }
      if(d == 0) target = near; else if(d > 5) target = mx + 1; else if(cnt[near] == 1) target = near; else if(a <= 0.25 && d <= 1) target = near; else if(a > 0 && d / a <= 4) target = near; else target = mx + 1;
      int out = -1; for(auto& k : maxKey) if(key - k.second > 25 && (out < 0 || cnt[k.first] < cnt[out])) out = k.first;
      for(size_t i = 0; i < win.size() && del < 0; i++) if(out >= 0 ? win[i].label == out : target != near ? true : win[i].label != target) del = i;
    }
    erase(del); push(v, target); changes++;
  }
};

static std::vector<vr::Bar> bars(const std::vector<V>& p, double eps, int D) {
  vr::Mat m(p.size(), V(p.size(), 0)); for(size_t i = 0; i < p.size(); i++) for(size_t j = i + 1; j < p.size(); j++) m[i][j] = dist(p[i], p[j]);
  auto r = vr::persistence(vr::complex(m, eps, D, false), D - 1); std::vector<vr::Bar> o; for(auto b : r) { if(std::isinf(b.d)) b.d = eps; if(b.b < b.d) o.push_back(b); } std::sort(o.begin(), o.end()); return o;
}
static bool same(std::vector<vr::Bar> a, const std::vector<vr::Bar>& b) { std::sort(a.begin(), a.end()); if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); i++) if(a[i].dim != b[i].dim || std::fabs(a[i].b - b[i].b) > 1e-4 * (1 + b[i].b) || std::fabs(a[i].d - b[i].d) > 1e-4 * (1 + b[i].d)) return false; return true; }
static void put(const std::string& f, const std::vector<V>& s) { std::ostringstream o; o.precision(17); for(auto& v : s) { for(size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i]; o << "\n"; } mc::write_file(f, o.str()); }

static void slide(const std::vector<std::string>& f) {
  using namespace mc;
  int W = toi(f[1]), D = toi(f[2]); COORDS = f.size() > 6 ? toi(f[6]) : 2; double eps = EPS[toi(f[3])];
  std::map<std::string, std::string> cfg = {{"dimensions", f[2]}, {"epsilon", std::to_string(eps)}, {"debug", "1"}, {"outputFile", "console"}, {"twist", "false"}, {"complexType", "simplexTree"}, {"inputFile", "in.csv"}};
  CaptureCout cap; slidingWindow::defaultVals->windowMaxSize = W;
  if(!f[4].empty()) { put("in.csv", stream(f[4])); pipePacket pk(cfg, "simplexTree"); slidingWindow s; s.configPipe(cfg); pk = s.runPipeWrapper(pk); op(); }
  fresh_dir("output");
  auto st = stream(f[5]); put("in.csv", st);
  Model M; M.W = W; std::vector<std::vector<V>> shots; auto pts = [&] { std::vector<V> r; for(auto& p : M.win) r.push_back(p.x); return r; };
  try { for(size_t i = 0; i < st.size(); i++) { M.add(st[i]); if(((i + 1) % 100 == 0 && (int)(i + 1) > W) || (i + 1 == st.size() && (i + 1) % 100 != 0 && (int)st.size() >= W)) shots.push_back(pts()); } } catch(Undecided&) { observe(0xdead); return; }
  pipePacket pk(cfg, "simplexTree"); slidingWindow s; MC_CHECK(s.configPipe(cfg), "not configured"); pk = s.runPipeWrapper(pk); op(st.size());
  auto& E = *slidingWindow::defaultVals; size_t n = M.win.size();
  std::vector<int> k, l; for(auto& p : M.win) { k.push_back(p.key); l.push_back(p.label); observe(p.key); observe(p.label); }
  MC_CHECK(E.windowMaxSize == W, "the window size became " << E.windowMaxSize);
  MC_CHECK(E.windowKeys == k, "the window holds the points " << show(E.windowKeys) << ", expected " << show(k));
  MC_CHECK(E.partitionLabels == l, "the points " << show(k) << " have the labels " << show(E.partitionLabels) << ", expected " << show(l));
  MC_CHECK(E.key == M.key, "the next key is " << E.key << ", expected " << M.key);
  if((int)n == W) {
    auto cnt = M.count();
    MC_CHECK(E.nnDists.size() == n && E.nnIndices.size() == n, "nearest-neighbour lists of " << E.nnDists.size() << " and " << E.nnIndices.size() << " entries");
    for(size_t i = 0; i < n; i++) { double d = M.nn(i);
      MC_CHECK(std::fabs(E.nnDists[i] - d) < 1e-9, "nearest-neighbour distance of point " << i << " (key " << k[i] << "): " << E.nnDists[i] << ", expected " << d);
      int j = E.nnIndices[i]; if(cnt[l[i]] == 1) { MC_CHECK(j == -1, "point " << i << " is alone but its nearest neighbour is " << j); continue; }
      MC_CHECK(j >= 0 && j < W && j != (int)i && l[j] == l[i] && std::fabs(dist(M.win[i].x, M.win[j].x) - d) < 1e-9, "nearest neighbour of point " << i << " is " << j << ", its distance should be " << d); }
    std::set<int> al; for(auto& a : E.avgNNDistPartitions) al.insert(a.first); std::set<int> el; for(auto& c : cnt) el.insert(c.first);
    MC_CHECK(al == el, "averages of the partitions " << show(al) << ", expected " << show(el));
    for(auto& c : cnt) { double a = c.second == 1 ? -1 : M.avg(c.first); MC_CHECK(std::fabs(E.avgNNDistPartitions[c.first] - a) < 1e-7, "average of partition " << c.first << ": " << E.avgNNDistPartitions[c.first] << ", expected " << a); MC_CHECK(E.numPointsPartn.count(c.first) && E.numPointsPartn[c.first] == c.second, "partition " << c.first << " has " << E.numPointsPartn[c.first] << " points, expected " << c.second); }
    MC_CHECK(E.maxKeys == M.maxKey, "latest keys of the partitions");
    auto& dm = pk.complex->distMatrix; MC_CHECK(dm.size() == n, "distance matrix of " << dm.size() << " rows");
    for(size_t i = 0; i < n; i++) { MC_CHECK(dm[i].size() == n, "row " << i << " of the distance matrix has " << dm[i].size() << " entries"); for(size_t j = i + 1; j < n; j++) MC_CHECK(std::fabs(dm[i][j] - dist(M.win[i].x, M.win[j].x)) < 1e-12 * (1 + dm[i][j]), "distance of " << i << " and " << j << ": " << dm[i][j]); }
  }
  // what was reported on the way
  for(size_t r = 0; r <= shots.size(); r++) {
    std::string a = "output/SlidingWindow_" + std::to_string(r) + "_output.csv", b = "output/PersistencePairs_bettis_output_" + std::to_string(r) + ".csv";
    if(r == shots.size()) { MC_CHECK(!file_exists(b), "more reports than expected: " << r); break; }
    MC_CHECK(file_exists(a) && file_exists(b), "report " << r << " is missing");
    std::vector<V> got; for(auto& line : split(read_file(a), '\n')) if(!line.empty()) { V v; for(auto& q : split(line, ',')) if(!q.empty()) v.push_back(atof(q.c_str())); got.push_back(v); }
    bool eq = got.size() == shots[r].size(); for(size_t i = 0; eq && i < got.size(); i++) { eq = got[i].size() == shots[r][i].size(); for(size_t k = 0; eq && k < got[i].size(); k++) eq = std::fabs(got[i][k] - shots[r][i][k]) <= 1e-5 * (1 + std::fabs(shots[r][i][k])); }
    MC_CHECK(eq, "report " << r << " holds " << got.size() << " points that are not the window");
    auto g = vr::parse(read_file(b)); std::vector<vr::Bar> gp; for(auto& x : g) if(x.b < x.d) gp.push_back(x);
    auto e = bars(shots[r], eps, D); MC_CHECK(same(gp, e), "report " << r << ": intervals " << vr::show(gp) << ", expected " << vr::show(e)); observe(gp.size());
  }
  if(!shots.empty() && st.size() % 100) MC_CHECK(pk.originalData == shots.back(), "the stage hands on " << pk.originalData.size() << " points that are not the window");
  if(M.changes > 1) nontrivial();
}

void mc::run_case(const std::string& cs) {
  auto f = split(cs, '|');
  if(f[0] == "slide") { slide(f); return; }
  int n = toi(f[1]), p = toi(f[2]); std::vector<V> st; for(int i = 0; i < n; i++) st.push_back({(double)((i * (p + 3) + i * i * p) % 37), (double)(i % (p + 2)), (double)i});
  put("in.csv", st); fresh_dir("output");
  std::map<std::string, std::string> cfg = {{"dimensions", "1"}, {"epsilon", "7.5"}, {"debug", "0"}, {"outputFile", "console"}, {"twist", "false"}, {"complexType", "simplexTree"}, {"inputFile", "in.csv"}};
  CaptureCout cap; pipePacket pk(cfg, "simplexTree"); naiveWindow w; MC_CHECK(w.configPipe(cfg), "not configured"); pk = w.runPipeWrapper(pk); op(n);
  int end = n < 50 ? 0 : n < 100 ? 50 : n / 100 * 100; std::vector<V> exp(st.begin() + (end ? end - 50 : 0), st.begin() + end);
  MC_CHECK(pk.originalData == exp, "after " << n << " points the naive window hands on " << pk.originalData.size() << " points that are not the latest 50");
  if(n >= 50) { int edges = 0; for(int i = 0; i < 50; i++) for(int j = i + 1; j < 50; j++) edges += dist(st[i], st[j]) < 7.5; MC_CHECK(pk.complex->vertexCount() == 50 && pk.complex->simplexCount() == 50 + edges, "the initial complex has " << pk.complex->vertexCount() << " points and " << pk.complex->simplexCount() << " simplices, expected " << 50 + edges); nontrivial(); }
  observe(pk.originalData.size());
}
