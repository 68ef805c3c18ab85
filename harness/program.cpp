// The LHF program as a whole: data file and options in, interval and statistics files out. Runs the binary built from the
// working tree (LHF_EXE) in a scratch directory.
// Case: kind|options (separated by ';')|file style|cloud       cloud as in clouds.hpp
#include "vr.hpp"
#include "clouds.hpp"
const char* mc::harness_name = "program";
size_t mc::harness_batch = 200;
double mc::harness_case_timeout = 40;

void mc::enumerate(Explorer& E) {
  auto add = [&](const char* kind, const std::string& opt, int style, const std::string& c) { E.add(std::string(kind) + "|" + opt + "|" + std::to_string(style) + "|" + c); };
  static const std::vector<std::string> CX = {"", "-c;simplexArrayList", "-c;simplexTree", "--complexType;indSimplexTree"};
  auto cat = [](std::vector<std::string> v) { std::string s; for(auto& x : v) if(!x.empty()) s += (s.empty() ? "" : ";") + x; return s; };
  // every cloud of up to 4 points on a line and of up to 3 points in the plane, every complex
  int k = 0;
  for(int n = 1; n <= 4; n++) words(n, 4, [&](const std::vector<int>& w) { for(const char* d : {"1", "2"}) { k++; add("std", cat({CX[k % 4], std::string("-d;") + d, k % 3 ? "-e;1.2" : "-e;0.7"}), k % 8, "g1" + wstr(w)); } });
  for(int n = 1; n <= 3; n++) words(2 * n, 3, [&](const std::vector<int>& w) { k++; add("std", cat({CX[k % 4], "--dimensions;2", k % 3 ? "--epsilon;0.9" : "-e;3"}), k % 8, "g2" + wstr(w)); });
  words(10, 2, [&](const std::vector<int>& w) { k++; add("std", cat({CX[k % 4], "-d;2", "-e;0.8"}), k % 8, "g2" + wstr(w)); });
  // structured clouds, modes, explicit pipelines, collapse
  for(int n = 4; n <= (E.thorough() ? 12 : 9); n++) for(auto fam : cloud::FAM) for(const char* e : {"0.75", "1.35", "1.95"}) for(int D = 1; D <= (n <= 8 ? 3 : 2); D++) {
    std::string c = std::string(fam) + ":" + std::to_string(n) + ":1", de = "-d;" + std::to_string(D) + ";-e;" + e; k++;
    for(int q = 0; q < 4; q++) add("std", cat({CX[q], de}), (k + q) % 8, c);
    add("std", cat({"-m;fast", k % 2 ? CX[1] : "", de}), k % 8, c); add("std", cat({"-m;standard", de, k % 2 ? "-z;true;-c;simplexArrayList" : "--collapse;false"}), k % 8, c);
    add("std", cat({"-p;distMatrix.neighGraph.rips.fast", CX[k % 4], de}), k % 8, c);
    add("pairs", cat({"-p;distMatrix.neighGraph.rips.persistence", CX[k % 3], de}), k % 8, c); add("pairs", cat({"--pipeline;distMatrix.neighGraph.rips.persistence", CX[k % 3], de, "-m;fast"}), k % 8, c);
    add("std", cat({de, "-o;console"}), k % 8, c); add("std", cat({de, k % 2 ? "-o;console2" : "-o;xconsole"}), k % 8, c); add("std", cat({de, "--outputFile;sub/res"}), k % 8, c); add("std", cat({de, "-pre;none"}), k % 8, c);
    add("std", cat({de, "-x;1"}), k % 8, c);
    if(k % 3 == 0) for(const char* q : {"distMatrix.neighGraph.rips.fast.upscale", "distMatrix.distMatrix.neighGraph.rips.fastPersistence.upscale.upscale", "upscale.distMatrix.neighGraph.rips.upscale.fast", "upscale.upscale.distMatrix.neighGraph.upscale.upscale.rips.upscale.fast.upscale"}) add("pipe", cat({std::string("-p;") + q, CX[k % 4], de}), k % 8, c);
    // k-means with one cluster, or as many clusters as there are points: determined whatever the seeding
    add("one", cat({de, k % 2 ? "-pre;kmeans++" : "--preprocessor;kmeansplusplus", "-k;1", CX[k % 4]}), k % 8, c);
    add("all", cat({de, "-pre;kmeans++", "-k;" + std::to_string(n), CX[k % 4]}), k % 8, c);
    add("red1", cat({de, "-m;reduced", "-k;1"}), k % 8, c);
    for(int q = 2; q <= 3; q++) add("redk", cat({de, "--mode;reduced", "-k;" + std::to_string(q)}), k % 8, c);
    add("up", cat({de, "-m;upscaleBound", "-k;" + std::to_string(1 + k % 4)}), k % 8, c); add("up", cat({de, "--mpi;1", "-k;" + std::to_string(1 + k % 4)}), k % 8, c);
  }
  for(auto fam : {"blobs", "gaps", "jit"}) for(int n = 4; n <= (E.thorough() ? 12 : 8); n++) for(int q = 2; q <= 4 && q < n; q++) for(const char* e : {"1.35", "6"}) for(int rep = 0; rep < (E.thorough() ? 6 : 3); rep++) for(const char* m : {"redk", "up"}) {
    k++; add(m, cat({std::string("-e;") + e, CX[k % 4], *m == 'u' ? "-m;upscaleBound" : "-m;reduced", "-k;" + std::to_string(q), k % 5 == 1 ? "-r;1" : k % 5 == 2 ? "--iterations;2" : ""}), k % 8, std::string(fam) + ":" + std::to_string(n) + ":1"); if(*m == 'u' && rep) break;
  }
  // complexes of dimension 4 to 6
  for(int n = 5; n <= (E.small() ? 6 : 10); n++) for(auto fam : cloud::FAM) for(const char* e : {"0.75", "1.35", "6"}) for(int D = 4; D <= 6; D++) {
    std::string c = std::string(fam) + ":" + std::to_string(n) + ":1", de = "-d;" + std::to_string(D) + ";-e;" + e; k++;
    for(int q = 0; q < 4; q++) add("std", cat({CX[q], de, (k + q) % 2 ? "-m;fast" : ""}), (k + q) % 8, c); add("pairs", cat({"-p;distMatrix.neighGraph.rips.persistence", CX[k % 3], de}), k % 8, c);
  }
  // repeated points in the modes that cluster
  for(int n = 2; n <= (E.small() ? 3 : 6); n++) words(n, 4, [&](const std::vector<int>& w) { if(std::set<int>(w.begin(), w.end()).size() == w.size() && n > 2) return; for(int q = 1; q <= 3; q++) for(const char* m : {"redk", "up"}) { k++; if(n > 4 && k % (n == 5 ? 3 : 7)) continue;
    add(m, cat({k % 3 ? "-e;1.2" : "-e;0.7", CX[k % 4], k % 2 ? "-d;2" : "", *m == 'u' ? "-m;upscaleBound" : "-m;reduced", "-k;" + std::to_string(q)}), k % 8, "g1" + wstr(w)); } });
  if(!E.small()) words(10, 2, [&](const std::vector<int>& w) { for(const char* m : {"redk", "up"}) { k++; add(m, cat({"-e;0.9", CX[k % 4], "-d;2", *m == 'u' ? "-m;upscaleBound" : "-m;reduced", k % 3 ? "-k;2" : "-k;3"}), k % 8, "g2" + wstr(w)); } });
  // larger clouds
  for(int n : {16, 20, 33, 40, 65, 90, 130, 260}) { if(E.small() && n > 20) continue; for(auto fam : {"line", "two", "eight", "rings", "helix", "jit", "gaps", "blobs", "poly"}) for(const char* e : {"0.35", "0.6"}) {
    std::string c = std::string(fam) + ":" + std::to_string(n) + ":1"; double de = cloud::family(fam, n).size() > 60 && (fam[0] != 'l' && fam[0] != 'g' && fam[0] != 'b' && fam[0] != 'h') ? n > 130 ? 0.2 : 0.4 : 1; std::string opt = std::string("-d;2;-e;") + std::to_string(atof(e) * de); k++;
    add("std", cat({CX[k % 4], opt}), k % 8, c); add("std", cat({CX[(k + 1) % 4], "-m;fast", opt}), (k + 3) % 8, c); if(n <= 130) add("pairs", cat({"-p;distMatrix.neighGraph.rips.persistence", CX[k % 3], opt}), k % 8, c);
    add("one", cat({opt, "-pre;kmeans++;-k;1"}), k % 8, c); add("all", cat({opt, "-pre;kmeans++;-k;" + std::to_string(n)}), k % 8, c); add("red1", cat({opt, "-m;reduced;-k;1"}), k % 8, c);
    for(int q : {2, 3, 5, 9, 14}) { if(q == 3 && n > 20) continue; add("redk", cat({opt, "-m;reduced;-k;" + std::to_string(q)}), k % 8, c); add("up", cat({opt, "-m;upscaleBound;-k;" + std::to_string(q)}), k % 8, c); }
  } }
  for(const char* o : {"", "-m;fast", "-m;standard;-d;2", "-m;reduced", "-m;upscaleBound", "--mpi;1", "-m;naive", "-p;distMatrix.neighGraph.rips.persistence", "-x;1", "-o;console"}) for(int st : {8, 9, 10, 11}) add("none", o, st, "g1");
  for(const char* o : {"-c;nope", "-c;", "--complexType;SimplexTree"}) add("refuse", o, 0, "g10123");
  for(const char* o : {"-p;foo", "-m;nope", "-p;distMatrix.foo.neighGraph", "-p;rips.", "-pre;nope;-p;foo"}) add("unknown", o, 0, "g10123");
  add("stream", "-m;stream;-k;2", 0, "poly:8:1");
  for(const char* o : {"-m;sw", "-m;slidingwindow", "-m;naive", "-m;naivewindow"}) for(const char* c : {"g1", "g10", "g10123", "g2010203", "poly:12:1", "line:40:1", "line:60:1", "spread:230:1", "spread:200:1", "line:101:1"}) for(int st : {0, 1, 3}) if(c[2] || o[3] == 's') add("win", o, st, c);
}

using namespace mc;
static std::string csv(const cloud::Cloud& p, int style) {
  std::ostringstream o; o.precision(17); const char* nl = style == 1 || style == 5 ? "\r\n" : "\n";
  for(size_t i = 0; i < p.size(); i++) { if(style == 2 && i % 2) o << nl; for(size_t j = 0; j < p[i].size(); j++) { if(style == 4) o << std::scientific; o << (j ? (style == 3 ? ", " : ",") : "") << p[i][j]; } if(style == 6) o << ","; if(!(style == 7 && i + 1 == p.size())) o << nl; }
  return o.str();
}
static int launch(const std::vector<std::string>& a, std::string& out) {
  static const char* exe = getenv("LHF_EXE"); MC_CHECK(exe && *exe, "LHF_EXE is not set");
  std::vector<char*> v; std::string e = exe; v.push_back(&e[0]); std::vector<std::string> c = a; for(auto& x : c) v.push_back(&x[0]); v.push_back(nullptr);
  pid_t p = fork(); if(p == 0) { int fd = open("stdout.txt", O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 1); dup2(fd, 2); rlimit l = {20, 20}; setrlimit(RLIMIT_CPU, &l); rlimit fs = {100 << 20, 100 << 20}; setrlimit(RLIMIT_FSIZE, &fs); execv(e.c_str(), v.data()); _exit(126); }
  int st = 0; waitpid(p, &st, 0); op(); out = read_file("stdout.txt");
  if(WIFSIGNALED(st)) fail("the program died of signal " + std::to_string(WTERMSIG(st)) + ": " + out.substr(out.size() > 300 ? out.size() - 300 : 0));
  return WEXITSTATUS(st);
}
struct Expect { size_t simplices = 0; std::vector<vr::Bar> must, may; bool tie = false; };
// the intervals the fast (or pairs) stage has to report for these points
static Expect intervals(const cloud::Cloud& p, double eps, int D, bool pairs) {
  Expect x; size_t n = p.size(); vr::Mat d(n, std::vector<double>(n, 0));
  for(size_t i = 0; i < n; i++) for(size_t j = i + 1; j < n; j++) { d[i][j] = cloud::dist(p[i], p[j]); if(std::fabs(d[i][j] - eps) < 1e-9) x.tie = true; }
  if(x.tie) return x;
  auto cx = vr::complex(d, eps, std::max(D, 1), true); for(auto& l : cx) x.simplices += l.size();
  for(auto b : vr::persistence(cx, std::max(D, 1) - 1)) {
    if(b.dim == 0 && b.b == b.d) { if(!pairs) x.must.push_back(b); continue; }
    if(std::isinf(b.d)) { if(b.dim && !pairs) continue; b.d = eps; } else if(b.d - b.b < 1e-7) continue;
    x.must.push_back(b);
  }
  return x;
}
// every outcome of the clustering: Lloyd's iteration from every ordered choice of k distinct points
struct Clustering { std::vector<unsigned> label; cloud::Cloud cent; bool operator<(const Clustering& o) const { return std::tie(label, cent) < std::tie(o.label, o.cent); } };
static std::set<Clustering> outcomes(const cloud::Cloud& p, unsigned k, int iters, bool& tie) {
  cloud::Cloud u; for(auto& x : p) if(std::find(u.begin(), u.end(), x) == u.end()) u.push_back(x);
  k = std::min(k, (unsigned)u.size()); std::set<Clustering> r; std::vector<unsigned> pick;
  auto lloyd = [&] {
    Clustering o; for(unsigned i : pick) o.cent.push_back(u[i]);
    for(int z = 0; z < iters; z++) {
      std::vector<unsigned> lab(p.size(), 0); cloud::Cloud sum(k, std::vector<double>(p[0].size(), 0)); std::vector<int> cnt(k, 0);
      for(size_t i = 0; i < p.size(); i++) { double best = INFINITY; for(unsigned c = 0; c < k; c++) { double q = cloud::dist(p[i], o.cent[c]); if(std::fabs(q - best) < 1e-9) tie = true; if(q < best) { best = q; lab[i] = c; } } cnt[lab[i]]++; for(size_t j = 0; j < p[i].size(); j++) sum[lab[i]][j] += p[i][j]; }
      for(unsigned c = 0; c < k; c++) if(cnt[c]) for(size_t j = 0; j < sum[c].size(); j++) o.cent[c][j] = sum[c][j] / cnt[c];
      bool done = lab == o.label; o.label = lab; if(done) break;
    }
    r.insert(o);
  };
  std::function<void()> rec = [&] { if(pick.size() == k) { lloyd(); return; } for(unsigned i = 0; i < u.size(); i++) if(std::find(pick.begin(), pick.end(), i) == pick.end()) { pick.push_back(i); rec(); pick.pop_back(); } };
  rec(); return r;
}
static bool match(std::vector<vr::Bar> g, std::vector<vr::Bar> e) {   // up to the printed precision; intervals too short to be told from empty ones do not count
  auto rnd = [](std::vector<vr::Bar>& v) { std::vector<vr::Bar> r; for(auto b : v) if(b.dim == 0 || b.d - b.b > 2e-5) { b.b = std::round(b.b * 1e4); b.d = std::round(b.d * 1e4); r.push_back(b); } std::sort(r.begin(), r.end()); v = r; }; rnd(g); rnd(e);
  if(g.size() != e.size()) return false; for(size_t i = 0; i < g.size(); i++) if(g[i].dim != e[i].dim || std::fabs(g[i].b - e[i].b) > 1 || std::fabs(g[i].d - e[i].d) > 1) return false; return true;
}

void mc::run_case(const std::string& cs) {
  auto f = split(cs, '|'); const std::string& kind = f[0]; int style = toi(f[2]); auto pts = cloud::points(f[3]);
  std::vector<std::string> opt; if(!f[1].empty()) opt = split(f[1], ';');
  auto val = [&](const char* s, const char* l, const char* def) { std::string r = def; for(size_t i = 0; i + 1 < opt.size(); i += 2) if(opt[i] == s || opt[i] == l) r = opt[i + 1]; return r; };
  std::string o = val("-o", "--outputFile", "res"), ef = val("-e", "--epsilon", "5"), df = val("-d", "--dimensions", "1"); double eps = atof(ef.c_str()); int D = toi(df), k = toi(val("-k", "--clusters", "20"));
  fresh_dir("output"); fresh_dir("sub"); for(const char* x : {"in.csv", "res.csv", "res_stats.csv", "console.csv", "console_stats.csv", "console2.csv", "console2_stats.csv", "xconsole.csv", "xconsole_stats.csv"}) unlink(x);
  if(style < 8) write_file("in.csv", csv(pts, style)); else if(style == 9) write_file("in.csv", ""); else if(style == 10) write_file("in.csv", "\n\n\n"); else if(style == 11) write_file("in.csv", "\r\n");   // 8: no such file
  std::vector<std::string> a = opt; bool front = style % 2; a.insert(front ? a.begin() : a.end(), {style % 3 ? "-i" : "--inputFile", "in.csv"}); if(o == "res") { a.push_back("-o"); a.push_back("res"); }
  std::string out; int rc; if(kind == "stream") { try { rc = launch(a, out); } catch(Violation& v) { fail(v.msg, "streaming-mode-crash"); } } else rc = launch(a, out); observe(rc);
  std::string bf = o + ".csv", sf = o + "_stats.csv"; const std::string H = "dimension,birth,death\n", SH = "PipeName,PhysExecutionTime,MemorySize,MemoryUnits,VertexCount,SimplexCount\n";
  bool usage = out.find("Usage:") != std::string::npos;
  if(kind == "stream") { auto g = vr::parse(read_file(bf)); MC_CHECK(rc == 0 && !g.empty(), "no intervals in streaming mode"); return; }
  if(kind == "none") { MC_CHECK(rc == 0 && usage, "without data: exit " << rc << (usage ? "" : ", no usage text")); MC_CHECK(!file_exists(bf) && !file_exists(sf), "without data, result files are written"); return; }
  if(kind == "refuse") { MC_CHECK(rc != 0 && usage && !file_exists(bf), "unknown complex type: exit " << rc); return; }
  MC_CHECK(rc == 0, "exit " << rc << ": " << out.substr(0, 300)); MC_CHECK(!usage, "the usage text is printed although there is data");
  if(kind == "unknown") { MC_CHECK(out.find("Failed to configure pipeline") != std::string::npos, "an unknown stage is not reported"); MC_CHECK(read_file(bf) == H, "intervals of an unknown pipeline: " << read_file(bf)); return; }
  std::vector<std::string> names; int stages = 4; bool pairs = kind == "pairs";
  auto files = [&](const cloud::Cloud& p, const std::vector<std::string>& stat) {
    if(o == "console") { MC_CHECK(!file_exists("console.csv") && !file_exists("console_stats.csv"), "files are written for console output"); return; }
    std::string b = read_file(bf); MC_CHECK(b.compare(0, H.size(), H) == 0, "interval file begins with '" << b.substr(0, 40) << "'");
    auto e = intervals(p, eps, D, pairs); if(!e.tie) { auto g = vr::parse(b); MC_CHECK(match(g, e.must), "interval file: got " << vr::show(g) << " expected " << vr::show(e.must)); for(auto& x : g) if(x.dim) nontrivial(); observe(b); }
    std::string s = read_file(sf); MC_CHECK(s.compare(0, SH.size(), SH) == 0, "statistics file begins with '" << s.substr(0, 80) << "'");
    std::vector<std::string> got; for(auto& l : split(s.substr(SH.size()), '\n')) if(!l.empty()) got.push_back(split(l, ',')[0]);
    MC_CHECK(got == stat, "the statistics list the stages " << show(got) << ", expected " << show(stat));
    auto last = split(split(s, '\n')[SH.empty() ? 0 : stat.size()], ','); if(last.size() == 6) MC_CHECK(toi(last[4]) == (int)p.size(), "the statistics report " << last[4] << " vertices for " << p.size() << " points");
    if(!e.tie && val("-z", "--collapse", "false") == "false") for(size_t i = 0; i < stat.size(); i++) if(stat[i] == "ripsPipe") { auto l = split(split(s, '\n')[i + 1], ','); MC_CHECK(l.size() == 6 && toi(l[5]) == (int)e.simplices, "the statistics report " << l[5] << " simplices after the expansion, the complex has " << e.simplices); }
  };
  std::vector<std::string> S = {"DistMatrix", "neighGraph", "ripsPipe", pairs ? "PersistencePairs" : "FastPersistence"}; auto cat = [](std::vector<std::string> x, const std::vector<std::string>& y) { x.insert(x.end(), y.begin(), y.end()); return x; };
  if(kind == "pipe") { std::vector<std::string> n; for(auto& q : split(val("-p", "--pipeline", ""), '.')) n.push_back(q == "upscale" ? "Upscale" : q == "distMatrix" ? "DistMatrix" : q == "rips" ? "ripsPipe" : q[0] == 'f' ? "FastPersistence" : q); files(pts, n); return; }
  if(kind == "std" || kind == "pairs") { files(pts, S); return; }
  auto distinct = std::set<std::vector<double>>(pts.begin(), pts.end()).size(); cloud::Cloud mean(1, std::vector<double>(pts.empty() ? 0 : pts[0].size(), 0)); for(auto& p : pts) for(size_t j = 0; j < p.size(); j++) mean[0][j] += p[j] / pts.size();
  if(kind == "one") { files(mean, cat({"k-means++"}, S)); return; }
  if(kind == "all") { if(distinct == pts.size()) files(pts, cat({"k-means++"}, S)); return; }
  if(kind == "up") {   // partition sizes
    auto p = out.find("Partitions: "); MC_CHECK(p != std::string::npos, "no partitions are reported"); MC_CHECK(atoi(out.c_str() + p + 12) == k, "partitions: " << out.substr(p, 20) << ", expected " << k);
    std::istringstream is(out.substr(out.find("Counts: ", p) + 8)); int sum = 0, x, m = 0; while(is >> x) { sum += x; m++; } MC_CHECK(m == k && sum == (int)pts.size(), "the " << m << " partitions hold " << sum << " of " << pts.size() << " points"); nontrivial();
    if((k <= 4 && pts.size() <= 12) || (k == 3 && pts.size() <= 20) || (k <= 2 && pts.size() <= 70)) { std::istringstream js(out.substr(out.find("Counts: ", p) + 8)); std::vector<int> c; while(js >> x) c.push_back(x); std::sort(c.begin(), c.end()); bool tie = false, seen = false; for(auto& oc : outcomes(pts, k, toi(val("-r", "--iterations", "250")), tie)) { std::vector<int> q(k, 0); for(unsigned l : oc.label) q[l]++; std::sort(q.begin(), q.end()); if(q == c) seen = true; }
      MC_CHECK(seen || tie, "partition sizes " << show(c) << " are not those of any run of the clustering"); observe(tie); }
    return;
  }
  if(kind == "win") {
    MC_CHECK(read_file(bf) == H, "interval file of a window run: " << read_file(bf).substr(0, 100)); std::string s = read_file(sf); bool sw = f[1][3] == 's'; MC_CHECK(s.compare(0, SH.size(), SH) == 0 && s.find(sw ? "\nSlidingWindow," : "\nNaiveWindow,") != std::string::npos, "statistics file of a window run: " << s.substr(0, 200));
    MC_CHECK(out.find("Successfully evaluated " + std::to_string(pts.size() + 1) + " points") != std::string::npos, "the window run does not report its " << pts.size() << " points"); nontrivial(); return;
  }
  // reduced mode: the merged table
  auto p = out.find("_______BETTIS_______\n"); MC_CHECK(p != std::string::npos, "no table of intervals is printed");
  std::vector<vr::Bar> tab; std::vector<std::set<unsigned>> bnd;
  for(auto& l : split(out.substr(p + 21), '\n')) if(!l.empty()) { auto c = split(l, ','); MC_CHECK(c.size() >= 4, "table line '" << l << "'"); tab.push_back({(unsigned)toi(c[0]), atof(c[1].c_str()), atof(c[2].c_str())}); std::set<unsigned> b; for(size_t i = 3; i + 1 < c.size(); i++) b.insert(toi(c[i])); bnd.push_back(b); for(unsigned x : b) MC_CHECK(x < std::max(pts.size(), (size_t)k), "table line '" << l << "' names a point that does not exist"); }
  // which points each run processed
  std::vector<int> runs; for(size_t q = 0; (q = out.find("Running Pipeline with : ", q)) != std::string::npos; q += 10) runs.push_back(atoi(out.c_str() + q + 24));
  MC_CHECK(!runs.empty() && runs.back() == std::min(k, (int)distinct), "the last run processes " << (runs.empty() ? 0 : runs.back()) << " centroids, expected " << std::min(k, (int)distinct));
  int open0 = 0; size_t zero = 0, sum = 0; for(int r : runs) sum += r; for(size_t i = 0; i < tab.size(); i++) if(tab[i].dim == 0) { zero++; open0 += std::fabs(tab[i].d - eps) < 1e-5 && bnd[i].empty(); }
  MC_CHECK(zero == sum, "the table holds " << zero << " component intervals, the runs processed " << sum << " points"); MC_CHECK(open0 >= (int)runs.size(), "fewer open intervals than runs");
  auto opens = [&](size_t i) {   // some two of the points an interval of a partition names are as far apart as its birth says
    bool at = false; for(unsigned x : bnd[i]) for(unsigned y : bnd[i]) if(x < y && x < pts.size() && y < pts.size()) { double q = cloud::dist(pts[x], pts[y]); at = at || std::fabs(q - tab[i].b) < 1e-4 * (1 + q); }
    MC_CHECK(at, "no two of the points " << show(bnd[i]) << " of a class of dimension " << tab[i].dim << " are " << tab[i].b << " apart"); observe(bnd[i].size()); };
  if(kind == "red1") {
    double r = 0; for(auto& x : pts) r = std::max(r, cloud::dist(x, mean[0])); cloud::Cloud in; std::vector<unsigned> id; bool near = false; for(size_t i = 0; i < pts.size(); i++) { double q = cloud::dist(pts[i], mean[0]); if(std::fabs(q - 2 * r) < 1e-9) near = true; if(q < 2 * r) in.push_back(pts[i]); } if(near) return;
    auto e = intervals(in, eps, D, false); if(e.tie || in.size() != pts.size()) return; e.must.push_back({0, 0, eps});
    MC_CHECK(match(tab, e.must), "merged table: got " << vr::show(tab) << " expected " << vr::show(e.must));
    for(size_t i = 0; i < tab.size(); i++) if(tab[i].dim == 0 && bnd[i].size() == 2) { double q = cloud::dist(pts[*bnd[i].begin()], pts[*bnd[i].rbegin()]); MC_CHECK(std::fabs(q - tab[i].d) < 1e-4 * (1 + q), "points " << show(bnd[i]) << " merge at " << tab[i].d << ", their distance is " << q); } else if(tab[i].dim > 0) opens(i);
    nontrivial();
  } else {
    // every partition's points are original points: merge heights of boundary pairs (all runs but the last map back to the data)
    size_t cen = runs.back(), left = zero; for(size_t i = 0; i < tab.size(); i++) if(tab[i].dim > 0) { if(left) opens(i); } else { bool last = left <= cen; left--; if(last || bnd[i].size() != 2) continue; double q = cloud::dist(pts[*bnd[i].begin()], pts[*bnd[i].rbegin()]); MC_CHECK(std::fabs(q - tab[i].d) < 1e-4 * (1 + q), "points " << show(bnd[i]) << " merge at " << tab[i].d << ", their distance is " << q); }
    if((k <= 4 && pts.size() <= 12) || (k == 3 && pts.size() <= 20) || (k <= 2 && pts.size() <= 70)) {   // the whole table is that of some outcome of the clustering
      bool tie = false, seen = false; std::vector<int> sizes(runs.begin(), runs.end() - 1); std::sort(sizes.begin(), sizes.end()); size_t fits = 0;
      for(auto& oc : outcomes(pts, k, toi(val("-r", "--iterations", "250")), tie)) {
        double r = 0; for(size_t i = 0; i < pts.size(); i++) r = std::max(r, cloud::dist(pts[i], oc.cent[oc.label[i]]));
        std::vector<int> sz; std::vector<cloud::Cloud> parts; for(auto& c : oc.cent) { cloud::Cloud in; for(auto& x : pts) { double q = cloud::dist(x, c); if(std::fabs(q - 2 * r) < 1e-9) tie = true; if(q < 2 * r) in.push_back(x); } if(!in.empty()) { sz.push_back(in.size()); parts.push_back(in); } }
        std::sort(sz.begin(), sz.end()); if(sz != sizes) continue; fits++;
        std::vector<vr::Bar> all; parts.push_back(oc.cent); for(auto& x : parts) { auto e = intervals(x, eps, D, false); tie |= e.tie; all.insert(all.end(), e.must.begin(), e.must.end()); }
        if(match(tab, all)) { seen = true; break; }
      }
      MC_CHECK(seen || tie, "runs of " << show(runs) << " points with the intervals " << vr::show(tab) << ": not the result of any run of the clustering (" << fits << " agree on the sizes)"); observe(tie);
    }
    nontrivial();
  }
}
