// The contract every stage keeps: selection by name, required configuration, refusing to run unconfigured,
// one statistics line per run, and debug mode that writes the stage's result without changing it.
// Case: new|name|complex      pre|name      cfg|stage|key mask|first mask      run|chain|rep|dim|fn|points
#include "vr.hpp"
#include <typeinfo>
#include "pipePacket.hpp"
#include "basePipe.hpp"
#include "distMatrixPipe.hpp"
#include "neighGraphPipe.hpp"
#include "ripsPipe.hpp"
#include "upscalePipe.hpp"
#include "boundaryPipe.hpp"
#include "persistencePairs.hpp"
#include "optPersistencePairs.hpp"
#include "slidingWindow.hpp"
#include "naiveWindow.hpp"
#include "fastPersistence.hpp"
#include "preprocessor.hpp"
#include "kMeansPlusPlus.hpp"
#include "denStream.hpp"
#include "streamingKmeans.hpp"
const char* mc::harness_name = "stages";
size_t mc::harness_batch = 500;
double mc::harness_case_timeout = 20;
static const std::vector<std::string> NAMES = {"distMatrix", "neighGraph", "rips", "upscale", "boundary", "persistence", "slidingwindow", "sliding", "fastPersistence", "fast", "naivewindow", "naive", "", "DistMatrix", "distmatrix", "fastpersistence", "betti", "rips ", "persistence.fast", "distMatrix,"};
static const std::vector<std::string> CX = {"simplexArrayList", "simplexTree", "indSimplexTree", "", "SimplexTree", "graph"};
static const std::vector<std::string> PRE = {"none", "kmeansplusplus", "kmeans++", "kmeans", "streamingKmeans", "streamingkmeans", "streamKM", "denStream", "denstream", "DenStream", "", "Kmeans", "dbscan", "kmeans+"};
struct KeyV { const char *k, *v; };
static const std::vector<KeyV> KEYS = {{"dimensions", "2"}, {"epsilon", "1.7"}, {"twist", "false"}, {"clusters", "2"}, {"iterations", "50"}, {"lambda", ".25"}, {"debug", "0"}, {"outputFile", "console"}, {"complexType", "simplexTree"}};
struct StageT { const char *name, *cx, *need; bool pre; };
static const std::vector<StageT> STAGES = {{"distMatrix", "simplexTree", "epsilon", false}, {"neighGraph", "simplexTree", "dimensions epsilon", false}, {"rips", "simplexTree", "", false}, {"upscale", "simplexTree", "", false},
  {"boundary", "simplexTree", "dimensions epsilon", false}, {"persistence", "simplexTree", "dimensions epsilon twist", false}, {"persistence", "simplexArrayList", "dimensions epsilon twist", false}, {"persistence", "indSimplexTree", "dimensions epsilon twist", false},
  {"fast", "simplexArrayList", "dimensions epsilon twist", false}, {"slidingwindow", "simplexTree", "dimensions epsilon", false}, {"naivewindow", "simplexTree", "dimensions epsilon", false},
  {"kmeans++", "", "clusters iterations", true}, {"denstream", "", "epsilon lambda", true}, {"streamingkmeans", "", "clusters iterations", true}};

void mc::enumerate(Explorer& E) {
  for(auto& n : NAMES) for(auto& c : CX) E.add("new|" + n + "|" + c);
  for(auto& n : PRE) E.add("pre|" + n);
  for(const char* n : {"kmeansplusplus", "kmeans++", "kmeans", "denstream"}) for(int len : {0, 1, 7, 90, 250, 1100, 5000, 20000}) for(int pts : {5, 12, 40}) if(n[0] != 'd' || pts > 20) E.add(std::string("prerun|") + n + "|" + std::to_string(len) + "|" + std::to_string(pts));
  int full = (1 << KEYS.size()) - 1;
  if(!E.small()) for(const char* ch : {"B", "K"}) for(const char* rep : {"L", "T", "I"}) E.add(std::string("run|") + ch + "|" + rep + "|1|0|0123");
  for(size_t s = 0; s < STAGES.size(); s++) for(int m = 0; m <= full; m++) {
    E.add("cfg|" + std::to_string(s) + "|" + std::to_string(m) + "|-1"); 
    if((m & 63) == m) E.add("cfg|" + std::to_string(s) + "|" + std::to_string(full) + "|" + std::to_string(m));
  }
  for(const char* ch : {"f", "p", "D", "N", "R", "U"}) for(const char* rep : {"L", "T", "I"}) for(int d = 1; d <= 2; d++) for(int fn = 0; fn < 2; fn++) {
    if(ch[0] == 'p' && rep[0] == 'I') continue;
    for(int n = 0; n <= 4; n++) words(n, E.small() && n == 4 ? 2 : 4, [&](const std::vector<int>& w) { E.add(std::string("run|") + ch + "|" + rep + "|" + std::to_string(d) + "|" + std::to_string(fn) + "|" + wstr(w)); });
    if(E.thorough()) words(5, 4, [&](const std::vector<int>& w) { E.add(std::string("run|") + ch + "|" + rep + "|" + std::to_string(d) + "|" + std::to_string(fn) + "|" + wstr(w)); });
    for(int n : {13, 16, 17, 21, 33, 40}) if(!E.small() || n == 17) { std::string p; for(int i = 0; i < n; i++) p += char('0' + (i * i + 3 * i) % 9); for(int i = 0; i < n && d == 2; i++) p[i] = "0123456789abcdefghijklmnopqrstuvwxyz"[i % 36]; E.add(std::string("run|") + ch + "|" + rep + "|" + std::to_string(d) + "|" + std::to_string(fn) + "|" + p); }
    for(int n = 6; n <= 12; n++) { std::string p; for(int i = 0; i < n; i++) p += char('0' + (i * i + 3 * i) % 9); E.add(std::string("run|") + ch + "|" + rep + "|" + std::to_string(d) + "|" + std::to_string(fn) + "|" + p); }
  }
}

template <class T> static bool is(basePipe* p) { return p && typeid(*p) == typeid(T); }
static bool kind(const std::string& want, basePipe* p) {
  if(want == "dist") return is<distMatrixPipe>(p); if(want == "neigh") return is<neighGraphPipe>(p); if(want == "rips") return is<ripsPipe>(p); if(want == "upscale") return is<upscalePipe>(p);
  if(want == "boundary") return is<boundaryPipe>(p); if(want == "pairs") return is<persistencePairs>(p); if(want == "opt") return is<optPersistencePairs>(p); if(want == "sliding") return is<slidingWindow>(p);
  if(want == "naive") return is<naiveWindow>(p); if(want == "fast") return is<fastPersistence>(p); return p == nullptr;
}

static void run(const std::vector<std::string>& f) {
  using namespace mc;
  char ch = f[1][0], rep = f[2][0]; std::string ct = rep == 'L' ? "simplexArrayList" : rep == 'I' ? "indSimplexTree" : "simplexTree"; bool fn = f[4] == "1";
  vr::Mat pts; for(char c : f[5]) { double t = dig(c); pts.push_back({std::fmod(t * 1.3, 2.9), t * 0.37}); }
  if(ch == 'B' || ch == 'K') for(auto& p : pts) p.resize(ch == 'B' ? 50000 : 3000, 0.25);    // more than a megabyte, a kilobyte of data
  std::vector<std::string> st = {"distMatrix", "neighGraph", "rips"}; if(ch == 'f') st.push_back("fast"); if(ch == 'p') st.push_back("persistence");
  if(ch == 'D' || ch == 'B' || ch == 'K') st = {"distMatrix"}; if(ch == 'N') st = {"distMatrix", "neighGraph"}; if(ch == 'U') { st = {"upscale", "distMatrix", "upscale"}; if(pts.size() % 4 == 1) for(auto& p : pts) p.resize(90, -7.125); }
  std::string betti[3]; std::vector<std::vector<vr::Key>> cx[3];
  fresh_dir("output");
  for(int mode = 0; mode < 3; mode++) {      // no debug; debug to the console; debug into a log file
    std::map<std::string, std::string> cfg = {{"dimensions", f[3]}, {"epsilon", "1.7"}, {"debug", mode ? "1" : "0"}, {"outputFile", mode == 2 ? "run.log" : "console"}, {"twist", "false"}, {"complexType", ct}};
    if(fn) cfg["fn"] = "_7";
    CaptureCout cap; unlink("run.log");
    pipePacket pk(cfg, ct); pk.originalData = pts; pk.fullData = pts; pk.stats = "before\n"; std::string stats = "before\n";
    for(auto& name : st) {
      basePipe fac; auto* p = fac.newPipe(name, ct); MC_CHECK(p && p->configPipe(cfg), "stage " << name << " was not configured");
      size_t seen = cap.str().size(); std::string log0 = read_file("run.log");
      pk = p->runPipeWrapper(pk); op();
      std::string said = read_file("run.log").substr(log0.size()) + cap.str().substr(seen);
      MC_CHECK(said.find("[" + p->pipeType + "]:\t\tPipeline " + p->pipeType + " executed in ") != std::string::npos, "stage " << name << " does not report its run: " << said.substr(0, 200));
      // one more statistics line
      MC_CHECK(pk.stats.compare(0, stats.size(), stats) == 0, "stage " << name << " changed earlier statistics");
      std::string line = pk.stats.substr(stats.size()); stats = pk.stats;
      MC_CHECK(!line.empty() && line.back() == '\n' && std::count(line.begin(), line.end(), '\n') == 1, "stage " << name << " appended '" << line << "' to the statistics");
      auto c = split(line.substr(0, line.size() - 1), ',');
      MC_CHECK(c.size() == 6 && c[0] == p->pipeType, "statistics line '" << line << "'");
      double sec = atof(c[1].c_str()), sz = atof(c[2].c_str()), bytes = (pts.empty() ? 0 : pts.size() * pts[0].size()) * sizeof(double) + std::floor(pk.complex->getSize());
      double mul = c[3] == "B" ? 1 : c[3] == "KB" ? 1e3 : c[3] == "MB" ? 1e6 : c[3] == "GB" ? 1e9 : -1;
      MC_CHECK(sec >= 0 && sec < 100, "statistics line '" << line << "'");
      MC_CHECK(std::fabs(sz * mul - bytes) <= mul * 1e-5 && (mul == 1 || sz > 1) && sz <= 1000, "statistics line '" << line << "': " << bytes << " bytes are held");
      MC_CHECK(atoi(c[4].c_str()) == pk.complex->vertexCount() && atoi(c[5].c_str()) == pk.complex->simplexCount(), "statistics line '" << line << "': the complex has " << pk.complex->vertexCount() << " vertices and " << pk.complex->simplexCount() << " simplices");
      MC_CHECK(pk.originalData == pts && pk.fullData == pts, "stage " << name << " changed the points");
      if(mode) {   // the debug files
        auto num = [](const std::string& t) { std::vector<std::vector<double>> r; for(auto& l : split(t, '\n')) { if(l.empty()) continue; std::vector<double> x; for(auto& q : split(l, ',')) if(!q.empty()) x.push_back(atof(q.c_str())); r.push_back(x); } return r; };
        auto close = [](double a, double b) { return std::fabs(a - b) <= 1e-5 * (1 + std::fabs(b)); };
        if(name == "distMatrix") {
          auto t = num(read_file("output/DistMatrix_output.csv")); MC_CHECK(t.size() == pts.size(), "the matrix file has " << t.size() << " rows");
          for(size_t i = 0; i < t.size(); i++) for(size_t j = 0; j < t[i].size(); j++) MC_CHECK(close(t[i][j], pk.complex->distMatrix[i][j]), "the matrix file holds " << t[i][j] << " in row " << i << ", the matrix " << pk.complex->distMatrix[i][j]);
        } else if(name == "neighGraph" || (name == "rips" && rep == 'L')) {
          auto t = num(read_file(name == "rips" ? "output/ripsPipe_output.csv" : "output/neighGraph_output.csv"));
          std::vector<vr::Key> got, exp; for(auto& x : t) { vr::Key k; for(size_t i = 0; i + 1 < x.size(); i++) k.first.push_back((unsigned)x[i]); k.second = x.back(); got.push_back(k); }
          auto all = pk.complex->getAllEdges(1.7);
          for(size_t d = 0; d < all.size(); d++) if(!(name == "neighGraph" && rep == 'L' && d != 1)) for(auto& k : vr::canon(all[d])) exp.push_back(k);
          std::sort(got.begin(), got.end()); std::sort(exp.begin(), exp.end());
          bool same = got.size() == exp.size(); for(size_t i = 0; same && i < got.size(); i++) { bool hit = false; for(auto& e : exp) if(e.first == got[i].first && close(e.second, got[i].second)) hit = true; same = hit; }
          MC_CHECK(same, "the file of stage " << name << " holds " << vr::show(got).substr(0, 200) << ", the complex " << vr::show(exp).substr(0, 200));
        } else if(name == "upscale") {
          std::string exp; for(auto& x : pts) { for(double y : x) exp += std::to_string(y) + ","; exp += "\n"; }
          MC_CHECK(file_exists("output/Upscale_output.csv") && read_file("output/Upscale_output.csv") == exp, "the file of stage upscale is not the points");
        } else if(name == "fast" || name == "persistence") {
          std::string file = "output/" + p->pipeType + "_bettis_output" + (fn ? "_7" : "") + ".csv";
          MC_CHECK(read_file(file) == pk.bettiOutput, "the file of stage " << name << " is not its result: '" << read_file(file).substr(0, 100) << "'");
          MC_CHECK(unlink(file.c_str()) == 0, "no debug file");
        }
      } else if(file_exists("output/DistMatrix_output.csv") || file_exists("output/neighGraph_output.csv")) fail("files are written without debug");
    }
    betti[mode] = pk.bettiOutput;
    if(ch != 'D' && ch != 'B' && ch != 'K') for(auto& l : pk.complex->getAllEdges(1.7)) cx[mode].push_back(vr::canon(l));
    if(mode == 1) MC_CHECK(cap.str().find("[DEBUG]") != std::string::npos, "debug mode prints no debug messages");
    if(mode == 2) MC_CHECK(read_file("run.log").find("[DEBUG]") != std::string::npos, "debug mode writes no debug messages to the log");
  }
  MC_CHECK(betti[0] == betti[1] && betti[0] == betti[2] && cx[0] == cx[1] && cx[0] == cx[2], "debug mode changes the result");
  observe(betti[0]); if(f[5].size() > 2) nontrivial();
}

void mc::run_case(const std::string& cs) {
  auto f = split(cs, '|');
  if(f[0] == "new") {
    static const std::map<std::string, std::string> K = {{"distMatrix", "dist"}, {"neighGraph", "neigh"}, {"rips", "rips"}, {"upscale", "upscale"}, {"boundary", "boundary"}, {"slidingwindow", "sliding"}, {"sliding", "sliding"}, {"fastPersistence", "fast"}, {"fast", "fast"}, {"naivewindow", "naive"}, {"naive", "naive"}};
    std::string want = K.count(f[1]) ? K.at(f[1]) : "";
    if(f[1] == "persistence") want = f[2] == "simplexArrayList" || f[2] == "simplexTree" ? "pairs" : f[2] == "indSimplexTree" ? "opt" : "";
    basePipe fac; for(int i = 0; i < 2; i++) { auto* p = fac.newPipe(f[1], f[2]); op(); MC_CHECK(kind(want, p), "stage '" << f[1] << "' for complex '" << f[2] << "': got " << (p ? typeid(*p).name() : "nothing") << ", expected " << (want.empty() ? "nothing" : want)); MC_CHECK(!p || !p->configured, "a new stage is already configured"); }
    if(!want.empty()) nontrivial(); observe(want); return;
  }
  if(f[0] == "pre") {
    static const std::map<std::string, int> K = {{"none", 0}, {"kmeansplusplus", 1}, {"kmeans++", 1}, {"kmeans", 1}, {"streamingKmeans", 2}, {"streamingkmeans", 2}, {"streamKM", 2}, {"denStream", 3}, {"denstream", 3}, {"DenStream", 3}};
    preprocessor fac; auto* p = fac.newPreprocessor(f[1]); op();
    if(!K.count(f[1])) { MC_CHECK(p == nullptr, "preprocessor '" << f[1] << "' exists"); return; }
    MC_CHECK(p != nullptr, "preprocessor '" << f[1] << "' does not exist"); nontrivial();
    int k = K.at(f[1]); auto& t = typeid(*p); MC_CHECK(t == (k == 0 ? typeid(preprocessor) : k == 1 ? typeid(kMeansPlusPlus) : k == 2 ? typeid(streamingKmeans) : typeid(denStream)), "preprocessor '" << f[1] << "' is a " << t.name());
    return;
  }
  if(f[0] == "run") { run(f); return; }
  if(f[0] == "prerun") {   // a preprocessor appends one statistics line and leaves what was there
    std::map<std::string, std::string> c; for(auto& k : KEYS) c[k.k] = k.v; CaptureCout cap; fresh_dir("output");
    pipePacket pk(c, "simplexTree"); for(int i = 0; i < toi(f[3]); i++) pk.originalData.push_back({0.5 * (i % 7), 1234567.25 + i % 5}); pk.fullData = pk.originalData; std::string before; for(int i = 0; i < toi(f[2]); i++) before += i % 40 == 39 ? '\n' : char('a' + i % 26); if(!before.empty()) before.back() = '\n'; pk.stats = before; pk.bettiOutput = "b";
    preprocessor fac; auto* p = fac.newPreprocessor(f[1]); MC_CHECK(p && p->configPreprocessor(c), "preprocessor " << f[1] << " was not configured");
    for(int r = 0; r < 2; r++) {
      auto in = pk; pk = p->runPreprocessorWrapper(pk); op(); MC_CHECK(pk.stats.compare(0, before.size(), before) == 0, "preprocessor " << f[1] << " changed earlier statistics");
      std::string line = pk.stats.substr(before.size()); before = pk.stats; auto q = split(line.substr(0, line.empty() ? 0 : line.size() - 1), ',');
      MC_CHECK(!line.empty() && line.back() == '\n' && std::count(line.begin(), line.end(), '\n') == 1 && q.size() == 2 && q[0] == p->procName && atof(q[1].c_str()) >= 0 && atof(q[1].c_str()) < 100, "preprocessor " << f[1] << " appended '" << line << "' to the statistics");
      MC_CHECK(pk.fullData == in.fullData && pk.bettiOutput == "b" && pk.complex == in.complex, "preprocessor " << f[1] << " changed more than the reduced points and labels");
      std::string exp; for(auto l : pk.originalLabels) exp += std::to_string(l) + "\n"; MC_CHECK(read_file("output/" + p->procName + "_label_output.csv") == exp, "the label file is not the labels");
      exp = ""; for(auto& x : pk.originalData) { for(double y : x) exp += std::to_string(y) + ","; exp += "\n"; } MC_CHECK(read_file("output/" + p->procName + "_centroid_output.csv") == exp, "the file of reduced points is not the reduced points");
      MC_CHECK(cap.str().find("Pipeline " + p->procName + " executed in ") != std::string::npos, "preprocessor " << f[1] << " does not report its run"); nontrivial(); }
    return;
  }
  auto& S = STAGES[toi(f[1])]; int mask = toi(f[2]), first = toi(f[3]);
  auto conf = [&](int m) { std::map<std::string, std::string> c; for(size_t i = 0; i < KEYS.size(); i++) if(m >> i & 1) c[KEYS[i].k] = KEYS[i].v; return c; };
  auto need = [&](int m) { auto c = conf(m); for(auto& k : split(S.need, ' ')) if(!k.empty() && !c.count(k)) return false; return true; };
  CaptureCout cap;
  std::map<std::string, std::string> pc = {{"dimensions", "2"}, {"epsilon", "1.7"}, {"debug", "0"}, {"outputFile", "console"}};
  pipePacket pk(pc, "simplexTree"); pk.originalData = {{0, 0}, {1, 0}, {0, 1}}; pk.fullData = pk.originalData; pk.stats = "s"; pk.bettiOutput = "b";
  basePipe fac; preprocessor pfac; basePipe* p = S.pre ? nullptr : fac.newPipe(S.name, S.cx); preprocessor* q = S.pre ? pfac.newPreprocessor(S.name) : nullptr;
  MC_CHECK(p || q, "no stage");
  auto unchanged = [&](const char* when, bool says = true) {
    size_t at = cap.str().size(); pipePacket out = S.pre ? q->runPreprocessorWrapper(pk) : p->runPipeWrapper(pk); op();
    MC_CHECK(out.originalData == pk.originalData && out.fullData == pk.fullData && out.stats == "s" && out.bettiOutput == "b" && out.originalLabels.empty() && out.bettiTable.empty() && out.weights.empty() && out.complex == pk.complex && out.complex->distMatrix.empty(),
      "stage " << S.name << " ran " << when);
    MC_CHECK(!says || cap.str().substr(at).find("not configured") != std::string::npos, "stage " << S.name << " does not say that it is not configured");
    nontrivial();
  };
  unchanged("before it was configured");
  auto configure = [&](int m) { bool ok = S.pre ? q->configPreprocessor(conf(m)) : p->configPipe(conf(m)); op();
    MC_CHECK(ok == need(m), "stage " << S.name << (ok ? " accepts" : " rejects") << " a configuration " << (need(m) ? "with everything" : "without something") << " it needs");
    if(!ok) unchanged("with an incomplete configuration", m >> 7 & 1); else MC_CHECK(S.pre ? q->configured : p->configured, "stage " << S.name << " was configured but does not know it"); };
  if(first >= 0 && !need(first)) configure(first);
  configure(mask);
  observe(need(mask));
}
