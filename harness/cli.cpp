// Command line: which option values and which pipeline a command line selects.
// Case: opt|word   word = comma separated items "<option index><form s/l><value index>"; trailing "!" = a lone option at the end
//       mode|m|pre|pipe|mpi|complex|upscale   (indices, '-' = not given)
#include "mc.hpp"
#include "argParser.hpp"
const char* mc::harness_name = "cli";
size_t mc::harness_batch = 4000;
double mc::harness_case_timeout = 10;
struct Opt { const char *l, *s, *def; };
static const std::vector<Opt> OPT = {{"mpi", "a", "0"}, {"mode", "m", "standard"}, {"dimensions", "d", "1"}, {"iterations", "r", "250"}, {"pipeline", "p", ""}, {"inputFile", "i", "None"},
  {"outputFile", "o", "output.csv"}, {"epsilon", "e", "5"}, {"lambda", "l", ".25"}, {"debug", "x", "0"}, {"complexType", "c", "simplexTree"}, {"clusters", "k", "20"},
  {"preprocessor", "pre", ""}, {"upscale", "u", "false"}, {"twist", "t", "false"}, {"collapse", "z", "false"}};
static const std::vector<const char*> VALUE = {"7", "abc", "-3", "0.5", "a.b.c", "--x", "", "two words"};
static const std::vector<const char*> MODE = {"standard", "reduced", "upscaleBound", "stream", "sw", "slidingwindow", "fast", "naive", "naivewindow", "other"};
static const std::vector<const char*> PRE = {"", "kmeans++", "denstream", "none"};
static const std::vector<const char*> CX = {"simplexArrayList", "simplexTree", "indSimplexTree"};

void mc::enumerate(Explorer& E) {
  E.add("opt|"); E.add("opt|!");
  auto item = [&](int i, int form, int v) { return std::string(1, char('a' + i)) + "slLS"[form] + char('0' + v); };  // s -e  l --epsilon  L -epsilon  S --e
  for(int i = 0; i < 16; i++) for(int fo = 0; fo < 4; fo++) for(int v = 0; v < 8; v++) { E.add("opt|" + item(i, fo, v)); if(v == 0) E.add("opt|" + item(i, fo, v) + ",!"); }
  for(int i = 0; i < 16; i++) for(int j = 0; j < 16; j++) for(int a = 0; a < 4; a++) for(int b = 0; b < 4; b++) for(int v = 0; v < (i == j ? 5 : 2); v++)
    E.add("opt|" + item(i, a, 0) + "," + item(j, b, 1 + v));
  for(int i = 0; i < 16; i++) for(int j = 0; j < 16; j++) for(int k = 0; k < 16; k++) for(int a = 0; a < 8; a++)
    if(E.thorough() || i == j || j == k || i == k || a == 5 || a == 2) E.add("opt|" + item(i, a & 1, 0) + "," + item(j, a >> 1 & 1, 1) + "," + item(k, a >> 2 & 1, 2));
  std::string all; for(int i = 0; i < 16; i++) all += (i ? "," : "") + item(15 - i, i % 2, i % 8); E.add("opt|" + all);
  for(int i = 0; i < 16; i++) for(int fo = 0; fo < 2; fo++) { std::string w; for(int j = 0; j < 16; j++) if(j != i) w += (w.empty() ? "" : ",") + item(j, fo, (i + j) % 8); E.add("opt|" + w); }
  for(int m = -1; m < 10; m++) for(int p = -1; p < 4; p++) for(int pl = -1; pl < 2; pl++) for(int mpi = -1; mpi < 2; mpi++) for(int cx = -1; cx < 3; cx++) for(int u = -1; u < 2; u++) {
    auto s = [](int x) { return x < 0 ? std::string("-") : std::to_string(x); };
    E.add("mode|" + s(m) + "|" + s(p) + "|" + s(pl) + "|" + s(mpi) + "|" + s(cx) + "|" + s(u));
  }
}

using Map = std::map<std::string, std::string>;
static std::string shows(const Map& m) { std::string s; for(auto& p : m) s += p.first + "=" + p.second + " "; return s; }
static Map parse(std::vector<std::string> a, std::string* printed = nullptr) {
  a.insert(a.begin(), "LHF");
  std::vector<char*> v; for(auto& x : a) v.push_back(&x[0]); v.push_back(nullptr);
  mc::CaptureCout cap; argParser p; mc::op();
  auto m = p.parse((int)a.size(), v.data());
  if(printed) *printed = cap.str();
  return m;
}

void mc::run_case(const std::string& cs) {
  auto f = split(cs, '|');
  if(f[0] == "opt") {
    std::vector<std::string> args; std::map<int, std::string> sh, lo; bool lone = false;
    if(!f[1].empty()) for(auto& it : split(f[1], ',')) {
      if(it == "!") { args.push_back("--epsilon"); lone = true; continue; }
      int i = it[0] - 'a'; std::string v = VALUE[dig(it[2])];
      switch(it[1]) {
        case 's': args.push_back(std::string("-") + OPT[i].s); sh[i] = v; break;
        case 'l': args.push_back(std::string("--") + OPT[i].l); lo[i] = v; break;
        case 'L': args.push_back(std::string("-") + OPT[i].l); lo[i] = v; break;
        case 'S': args.push_back(std::string("--") + OPT[i].s); sh[i] = v; break;
      }
      args.push_back(v);
    }
    Map exp;
    for(int i = 0; i < 16; i++) exp[OPT[i].l] = sh.count(i) ? sh[i] : lo.count(i) ? lo[i] : OPT[i].def;
    std::string out; Map got = parse(args, &out);
    MC_CHECK(got == exp, "arguments " << show(args) << ": got " << shows(got) << " expected " << shows(exp));
    if(lone) MC_CHECK(out.find("Usage") != std::string::npos, "an option without a value is not answered with the usage text");
    else MC_CHECK(out.empty(), "a well-formed command line prints: " << out.substr(0, 100));
    if(args.size() > 2) nontrivial();
    observe(shows(got));
    // printing lists every argument with its value
    CaptureCout cap; argParser p; p.printArguments(got); op();
    for(auto& a : got) MC_CHECK(cap.str().find(a.first + " (") != std::string::npos && cap.str().find(a.second) != std::string::npos, "printing the arguments omits " << a.first);
    return;
  }
  std::vector<std::string> args; auto g = [&](int k) { return f[k] == "-" ? -1 : toi(f[k]); };
  int m = g(1), p = g(2), pl = g(3), mpi = g(4), cx = g(5), u = g(6);
  const char* PIPE[] = {"distMatrix.neighGraph.rips.persistence", "slidingwindow"};
  Map exp; for(auto& o : OPT) exp[o.l] = o.def;
  auto give = [&](const char* flag, const char* name, const std::string& v) { args.push_back(flag); args.push_back(v); exp[name] = v; };
  if(m >= 0) give("-m", "mode", MODE[m]);
  if(p >= 0) give("--preprocessor", "preprocessor", PRE[p]);
  if(pl >= 0) give("-p", "pipeline", PIPE[pl]);
  if(mpi >= 0) give("--mpi", "mpi", std::to_string(mpi));
  if(cx >= 0) give("-c", "complexType", CX[cx]);
  if(u >= 0) give("-u", "upscale", u ? "true" : "false");
  std::string mode = exp["mode"], FAST = "distMatrix.neighGraph.rips.fastPersistence";
  auto pre = [&](const char* d) { if(exp["preprocessor"].empty()) exp["preprocessor"] = d; };
  if(mpi == 1) { exp["pipeline"] = FAST; pre("kmeans++"); exp["upscale"] = "true"; }
  else if(pl < 0) {
    if(mode == "standard") exp["pipeline"] = FAST;
    else if(mode == "reduced") { exp["pipeline"] = FAST; pre("kmeans++"); exp["upscale"] = "false"; exp["complexType"] = "simplexTree"; }
    else if(mode == "upscaleBound") { exp["pipeline"] = "distMatrix.neighGraph.rips.persistence.boundary.upscale"; pre("kmeans++"); exp["upscale"] = "true"; }
    else if(mode == "stream") { exp["pipeline"] = FAST; pre("streamingkmeans"); }
    else if(mode == "sw" || mode == "slidingwindow") { exp["pipeline"] = "slidingwindow"; exp["preprocessor"] = ""; exp["upscale"] = "false"; exp["complexType"] = "simplexTree"; }
    else if(mode == "naive" || mode == "naivewindow") { exp["pipeline"] = "naivewindow"; exp["preprocessor"] = ""; exp["upscale"] = "false"; exp["complexType"] = "simplexTree"; }
    else if(mode == "fast") { exp["pipeline"] = FAST; exp["upscale"] = "false"; exp["complexType"] = "simplexTree"; }
  }
  if(m > 0 || mpi == 1) nontrivial();
  Map got = parse(args); argParser ap; ap.setPipeline(got); op();
  MC_CHECK(got == exp, "arguments " << show(args) << ": got " << shows(got) << " expected " << shows(exp));
  Map again = got; ap.setPipeline(again); op();
  MC_CHECK(again == got, "selecting the pipeline twice changes it: " << shows(again));
  observe(shows(got));
}
