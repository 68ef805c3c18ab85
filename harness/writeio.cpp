// Writing results: what is written can be read back, under the documented header and file name, and replaces older content.
// Case: csv|r|c|cells|hdr   mat|r|c|cells   text|n|kind
#include "mc.hpp"
#include "readInput.hpp"
#include "writeOutput.hpp"
const char* mc::harness_name = "writeio";
size_t mc::harness_batch = 2000;
double mc::harness_case_timeout = 10;
static const std::vector<double> VAL = {0, 1, -1.5, 123456.789012, 0.000001, -0.25, 1e6, 3.1415926535, -7, 99999999.5};

void mc::enumerate(Explorer& E) {
  for(int r = 1; r <= 4; r++) for(int c = 1; c <= 4; c++) {
    if(r * c > (E.thorough() ? 6 : 4)) continue;
    words(r * c, r * c <= 2 ? 10 : r * c == 3 ? 8 : E.thorough() ? 6 : 5, [&](const std::vector<int>& w) {
      for(int h = 0; h < 3; h++) E.add("csv|" + std::to_string(r) + "|" + std::to_string(c) + "|" + wstr(w) + "|" + std::to_string(h));
      E.add("mat|" + std::to_string(r) + "|" + std::to_string(c) + "|" + wstr(w));
    });
  }
  for(int r : {1, 2, 5, 16, 17, 33, 64, 65, 130, 300}) for(int c : {1, 2, 3, 9, 16, 17, 33, 65, 130}) { if(r * c > 5000 || r * c <= 4) continue; std::string w; for(int i = 0; i < r * c; i++) w += char('0' + (i * i + 3 * i + i / 7) % 10); for(int h = 0; h < 3; h++) E.add("csv|" + std::to_string(r) + "|" + std::to_string(c) + "|" + w + "|" + std::to_string(h)); E.add("mat|" + std::to_string(r) + "|" + std::to_string(c) + "|" + w); }
  E.add("mat|0|0|"); E.add("csv|0|0||0"); E.add("csv|0|0||1"); E.add("csv|0|0||2");
  for(int n : {60, 64, 65, 100, 500, 3000}) for(int k = 0; k < 7; k++) E.add("text|" + std::to_string(n) + "|" + std::to_string(k));
  for(int n = 0; n <= 40; n++) for(int k = 0; k < 7; k++) E.add("text|" + std::to_string(n) + "|" + std::to_string(k));
}

void mc::run_case(const std::string& cs) {
  auto f = split(cs, '|');
  writeOutput w; readInput rd; CaptureCout cap;
  if(f[0] == "text") {
    int n = toi(f[1]), k = toi(f[2]); std::string body;
    for(int i = 0; i < n; i++) body += std::to_string(i % 3) + "," + std::to_string(i * 0.5) + "," + std::to_string(i * 1.5) + "\n";
    std::string file = k == 0 ? "t_stats.csv" : "t.csv", other = k == 0 ? "t.csv" : "t_stats.csv";
    write_file(file, "older content that must disappear\n"); write_file(other, "keep");
    bool ok = k == 0 ? w.writeStats(body, "t") : k == 1 ? w.writeBarcodes(body, "t") : k == 2 ? w.writeCSV(body, "t") : w.writeCSV(body, "t", k == 3 ? "a,b,c\n" : k == 4 ? "0,0.000000,0.000000\n" : k == 5 ? "" : "no line end");
    op();
    std::string hdr = k == 0 ? "PipeName,PhysExecutionTime,MemorySize,MemoryUnits,VertexCount,SimplexCount\n" : k == 1 ? "dimension,birth,death\n" : k == 2 || k == 5 ? "" : k == 3 ? "a,b,c\n" : k == 4 ? "0,0.000000,0.000000\n" : "no line end";
    MC_CHECK(ok, "writing reported failure");
    MC_CHECK(read_file(file) == hdr + body, "file content: got '" << read_file(file).substr(0, 200) << "' expected '" << (hdr + body).substr(0, 200) << "'");
    MC_CHECK(read_file(other) == "keep", "another file was changed");
    if(n) nontrivial(); observe(n); return;
  }
  int r = toi(f[1]), c = toi(f[2]); std::vector<std::vector<double>> data;
  for(int i = 0; i < r; i++) { std::vector<double> row; for(int j = 0; j < c; j++) row.push_back(VAL[dig(f[3][i * c + j])]); data.push_back(row); }
  std::vector<std::vector<double>> got;
  if(f[0] == "mat") {
    write_file("o.mat", "7\n7\nolder\n");
    MC_CHECK(w.writeMAT(data, "o"), "writing reported failure"); op();
    got = rd.readMAT("o.mat"); op();
  } else {
    int h = toi(f[4]); write_file("o.csv", "9,9,9\nolder\n");
    bool ok = h == 0 ? w.writeCSV(data, "o") : h == 1 ? w.writeCSV(data, "o", "x,y\n") : w.writeBarcodes(data, "o"); op();
    MC_CHECK(ok, "writing reported failure");
    std::string text = read_file("o.csv"), hdr = h == 0 ? "" : h == 1 ? "x,y\n" : "dimension,birth,death\n";
    MC_CHECK(text.compare(0, hdr.size(), hdr) == 0, "the header is missing: '" << text.substr(0, 60) << "'");
    write_file("o2.csv", text.substr(hdr.size()));
    got = rd.readCSV("o2.csv"); op();
  }
  bool same = got.size() == data.size();
  for(size_t i = 0; same && i < got.size(); i++) { same = got[i].size() == data[i].size(); for(size_t j = 0; same && j < got[i].size(); j++) same = std::fabs(got[i][j] - data[i][j]) <= 5.1e-7; }
  std::string s; for(auto& x : got) s += show(x); std::string t; for(auto& x : data) t += show(x);
  MC_CHECK(same, "read back " << s << ", written " << t);
  if(r * c > 1) nontrivial(); for(auto& x : got) for(double v : x) observe_d(v);
}
