// Reading data: the rows read are exactly the numbers written in the file, for every layout the readers accept,
// and the streaming reader delivers the same rows as the batch reader.
// Case: csv|<layout digits>|<cells>   layout: sep eol trailing final blanks pad
//       long|<line length>|<second row 0/1>|<final newline 0/1>
//       mat|rows|cols|cells|final|spaces|cut
//       big|rows|columns|layout 0..3
//       miss
//       gap|line|row before|row after
#include "mc.hpp"
#include "readInput.hpp"
const char* mc::harness_name = "readio";
size_t mc::harness_batch = 2000;
double mc::harness_case_timeout = 10;
static const std::vector<std::string> CELL = {"1", "-2.5", "3e2", ".5", "1E-3", "+4", "0", "10.25", "-7", "2.E+01"};

void mc::enumerate(Explorer& E) {
  // every layout x every table of these shapes
  auto layouts = [&](const std::function<void(const std::string&)>& f) {
    for(int sep = 0; sep < 4; sep++) for(int eol = 0; eol < 2; eol++) for(int tr = 0; tr < 2; tr++) for(int fin = 0; fin < 3; fin++) for(int bl = 0; bl < 8; bl += E.small() ? 3 : 1) for(int pad = 0; pad < 3; pad++)
      f(std::to_string(sep) + std::to_string(eol) + std::to_string(tr) + std::to_string(fin) + std::to_string(bl) + std::to_string(pad));
  };
  auto shape = [&](int rows, int cols, int k, bool all) {
    words(rows * cols, k, [&](const std::vector<int>& w) {
      std::string t; for(int i = 0; i < rows * cols; i++) { if(i && i % cols == 0) t += '/'; t += char('0' + w[i]); }
      if(all) layouts([&](const std::string& l) { E.add("csv|" + l + "|" + t); });
      else for(const char* l : {"000000", "010000", "001210", "100112"}) E.add(std::string("csv|") + l + "|" + t);
    });
  };
  shape(1, 1, 10, true); shape(1, 2, 10, false); shape(2, 1, 10, false); shape(2, 1, 3, true); shape(1, 2, 3, true);
  shape(2, 2, E.thorough() ? 8 : 4, false); shape(3, 1, 6, false); shape(1, 4, 5, false); if(!E.small()) shape(3, 2, 2, true);
  shape(2, 2, 2, true); if(E.thorough()) { shape(2, 2, 4, true); shape(3, 3, 3, false); }
  for(auto t : {"0/12/345", "123/4/56", "01/0/01"}) layouts([&](const std::string& l) { E.add("csv|" + l + "|" + t); });  // rows of different length
  for(int L = 2; L <= (E.thorough() ? 4100 : 2100); L++) {
    bool near = false; for(int b = 999; b <= 4000; b += 999) if(std::abs(L - b) < 25) near = true;
    if(!near && L % 37) continue; if(E.small() && L % 7) continue;
    for(int s = 0; s < 2; s++) for(int f = 0; f < 2; f++) E.add("long|" + std::to_string(L) + "|" + std::to_string(s) + "|" + std::to_string(f));
  }
  if(!E.small()) for(int L : {4095, 4096, 4997, 5000, 8192, 9990, 10000, 16384, 32768, 40000}) for(int s = 0; s < 2; s++) for(int f = 0; f < 2; f++) E.add("long|" + std::to_string(L) + "|" + std::to_string(s) + "|" + std::to_string(f));
  for(int r = 0; r <= 3; r++) for(int c = 0; c <= 3; c++) words(std::min(4, r * c), 5, [&](const std::vector<int>& w) {
    for(int fin = 0; fin < 2; fin++) for(int sp = 0; sp < 2; sp++) for(int cut = 0; cut <= (c == 1 ? r : r * c ? 1 : 0); cut++) {
      std::string t; for(int i = 0; i < r * c; i++) t += char('0' + (w[i % w.size()] + 2 * (i / 4)) % 10);
      E.add("mat|" + std::to_string(r) + "|" + std::to_string(c) + "|" + t + "|" + std::to_string(fin) + "|" + std::to_string(sp) + "|" + std::to_string(cut));
    }
  });
  for(int r : {1, 5, 16, 17, 100, 255, 256, 257, 1023, 1024, 1025, 3000}) for(int c : {1, 2, 7, 16, 17, 64, 65, 130, 255, 256, 257, 700}) for(int l = 0; l < 4; l++) { if(r * c > (E.small() ? 2000 : 30000)) continue; E.add("big|" + std::to_string(r) + "|" + std::to_string(c) + "|" + std::to_string(l)); }
  E.add("miss");
  // a missing value is refused (an error, or the row is not delivered), never read as a shorter row
  for(auto t : {",1", "1,,2", "1,2,,3", ",,1", "1,,", "1, ,2", " ,1", ",", ",,", "1,2,,,3"}) for(int before = 0; before < 2; before++) for(int after = 0; after < 2; after++) E.add(std::string("gap|") + t + "|" + std::to_string(before) + "|" + std::to_string(after));
}

using Rows = std::vector<std::vector<double>>;
static std::string shows(const Rows& r) { std::string s; for(auto& x : r) s += mc::show(x); return s; }
static Rows stream(readInput& r, const std::string& file, int want) {
  Rows out;
  MC_CHECK(r.streamInit(file), "the stream reader did not open the file");
  while(true) {
    std::vector<double> row; if(!r.streamRead(row)) break;
    mc::op(); out.push_back(row);
    MC_CHECK((int)out.size() <= want, "the stream reader delivers more than the " << want << " rows of the file: " << shows(out));
  }
  std::vector<double> row; MC_CHECK(!r.streamRead(row), "the stream reader delivers a row after it reported the end");
  return out;
}

void mc::run_case(const std::string& cs) {
  auto f = split(cs, '|');
  readInput rd;
  if(f[0] == "miss") {
    nontrivial();
    CaptureCout cap;
    MC_CHECK(rd.readCSV("no_such_file.csv").empty(), "a missing csv file yields rows");
    MC_CHECK(cap.str().find("no_such_file.csv") != std::string::npos, "a missing csv file is not reported");
    MC_CHECK(rd.readMAT("no_such_file.mat").empty(), "a missing mat file yields rows");
    std::vector<double> row;
    MC_CHECK(!rd.streamRead(row), "reading a stream that was never opened yields a row");
    MC_CHECK(!rd.streamInit("no_such_file.csv"), "opening a missing file for streaming succeeds");
    MC_CHECK(!rd.streamRead(row), "reading a stream that failed to open yields a row");
    return;
  }
  if(f[0] == "gap") {
    nontrivial();
    write_file("in.csv", std::string(f[2] == "1" ? "7,8\n" : "") + f[1] + "\n" + (f[3] == "1" ? "9,10\n" : ""));
    std::set<std::vector<double>> ok; if(f[2] == "1") ok.insert({7, 8}); if(f[3] == "1") ok.insert({9, 10});
    auto chk = [&](const Rows& r, const char* who) { for(auto& x : r) MC_CHECK(ok.count(x), who << " reads the line '" << f[1] << "' as " << show(x)); };
    try { op(); chk(rd.readCSV("in.csv"), "the batch reader"); } catch(std::logic_error&) { observe(1); }
    readInput st;
    try { op(); if(st.streamInit("in.csv")) for(int i = 0; i < 5; i++) { std::vector<double> row; if(!st.streamRead(row)) break; chk({row}, "the stream reader"); } } catch(std::logic_error&) { observe(2); }
    return;
  }
  if(f[0] == "mat") {
    int r = toi(f[1]), c = toi(f[2]), fin = toi(f[4]), sp = toi(f[5]), cut = toi(f[6]);
    std::string text = std::to_string(r) + "\n" + (sp ? " " : "") + std::to_string(c) + (fin || r * c ? "\n" : "");
    Rows exp; int left = r * c - cut;
    for(int i = 0; i < r; i++) {
      std::vector<double> row;
      for(int j = 0; j < c; j++) if(i * c + j < left) {
        auto& cell = CELL[dig(f[3][i * c + j])];
        text += (sp && j % 2 ? "  " : "") + cell + (sp && i % 2 ? " " : "");
        if(fin || i * c + j + 1 < left) text += "\n";
        row.push_back(std::strtod(cell.c_str(), nullptr));
      }
      exp.push_back(row);
    }
    write_file("in.mat", text);
    auto got = rd.readMAT("in.mat"); op(1 + r);
    // a truncated file never yields values which are not in it
    MC_CHECK(got == exp, "mat file: got " << shows(got) << " expected " << shows(exp));
    if(r * c) nontrivial(); for(auto& x : got) for(double v : x) observe_d(v);
    return;
  }
  std::string text; Rows exp;
  if(f[0] == "long") {
    int L = toi(f[1]);
    std::string line; std::vector<double> row; int k = 0;
    while((int)line.size() < L) {
      std::string c = std::to_string(k % 10); k++;
      if((int)line.size() + 1 == L && !line.empty()) { line += ","; break; }
      if(!line.empty()) line += ",";
      line += c; row.push_back(toi(c));
    }
    exp.push_back(row); text = line;
    if(f[2] == "1") { text += "\n8,9"; exp.push_back({8, 9}); }
    if(f[3] == "1") text += "\n";
    if(L > 900) nontrivial();
  } else if(f[0] == "big") {
    int R = toi(f[1]), C = toi(f[2]), l = toi(f[3]); nontrivial();
    for(int i = 0; i < R; i++) { std::vector<double> row; int n = l == 3 ? 1 + (i * 5 + i / 3) % C : C; for(int j = 0; j < n; j++) { auto& c = CELL[(i * i + 3 * j + j * j / 5 + l) % 10]; if(j) text += l == 2 ? ", " : ","; text += c; row.push_back(std::strtod(c.c_str(), nullptr)); } text += l == 1 ? "\r\n" : "\n"; if(l == 3 && i % 50 == 49) text += "\n"; exp.push_back(row); }
    write_file("in.mat", ""); std::string m = f[1] + "\n" + f[2] + "\n"; if(l != 3) { for(auto& x : exp) for(double v : x) { std::ostringstream o; o << v; m += o.str() + "\n"; } write_file("in.mat", m); auto got = rd.readMAT("in.mat"); op(); MC_CHECK(got == exp, "mat file: " << got.size() << " rows that are not those of the file"); }
  } else {
    auto& l = f[1]; int sep = dig(l[0]), eol = dig(l[1]), tr = dig(l[2]), fin = dig(l[3]), bl = dig(l[4]), pad = dig(l[5]);
    const char* S[] = {",", ", ", " ,", " , "}; std::string N = eol ? "\r\n" : "\n";
    auto rows = split(f[2], '/');
    if(bl & 1) text += N;
    for(size_t i = 0; i < rows.size(); i++) {
      std::vector<double> row; if(pad & 1) text += "  ";
      for(size_t j = 0; j < rows[i].size(); j++) { auto& c = CELL[dig(rows[i][j])]; if(j) text += S[sep]; text += c; row.push_back(std::strtod(c.c_str(), nullptr)); }
      if(tr) text += ","; if(pad == 2) text += " ";
      if(i + 1 < rows.size() || fin) text += N;
      if((bl & 2) && i + 1 < rows.size()) text += N;
      exp.push_back(row);
    }
    if(bl & 4 && fin) text += N + N;
    if(fin == 2) text += "   ";      // trailing blanks after the last line ending
    if(l != "000000" || exp.size() > 1) nontrivial();
  }
  write_file("in.csv", text);
  Rows got = rd.readCSV("in.csv"); op(1 + exp.size());
  MC_CHECK(got == exp, "csv file: got " << shows(got).substr(0, 300) << " expected " << shows(exp).substr(0, 300));
  Rows s = stream(rd, "in.csv", exp.size());
  MC_CHECK(s == exp, "stream reader: got " << shows(s).substr(0, 300) << " expected " << shows(exp).substr(0, 300));
  if(f[0] == "csv" && f[1][5] == '0') {  // the same reader object, used again, starts from the beginning
    s = stream(rd, "in.csv", exp.size());
    MC_CHECK(s == exp, "stream reader used twice: got " << shows(s) << " expected " << shows(exp));
    MC_CHECK(rd.readCSV("in.csv") == exp, "reading the file twice gives different rows");
  }
  for(auto& x : got) { observe(x.size()); for(double v : x) observe_d(v); }
}
