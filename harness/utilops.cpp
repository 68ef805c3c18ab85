// The set, distance and logging helpers every stage is built from.
// Case: set|a|b (letters, any order)     mul|n|p|q (multiples below n)     near|n|i|kind (0..n-1 and the same with element i changed, missing or doubled)     sub|letters      dist|dim|digits|scale     log|debug|file|file exists|messages (0 log 1 debug 2 error 3 a new writer)
#include "mc.hpp"
#include "utils.hpp"
const char* mc::harness_name = "utilops";
size_t mc::harness_batch = 4000;
double mc::harness_case_timeout = 10;
static const unsigned VAL[] = {0, 1, 3, 64, 4294967295u, 2, 5, 8, 13, 21, 34, 55, 89, 1000, 65536, 255, 256, 257, 258, 65537, 131071, 16777216, 16777217, 2147483647u, 2147483648u, 2147483649u};

void mc::enumerate(Explorer& E) {
  std::vector<std::string> w = {""}; size_t from = 0;
  int U = 5, L = E.thorough() ? 5 : 4;
  for(int len = 1; len <= L; len++) { size_t to = w.size(); for(size_t i = from; i < to; i++) for(int c = 0; c < U; c++) if(w[i].find('a' + c) == std::string::npos) w.push_back(w[i] + char('a' + c)); from = to; }
  for(auto& a : w) for(auto& b : w) E.add("set|" + a + "|" + b);
  for(int n = 6; n <= 15; n++) for(int p = 1; p <= 7; p++) for(int q = 1; q <= 7; q++) { std::string a, b; for(int i = 0; i < n; i++) { if(i % p == 0) a += char('a' + i); if((i + q) % q == 0) b += char('a' + n - 1 - i); } E.add("set|" + a + "|" + b); }
  // numbers that agree in their low bytes, sign or precision: all pairs of sets with up to 3 (thorough: 4) of them
  { std::vector<std::string> v; const char* L = "bfopqrstuvwxyz"; int m = E.thorough() ? 14 : 12; for(int mask = 0; mask < 1 << m; mask++) if(__builtin_popcount(mask) <= (E.thorough() ? 4 : 3)) { std::string x; for(int i = 0; i < m; i++) if(mask >> i & 1) x += L[i + 14 - m]; v.push_back(x); }
    for(size_t i = 0; i < v.size(); i++) for(size_t j = 0; j < v.size(); j++) if(v.size() < 400 || (i + j) % 3 == 0) E.add("set|" + v[i] + "|" + std::string(v[j].rbegin(), v[j].rend())); for(auto& x : v) E.add("sub|" + x); }
  for(int n : {20, 50, 100, 300, 1000}) for(int p = 1; p <= 7; p++) for(int q = 1; q <= 7; q++) E.add("mul|" + std::to_string(n) + "|" + std::to_string(p) + "|" + std::to_string(q));
  for(int n = 1; n <= 70; n += n < 40 ? 1 : 7) for(int i = 0; i < n; i++) for(int k = 0; k < 3; k++) E.add("near|" + std::to_string(n) + "|" + std::to_string(i) + "|" + std::to_string(k));
  for(auto& a : w) E.add("sub|" + a); for(int n = 5; n <= 12; n++) { std::string a; for(int i = 0; i < n; i++) a += char('a' + i); E.add("sub|" + a); E.add("sub|" + std::string(a.rbegin(), a.rend())); }
  for(int d = 0; d <= 3; d++) words(2 * d, d == 3 ? 4 : 7, [&](const std::vector<int>& x) { E.add("dist|" + std::to_string(d) + "|" + wstr(x)); if(d && d < 3) for(int s = 1; s < 9; s++) E.add("dist|" + std::to_string(d) + "|" + wstr(x) + "|" + std::to_string(s)); });
  for(int d = 4; d <= 40; d++) for(int k = 1; k < 7; k++) { std::string x; for(int i = 0; i < 2 * d; i++) x += char('0' + (i * i * k + i) % 7); E.add("dist|" + std::to_string(d) + "|" + x); E.add("dist|" + std::to_string(d) + "|" + x + "|" + std::to_string(1 + (d + k) % 8)); }
  for(int d = 0; d < 5; d++) for(int f = 0; f < 2; f++) for(int ex = 0; ex < 2; ex++) for(int len = 0; len <= 5; len++) words(len, 4, [&](const std::vector<int>& w) { E.add("log|" + std::to_string(d) + "|" + std::to_string(f) + "|" + std::to_string(ex) + "|" + wstr(w)); });
  for(int d = 0; d < 5; d++) for(int f = 0; f < 2; f++) for(int ex = 0; ex < 2; ex++) for(int t = 0; t < 6; t++) for(int len = 1; len <= 4; len++) words(len, 4, [&](const std::vector<int>& w) { E.add("log|" + std::to_string(d) + "|" + std::to_string(f) + "|" + std::to_string(ex) + "|" + wstr(w) + "|" + std::to_string(t)); });
}

void mc::run_case(const std::string& cs) {
  auto f = split(cs, '|'); utils ut;
  auto vec = [](const std::string& s) { std::vector<unsigned> v; for(char c : s) v.push_back(VAL[c - 'a']); return v; };
  using S = std::set<unsigned>;
  auto same = [&](const std::vector<unsigned>& got, const S& exp, const char* what) {
    S g(got.begin(), got.end()); MC_CHECK(g == exp && got.size() == exp.size(), what << " of " << show(vec(f[1])) << (f.size() > 2 ? " and " + show(vec(f[2])) : "") << ": got " << show(got) << " expected " << show(exp)); observe(g.size()); };
  if(f[0] == "set" || f[0] == "mul" || f[0] == "near") {
    std::vector<unsigned> a, b; if(f[0] == "set") { a = vec(f[1]); b = vec(f[2]); } else if(f[0] == "near") { int n = toi(f[1]), i = toi(f[2]), k = toi(f[3]); for(int j = 0; j < n; j++) { a.push_back(3 * j); if(j != i) b.push_back(3 * j); else if(k != 1) b.push_back(3 * j + 1); if(k == 2 && j == i) b.push_back(3 * j + 2); } } else { int n = toi(f[1]), p = toi(f[2]), q = toi(f[3]); for(int i = n; i-- > 0;) if(i % p == 0) a.push_back(i * 37u % 1009u * 5u); for(int i = 0; i < n; i++) if(i % q == 0) b.push_back(i * 37u % 1009u * 5u); }
    auto vec = [&](const std::string& s) { return &s == &f[1] ? a : b; };
    auto same = [&](const std::vector<unsigned>& got, const S& exp, const char* what) { S g(got.begin(), got.end()); MC_CHECK(g == exp && got.size() == exp.size(), what << " of " << show(vec(f[1])) << " and " << show(vec(f[2])) << ": got " << show(got) << " expected " << show(exp)); observe(g.size()); };
    S A(a.begin(), a.end()), B(b.begin(), b.end()), I, U, X;
    for(unsigned x : A) { (B.count(x) ? I : X).insert(x); U.insert(x); } for(unsigned x : B) { if(!A.count(x)) X.insert(x); U.insert(x); }
    std::vector<unsigned> as(A.begin(), A.end()), bs(B.begin(), B.end());
    for(int sorted = 0; sorted < 2; sorted++) {
      auto x = sorted ? as : a, y = sorted ? bs : b; op(4);
      same(ut.setIntersect(x, y, sorted), I, "intersection"); same(ut.setUnion(x, y, sorted), U, "union"); same(ut.symmetricDiff(x, y, sorted), X, "symmetric difference");
      auto p = ut.intersect(x, y, sorted); bool two = X.size() == 2;
      same(p.first, two ? X : S(), "difference part of intersect"); same(p.second, two ? U : S(), "union part of intersect");
    }
    op(3); auto si = ut.setIntersect(A, B, false); MC_CHECK(si == I, "set intersection: got " << show(si) << " expected " << show(I));
    same(ut.symmetricDiff(A, B, true), X, "symmetric difference of sets"); S xo = ut.setXOR(A, B); MC_CHECK(xo == X, "setXOR: got " << show(xo) << " expected " << show(X));
    if(!I.empty() && X.size() > 1) nontrivial(); return;
  }
  if(f[0] == "sub") {
    auto a = vec(f[1]); S A(a.begin(), a.end()); int n = a.size();
    auto sets = [&](int k) { std::vector<S> r; for(unsigned m = 0; m < (1u << n); m++) if(__builtin_popcount(m) == k) { S s; for(int i = 0; i < n; i++) if(m >> i & 1) s.insert(a[i]); r.push_back(s); } std::sort(r.begin(), r.end()); return r; };
    auto chk = [&](std::vector<S> got, int k, const char* what) { std::sort(got.begin(), got.end()); MC_CHECK(got == sets(k), what << " of " << show(A) << " with " << k << " elements: got " << got.size() << ", expected each of the " << sets(k).size() << " once"); op(); };
    for(int k = 0; k <= std::min(n + 1, 5); k++) chk(ut.getSubsets(A, k), k, "subsets");
    chk(ut.getSubsets(A), n - 1, "faces");
    auto fv = ut.getSubsets(a); op(); std::vector<S> fs; 
    for(auto& v : fv) { fs.push_back(S(v.begin(), v.end())); size_t at = 0; for(unsigned x : v) { while(at < a.size() && a[at] != x) at++; MC_CHECK(at < a.size(), "a face of " << show(a) << " is " << show(v) << ": not in the same order"); } MC_CHECK(v.size() + 1 == a.size(), "a face of " << show(a) << " is " << show(v)); }
    chk(fs, n - 1, "vector faces"); if(n > 2) nontrivial(); observe(fv.size()); return;
  }
  if(f[0] == "dist") {
    int d = toi(f[1]); static const double C[] = {0, 1, -1, 0.5, -3.25, 100, 1e-3}; std::vector<double> a, b;
    static const double SC[] = {1, 1e-9, 1e-6, 1e-4, 1e4, 1e9, 1e-60, 1e60, 1}; int sc = f.size() > 3 ? toi(f[3]) : 0; double off = sc == 8 ? 1048576 : 0;
    for(int i = 0; i < d; i++) { a.push_back(off + SC[sc] * C[dig(f[2][i])]); b.push_back(off + SC[sc] * C[dig(f[2][d + i])]); }
    double s = 0; for(int i = 0; i < d; i++) { s += (a[i] - b[i]) * (a[i] - b[i]); double q = ut.vectors_distance(a[i], b[i]); MC_CHECK(std::fabs(q - (a[i] - b[i]) * (a[i] - b[i])) <= 1e-12 * q, "squared difference of " << a[i] << " and " << b[i] << " is " << q); }
    double g = ut.vectors_distance(a, b), h = ut.vectors_distance(b, a); op(2);
    MC_CHECK(std::fabs(g - std::sqrt(s)) <= 1e-12 * g, "distance of " << show(a) << " and " << show(b) << ": " << g << ", expected " << std::sqrt(s));
    MC_CHECK(g == h, "distance of " << show(a) << " and " << show(b) << " is not symmetric"); MC_CHECK(ut.vectors_distance(a, a) == 0, "distance of a point from itself");
    std::vector<std::vector<double>> cloud = {b, a, b}; auto nn = ut.nearestNeighbors(a, cloud); op();
    MC_CHECK(nn.size() == 3 && nn[0] == g && nn[1] == 0 && nn[2] == g, "distances to a cloud: " << show(nn));
    auto c0 = std::vector<std::vector<double>>(); MC_CHECK(ut.nearestNeighbors(a, c0).empty(), "distances to an empty cloud");
    observe_d(g); if(g > 0) nontrivial(); return;
  }
  const char* D[] = {"0", "false", "1", "true", "2"}; int dbg = toi(f[1]), file = toi(f[2]), exists = toi(f[3]); bool on = dbg >= 2;
  if(exists) write_file("u.log", "old\n"); else unlink("u.log");
  std::string exp, pre = exists ? "old\n" : ""; int i = 0; CaptureCout cap; utils* u = new utils(D[dbg], file ? "u.log" : "console");
  for(char c : f[4]) { op(); std::string m = "m" + std::to_string(i++), t = i % 2 ? "a,b" : "";
    static const std::string T[] = {"x\n", "\n", "x\ny", " %s%n%d \t", std::string(5000, 'q'), "[DEBUG]\r\n"}; if(f.size() > 5 && i % 2) t = T[toi(f[5])];
    if(c == '0') { u->writeLog(m, t); exp += "[" + m + "]:\t" + t + "\n"; }
    else if(c == '1') { u->writeDebug(m, t); if(on) exp += "[DEBUG]\t[" + m + "]:\t" + t + "\n"; }
    else if(c == '2') { u->writeError(m, t); exp += "[" + m + "]:\t" + t + "\n"; }
    else { delete u; u = new utils(D[dbg], file ? "u.log" : "console"); }
    MC_CHECK(!file || !exists || read_file("u.log") == pre + exp, "after message " << i << " the log file is '" << read_file("u.log") << "', expected '" << pre + exp << "'");
  }
  delete u;
  MC_CHECK(cap.str() == (file ? "" : exp), "console: '" << cap.str() << "' expected '" << (file ? "" : exp) << "'");
  MC_CHECK((file_exists("u.log") ? read_file("u.log") : "") == (file ? pre + exp : pre), "log file: '" << read_file("u.log") << "' expected '" << (file ? pre + exp : pre) << "'"); if(f[4].size() > 1) nontrivial();
}
