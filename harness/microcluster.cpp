// Micro-clusters: weight, centre and radius are the exponentially decayed sums of the inserted points.
// Case: dim|lambda index|creation|ops[|power of two the points are multiplied with]    ops: pairs (time step digit, point digit)
#include "mc.hpp"
#include "denStream.hpp"
const char* mc::harness_name = "microcluster";
size_t mc::harness_batch = 4000;
double mc::harness_case_timeout = 10;
static const std::vector<double> LAM = {0.25, 1, 0.01, 0, 0.0001, 3};
static const std::vector<int> STEP = {0, 1, 4, 9, 24, 1500, 40000};
static const std::vector<std::vector<double>> PT = {{0, 0, 1, 0, 2, 2}, {1, -2, 0, 7, 0.5, -1}, {0.5, 3, 0, 1, -9, 4}, {-4, 10.25, 2.5, 0, 3, 0.125}};

void mc::enumerate(Explorer& E) {
  for(int len = 0; len <= (E.thorough() ? 6 : 5); len++) words(len, 12, [&](const std::vector<int>& w) {
    std::string o; for(int x : w) { o += char('0' + x / 4); o += char('0' + x % 4); }
    for(int dim = 1; dim <= 2; dim++) for(int l = 0; l < (len >= 5 ? 2 : 4); l++) E.add(std::to_string(dim) + "|" + std::to_string(l) + "|" + (l % 2 ? "3" : "0") + "|" + o);
  });
  // long pauses: what was inserted before counts for little, but it counts
  for(int len = 2; len <= (E.thorough() ? 5 : 4); len++) words(len, len <= 3 ? 20 : 10, [&](const std::vector<int>& w) {
    std::string o; bool pause = false; for(int x : w) { int s = len <= 3 ? x / 4 : x / 2, p = len <= 3 ? x % 4 : x % 2; if(s > 2) pause = true; o += char('0' + s); o += char('0' + p); }
    if(pause) for(int l = 0; l < 3; l++) E.add(std::to_string(1 + l % 2) + "|" + std::to_string(l) + "|0|" + o);
  });
  for(int n : {6, 12, 40}) for(int gap : {3, 4}) for(int l = 0; l < 3; l++) for(int at = 1; at < n; at += n / 6) { std::string o; for(int i = 0; i < n; i++) { o += char('0' + (i == at || i == n - 1 ? gap : 0)); o += char('0' + i % 4); } E.add("2|" + std::to_string(l) + "|0|" + o); }
  for(int d : {9, 16, 17, 25, 40, 70}) for(int n : {1, 2, 3, 9, 30}) for(int k = 0; k < 4; k++) for(int l = 0; l < 3; l++) { std::string o; for(int i = 0; i < n; i++) { o += char('0' + (i % 3 == 1)); o += char('0' + (i * (k + 1) + k) % 4); } E.add(std::to_string(d) + "|" + std::to_string(l) + "|0|" + o); }
  for(int n = 10; n <= 300; n += 10) for(int k = 0; k < 4; k++) { std::string o; for(int i = 0; i < n; i++) { o += char('0' + (i % 7 == 0)); o += char('0' + (i * (k + 1)) % 4); } E.add("2|0|0|" + o); E.add("1|2|3|" + o); for(int d = 3; d <= 6; d++) E.add(std::to_string(d) + "|" + std::to_string((d + k) % 4) + "|3|" + o); }
  for(int len = 2; len <= 4; len++) words(len, len < 4 ? 14 : 8, [&](const std::vector<int>& w) { std::string o; bool pause = false; for(int x : w) { int st = len < 4 ? x / 2 : (x / 2) * 2; if(st > 4) pause = true; o += char('0' + st); o += char('0' + x % 2 * 3); } if(pause) for(int l : {2, 3, 4}) E.add(std::to_string(1 + len % 3) + "|" + std::to_string(l) + "|0|" + o); });
  for(int sc : {-30, -10, 8, 30}) for(int len = 1; len <= 3; len++) words(len, 12, [&](const std::vector<int>& w) { std::string o; for(int x : w) { o += char('0' + x / 4); o += char('0' + x % 4); } for(int l : {0, 3, 5}) E.add(std::to_string(1 + len % 3) + "|" + std::to_string(l) + "|0|" + o + "|" + std::to_string(sc)); });
  for(int len = 1; len <= 3; len++) words(len, 12, [&](const std::vector<int>& w) { std::string o; for(int x : w) { o += char('0' + x / 4); o += char('0' + x % 4); } for(int d = 3; d <= 6; d++) E.add(std::to_string(d) + "|" + std::to_string(len % 4) + "|0|" + o); });
}

void mc::run_case(const std::string& cs) {
  auto f = split(cs, '|');
  int dim = toi(f[0]), t = toi(f[2]); double lam = LAM[toi(f[1])];
  double scale = std::ldexp(1.0, f.size() > 4 ? toi(f[4]) : 0);
  microCluster m(t, dim, lam);
  MC_CHECK(m.getCreationTime() == t, "creation time " << m.getCreationTime() << ", expected " << t);
  struct In { int t; std::vector<double> p; }; std::vector<In> in;
  auto close = [&](double a, double b) { return std::fabs(a - b) <= 1e-9 * (scale + std::fabs(b)); };
  auto wclose = [](double a, double b) { return std::fabs(a - b) <= 1e-9 * std::fabs(b); };
  auto model = [&](int now, double& w, std::vector<double>& c, double& r) {
    w = 0; c.assign(dim, 0); std::vector<double> q(dim, 0);
    for(auto& x : in) w += std::pow(2.0, -lam * (now - x.t));
    for(auto& x : in) for(int k = 0; k < dim; k++) c[k] += std::pow(2.0, -lam * (now - x.t)) * x.p[k] / w;
    double v = 0;
    for(auto& x : in) for(int k = 0; k < dim; k++) v += std::pow(2.0, -lam * (now - x.t)) * (x.p[k] - c[k]) * (x.p[k] - c[k]) / w;
    r = std::sqrt(v);
  };
  auto rclose = [&](double a, double b) { return a == a && a >= 0 && (close(a, b) || std::fabs(a * a - b * b) < 1e-11 * 201 * scale * scale); };
  for(size_t i = 0; i + 1 < f[3].size(); i += 2) {
    t += STEP[dig(f[3][i])]; std::vector<double> p; for(int k = 0; k < dim; k++) p.push_back(PT[dig(f[3][i + 1])][k % 6] + 0.25 * (k / 6)); for(auto& x : p) x *= scale;
    double pre = m.mergeRadius(p, t), w, r; std::vector<double> c; op();
    double w0 = m.getWeight(t); auto c0 = m.getCenter();
    in.push_back({t, p});
    m.insertPoint(p, t); op();
    model(t, w, c, r);
    MC_CHECK(wclose(m.getWeight(t), w), "weight " << m.getWeight(t) << ", expected " << w);
    MC_CHECK(wclose(w0 + 1, w), "weight before the insertion " << w0 << ", expected " << w - 1);
    for(int k = 0; k < dim; k++) MC_CHECK(close(m.getCenter()[k], c[k]), "centre " << show(m.getCenter()) << ", expected " << show(c));
    MC_CHECK(rclose(m.getRadius(), r), "radius " << m.getRadius() << ", expected " << r);
    MC_CHECK(rclose(pre, r), "radius predicted for the insertion " << pre << ", expected " << r);
    for(int dt : {1, 5, 200, 3000}) MC_CHECK(wclose(m.getWeight(t + dt), w * std::pow(2.0, -lam * dt)), "weight " << dt << " later: " << m.getWeight(t + dt));
    MC_CHECK(wclose(m.getWeight(t), w), "asking for the weight changed it");
    if(i >= 4) nontrivial();
    observe_d(r); observe_d(w);
  }
}
