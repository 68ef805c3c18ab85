// Reference model of a Vietoris-Rips filtration and of its persistent homology over GF(2).
// Deliberately naive: all subsets, all pairs, textbook column reduction of the whole boundary matrix.
#pragma once
#include "mc.hpp"
#include <functional>

namespace vr {
using Mat = std::vector<std::vector<double>>;
struct Simplex { std::set<unsigned> v; double w; };

inline double weight(const Mat& d, unsigned mask) {
  double w = 0; unsigned n = d.size();
  for(unsigned i = 0; i < n; i++) if(mask >> i & 1) for(unsigned j = i + 1; j < n; j++) if(mask >> j & 1) w = std::max(w, d[i][j]);
  return w;
}
// every subset with at most maxdim+1 points all of whose distances are within eps
// (inclusive: <= eps, exclusive: < eps)
inline std::vector<std::vector<Simplex>> complex(const Mat& d, double eps, int maxdim, bool inclusive) {
  unsigned n = d.size();
  std::vector<std::vector<Simplex>> r;
  if(n > 14) {   // cliques instead of all subsets
    std::vector<unsigned> v;
    std::function<void(unsigned, double)> grow = [&](unsigned from, double w) {
      if(!v.empty()) { if(r.size() < v.size()) r.resize(v.size()); Simplex s; s.w = w; s.v.insert(v.begin(), v.end()); r[v.size() - 1].push_back(s); }
      if((int)v.size() > maxdim) return;
      for(unsigned x = from; x < n; x++) {
        double y = w; bool in = true;
        for(unsigned u : v) { if(inclusive ? d[u][x] > eps : d[u][x] >= eps) { in = false; break; } y = std::max(y, d[u][x]); }
        if(!in) continue;
        v.push_back(x); grow(x + 1, y); v.pop_back();
      }
    };
    grow(0, 0); return r;
  }
  for(unsigned m = 1; m < (1u << n); m++) {
    int k = __builtin_popcount(m) - 1;
    if(k > maxdim) continue;
    double w = weight(d, m);
    if(k > 0 && (inclusive ? w > eps : w >= eps)) continue;
    Simplex s; s.w = w;
    for(unsigned i = 0; i < n; i++) if(m >> i & 1) s.v.insert(i);
    if((int)r.size() <= k) r.resize(k + 1);
    r[k].push_back(s);
  }
  return r;
}
using Key = std::pair<std::vector<unsigned>, double>;
inline std::vector<Key> canon(const std::vector<std::pair<std::set<unsigned>, double>>& l) {
  std::vector<Key> r;
  for(auto& p : l) r.push_back({std::vector<unsigned>(p.first.begin(), p.first.end()), p.second});
  std::sort(r.begin(), r.end()); return r;
}
inline std::vector<Key> canon(const std::vector<Simplex>& l) {
  std::vector<Key> r;
  for(auto& p : l) r.push_back({std::vector<unsigned>(p.v.begin(), p.v.end()), p.w});
  std::sort(r.begin(), r.end()); return r;
}
inline std::string show(const std::vector<Key>& l) {
  std::ostringstream o; for(auto& k : l) { o << "{"; for(size_t i = 0; i < k.first.size(); i++) o << (i ? "," : "") << k.first[i]; o << "}:" << k.second << " "; } return o.str();
}

struct Bar { unsigned dim; double b, d; bool operator<(const Bar& o) const { return std::tie(dim, b, d) < std::tie(o.dim, o.b, o.d); } bool operator==(const Bar& o) const { return dim == o.dim && b == o.b && d == o.d; } };
inline std::string show(const std::vector<Bar>& l) { std::ostringstream o; for(auto& b : l) o << b.dim << ":[" << b.b << "," << (std::isinf(b.d) ? std::string("inf") : (std::ostringstream() << b.d, std::to_string(b.d))) << ") "; return o.str(); }

// persistence pairs of the filtration (sorted by weight, then dimension, then lexicographically):
// textbook left-to-right column reduction. Essential classes get death = +inf. Zero-length bars kept
// only for dimension 0 when keep_zero0 is set.
inline std::vector<Bar> persistence(const std::vector<std::vector<Simplex>>& cx, int maxhom) {
  std::vector<Simplex> s; for(auto& l : cx) for(auto& x : l) s.push_back(x);
  std::sort(s.begin(), s.end(), [](const Simplex& a, const Simplex& b) { if(a.w != b.w) return a.w < b.w; if(a.v.size() != b.v.size()) return a.v.size() < b.v.size(); return a.v < b.v; });
  std::map<std::set<unsigned>, int> idx; for(size_t i = 0; i < s.size(); i++) idx[s[i].v] = i;
  std::vector<std::set<int>> col(s.size());
  std::map<int, int> low; std::vector<char> dead(s.size(), 0), neg(s.size(), 0);
  std::vector<Bar> r;
  for(size_t j = 0; j < s.size(); j++) {
    if(s[j].v.size() > 1) for(unsigned x : s[j].v) { auto f = s[j].v; f.erase(x); col[j].insert(idx.at(f)); }
    while(!col[j].empty()) {
      int l = *col[j].rbegin(); auto it = low.find(l); if(it == low.end()) break;
      for(int k : col[it->second]) if(!col[j].erase(k)) col[j].insert(k);
    }
    if(!col[j].empty()) {
      int l = *col[j].rbegin(); low[l] = j; neg[j] = 1; dead[l] = 1;
      unsigned dim = s[l].v.size() - 1;
      if((int)dim <= maxhom && (dim == 0 || s[l].w != s[j].w)) r.push_back({dim, s[l].w, s[j].w});
    }
  }
  for(size_t j = 0; j < s.size(); j++) if(!neg[j] && !dead[j] && (int)s[j].v.size() - 1 <= maxhom) r.push_back({(unsigned)s[j].v.size() - 1, s[j].w, INFINITY});
  std::sort(r.begin(), r.end()); return r;
}

// parse "dim,birth,death" lines
inline std::vector<Bar> parse(const std::string& text) {
  std::vector<Bar> r; std::istringstream is(text); std::string l;
  while(std::getline(is, l)) {
    if(l.empty() || !isdigit((unsigned char)l[0])) continue;
    auto p = mc::split(l, ',');
    if(p.size() != 3) mc::fail("malformed interval line: " + l);
    r.push_back({(unsigned)atoi(p[0].c_str()), atof(p[1].c_str()), atof(p[2].c_str())});
  }
  std::sort(r.begin(), r.end()); return r;
}

// distance matrix (upper triangle only, as the distance stage produces it) from level digits
inline Mat matrix(int n, const std::string& w, const std::vector<double>& level) {
  Mat d(n, std::vector<double>(n, 0)); size_t k = 0;
  for(int i = 0; i < n; i++) for(int j = i + 1; j < n; j++) d[i][j] = level[mc::dig(w[k++])];
  return d;
}
}  // namespace vr
