// Bounded-exhaustive explorer for running the real LHF code over an enumerated space of cases.
//
// A harness enumerates cases (each a short string that fully determines one execution), in a fixed
// order, simplest first, and run_case() drives the real code and compares it with a boring reference.
// The explorer shards the enumeration over worker processes, executes every case in a forked child
// (so a crash, an abort or a hang of the code under test is an observed outcome of that case, not
// the end of the exploration), re-runs every violation alone before reporting it, and counts what it did.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <new>
#include <exception>
#include <dirent.h>
#include <execinfo.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc {

// ---------------------------------------------------------------- heap fill: own uninitialised memory
// Fresh heap memory has a defined content chosen by the harness, so behaviour that depends on
// uninitialised members is deterministic (and can be explored under several fills).
extern unsigned char heap_fill;

struct Outcome {
  bool ok = true;
  std::string msg;      // why it failed
  std::string sig;      // key of the failure, for the known-findings file
};

struct Violation : std::exception {
  std::string msg, sig;
  explicit Violation(std::string m, std::string s = "") : msg(std::move(m)), sig(std::move(s)) {}
  const char* what() const noexcept override { return msg.c_str(); }
};
[[noreturn]] inline void fail(const std::string& m, const std::string& sig = "") { throw Violation(m, sig); }
#define MC_CHECK(cond, msg) do { if(!(cond)) { std::ostringstream mc_os; mc_os << msg; mc::fail(mc_os.str()); } } while(0)

// counters a harness bumps while running a case
extern uint64_t g_ops;          // operations / transitions executed on the implementation
extern uint64_t g_nontrivial;   // set to 1 by a case which exercised the interesting part
extern uint64_t g_outcome;      // hash of the observed outcome
inline void op(uint64_t n = 1) { g_ops += n; }
inline void nontrivial() { g_nontrivial = 1; }
inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
inline void observe(uint64_t v) { g_outcome = mix(g_outcome, v); }
inline void observe(const std::string& s) { for(unsigned char c : s) observe((uint64_t)c); }
inline void observe_d(double d) { uint64_t u; memcpy(&u, &d, 8); observe(u); }

class Explorer;
using EnumFn = void (*)(Explorer&);
using RunFn = void (*)(const std::string&);   // throws Violation

class Explorer {
 public:
  std::string tier;                      // quick | thorough
  bool thorough() const { return tier == "thorough"; }
  bool small() const { return tier == "small"; }   // reduced space, for the instrumented builds
  void add(const std::string& c);        // enumerate one case
  uint64_t index = 0;                    // cases enumerated so far
  // implementation details
  int shard = 0, nshards = 1;
  size_t batch_size = 4000;
  std::vector<std::string> batch;
  void* impl = nullptr;
  bool stop = false;
  void flush();
};

// provided by the harness
extern const char* harness_name;
void enumerate(Explorer&);
void run_case(const std::string&);
extern size_t harness_batch;        // cases per child process (1 = a fresh process per case)
extern double harness_case_timeout; // seconds

// small helpers for harnesses ---------------------------------------------------
inline std::vector<std::string> split(const std::string& s, char sep) {
  std::vector<std::string> r; std::string cur; 
  for(char c : s) { if(c == sep) { r.push_back(cur); cur.clear(); } else cur += c; }
  r.push_back(cur); return r;
}
inline int toi(const std::string& s) { return atoi(s.c_str()); }
// run f over all vectors of length n over digits 0..k-1
template <class F> void words(int n, int k, F f) {
  std::vector<int> w(n, 0);
  while(true) {
    f(w);
    int i = n - 1;
    while(i >= 0 && w[i] == k - 1) { w[i] = 0; i--; }
    if(i < 0) return;
    w[i]++;
  }
}
inline std::string wstr(const std::vector<int>& w) { std::string s; for(int x : w) s += char(x < 10 ? '0' + x : 'a' + x - 10); return s; }
inline int dig(char c) { return c >= 'a' ? c - 'a' + 10 : c - '0'; }
template <class T> std::string show(const T& v) { std::ostringstream o; o.precision(17); o << "["; bool f = true; for(auto& x : v) { if(!f) o << " "; f = false; o << x; } o << "]"; return o.str(); }

struct CaptureCout {                 // capture std::cout produced by a call
  std::ostringstream os; std::streambuf* old; std::ios::iostate st;
  CaptureCout() { st = std::cout.rdstate(); old = std::cout.rdbuf(os.rdbuf()); std::cout.clear(); }
  ~CaptureCout() { std::cout.rdbuf(old); std::cout.clear(st); }
  std::string str() const { return os.str(); }
};
inline void write_file(const std::string& p, const std::string& s) { std::ofstream f(p, std::ios::binary); f << s; }
inline std::string read_file(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
inline void fresh_dir(const std::string& p) { mkdir(p.c_str(), 0755); if(DIR* d = opendir(p.c_str())) { while(dirent* e = readdir(d)) if(e->d_type == DT_REG) unlink((p + "/" + e->d_name).c_str()); closedir(d); } }   // p: relative to the scratch directory
inline bool file_exists(const std::string& p) { struct stat st; return stat(p.c_str(), &st) == 0; }
}  // namespace mc
