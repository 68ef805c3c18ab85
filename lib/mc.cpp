#include "mc.hpp"
#include <malloc.h>

// ---------------------------------------------------------------- allocation with a chosen fill
#ifndef MC_NO_NEW
static void* filled(size_t n) {
  void* p = malloc(n ? n : 1);
  if(!p) throw std::bad_alloc();
  memset(p, mc::heap_fill, n);
  return p;
}
void* operator new(size_t n) { return filled(n); }
void* operator new[](size_t n) { return filled(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif

namespace mc {
unsigned char heap_fill = 0xA5;
uint64_t g_ops, g_nontrivial, g_outcome;

namespace {
struct Shm {                       // one per worker
  volatile uint64_t cur_in_batch;  // index in the batch of the case being run
  volatile uint64_t done;          // the child finished the batch
  volatile uint64_t cases, ops, nontriv;
  volatile uint64_t started_ns;
  volatile uint64_t outc[1 << 19]; // open-addressing table of outcome hashes
  volatile uint64_t noutc;
};
uint64_t now_ns() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ULL + t.tv_nsec; }

struct Worker {
  Shm* shm;
  std::string outdir;
  int id;
  int violations = 0;
  int hard = 0;                    // crashes + hangs
  std::map<std::string, int> bysig;
  double deadline;                 // seconds, monotonic
};
std::string json_escape(const std::string& s) {
  std::string r;
  for(unsigned char c : s) {
    if(c == '"' || c == '\\') { r += '\\'; r += c; }
    else if(c == '\n') r += "\\n"; else if(c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}
void silence() {
  int fd = open("/dev/null", O_RDWR);
  dup2(fd, 0); dup2(fd, 1);
  if(!getenv("MC_KEEP_STDERR")) dup2(fd, 2);
  std::cout.setstate(std::ios::badbit);
}
void record(Worker& w, const std::string& kind, const std::string& c, const std::string& msg, const std::string& sig, bool alone,
            const std::vector<std::string>& prefix) {
  std::ofstream f(w.outdir + "/viol." + std::to_string(w.id), std::ios::app);
  f << "{\"kind\":\"" << kind << "\",\"case\":\"" << json_escape(c) << "\",\"msg\":\"" << json_escape(msg) << "\",\"sig\":\"" << json_escape(sig)
    << "\",\"alone\":" << (alone ? "true" : "false") << ",\"prefix\":[";
  for(size_t i = 0; i < prefix.size(); i++) f << (i ? "," : "") << "\"" << json_escape(prefix[i]) << "\"";
  f << "]}\n";
}
void limits() {
  struct rlimit r; 
#ifndef MC_NO_NEW
  r.rlim_cur = r.rlim_max = 3ULL << 30; setrlimit(RLIMIT_AS, &r);
#endif
  r.rlim_cur = r.rlim_max = 0; setrlimit(RLIMIT_CORE, &r);
  r.rlim_cur = r.rlim_max = 256 << 20; setrlimit(RLIMIT_FSIZE, &r);
}
// memory-safety checks judge only how a case ends, not what it computes: other properties own the results
bool crash_only() { static const bool v = getenv("MC_CRASH_ONLY") != nullptr; return v; }
// run a list of cases in a fresh child; report for the LAST one. 0 ok, 1 violation, 2 crash, 3 hang
int run_list(const std::vector<std::string>& cs, double timeout, std::string& msg, std::string& sig, std::string& kind) {
  int p[2]; if(pipe(p)) abort();
  pid_t pid = fork();
  if(pid == 0) {
    close(p[0]); setpgid(0, 0); silence(); limits();
    for(size_t i = 0; i < cs.size(); i++) {
      std::string m, s; int st = 0;
      try { g_ops = g_nontrivial = g_outcome = 0; run_case(cs[i]); }
      catch(Violation& v) { st = 1; m = v.msg; s = v.sig; }
      catch(std::exception& e) { st = 1; m = std::string("unexpected exception: ") + e.what(); s = "exception"; }
      if(crash_only()) st = 0;
      if(i + 1 == cs.size()) {
        std::string out = std::string(1, char('0' + st)) + s.substr(0, 200) + "\n" + m.substr(0, 3000);
        ssize_t n = write(p[1], out.data(), out.size()); (void)n;
      }
    }
    _exit(0);
  }
  setpgid(pid, pid);
  close(p[1]);
  std::string out; char buf[4096];
  uint64_t t0 = now_ns(); bool hang = false;
  fcntl(p[0], F_SETFL, O_NONBLOCK);
  int st = 0; bool reaped = false;
  while(true) {
    ssize_t n = read(p[0], buf, sizeof buf);
    if(n > 0) { out.append(buf, n); continue; }
    if(!reaped && waitpid(pid, &st, WNOHANG) == pid) { reaped = true; continue; }
    if(reaped) break;
    if((now_ns() - t0) / 1e9 > timeout) { hang = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
    usleep(500);
  }
  close(p[0]);
  if(hang) { kind = "hang"; msg = "no answer within the time limit"; sig = "hang"; return 3; }
  if(!WIFEXITED(st) || WEXITSTATUS(st) != 0 || out.empty()) {
    kind = "crash"; sig = "crash";
    msg = WIFSIGNALED(st) ? "the code under test died with signal " + std::to_string(WTERMSIG(st)) : "the code under test ended the process, status " + std::to_string(WEXITSTATUS(st));
    return 2;
  }
  if(out[0] == '1') { size_t k = out.find('\n'); sig = out.substr(1, k - 1); msg = out.substr(k + 1); kind = "violation"; return 1; }
  return 0;
}
}  // namespace

void Explorer::add(const std::string& c) {
  if(stop) return;
  if((int)(index++ % nshards) != shard) return;
  batch.push_back(c);
  if(batch.size() >= batch_size) flush();
}

void Explorer::flush() {
  Worker& w = *(Worker*)impl;
  size_t from = 0;
  if(!batch.empty()) { std::ofstream f(w.outdir + "/sample." + std::to_string(w.id)); f << batch[batch.size() / 2] << "\n"; }
  while(from < batch.size() && !stop) {
    if(now_ns() / 1e9 > w.deadline) { stop = true; write_file(w.outdir + "/capped." + std::to_string(w.id), "time"); break; }
    w.shm->cur_in_batch = from; w.shm->done = 0; w.shm->started_ns = now_ns();
    std::string vf = w.outdir + "/cand." + std::to_string(w.id);
    unlink(vf.c_str());
    pid_t pid = fork();
    if(pid == 0) {
      setpgid(0, 0); silence(); limits();
      int nv = 0;
      FILE* vfp = nullptr;
      for(size_t i = from; i < batch.size(); i++) {
        w.shm->started_ns = now_ns(); w.shm->cur_in_batch = i;
        g_ops = g_nontrivial = 0; g_outcome = 0;
        bool bad = false; std::string m, s;
        try { run_case(batch[i]); }
        catch(Violation& v) { bad = true; s = v.sig; m = v.msg; }
        catch(std::exception& e) { bad = true; s = "exception"; m = e.what(); }
        if(crash_only()) bad = false;
        w.shm->cases = w.shm->cases + 1; w.shm->ops = w.shm->ops + g_ops; w.shm->nontriv = w.shm->nontriv + (g_nontrivial ? 1 : 0);
        uint64_t h = g_outcome | 1; const uint64_t N = 1 << 19;
        if(w.shm->noutc < N / 2) {
          uint64_t k = (h * 0x9e3779b97f4a7c15ULL) >> 45;
          while(w.shm->outc[k] && w.shm->outc[k] != h) k = (k + 1) % N;
          if(!w.shm->outc[k]) { w.shm->outc[k] = h; w.shm->noutc = w.shm->noutc + 1; }
        }
        if(bad) {
          if(!vfp) vfp = fopen(vf.c_str(), "w");
          fprintf(vfp, "%zu\n", i); fflush(vfp);
          if(++nv >= 5) { w.shm->cur_in_batch = i + 1; w.shm->done = 2; _exit(0); }
        }
      }
      w.shm->done = 1; _exit(0);
    }
    setpgid(pid, pid);
    int st = 0; bool hang = false;
    while(true) {
      pid_t r = waitpid(pid, &st, WNOHANG);
      if(r == pid) break;
      if((int64_t)(now_ns() - w.shm->started_ns) / 1e9 > harness_case_timeout) { hang = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
      usleep(200);
    }
    // candidates: confirm each alone, else with the prefix of its batch
    std::vector<size_t> cand;
    { std::ifstream f(vf); size_t i; while(f >> i) cand.push_back(i); }
    size_t next = batch.size();
    if(w.shm->done == 2) next = w.shm->cur_in_batch;
    if(hang || w.shm->done == 0) { cand.push_back((size_t)w.shm->cur_in_batch); next = w.shm->cur_in_batch + 1; w.hard++; }
    for(size_t i : cand) {
      std::string msg, sig, kind;
      double to = std::max(30.0, harness_case_timeout * 4);
      int r = run_list({batch[i]}, to, msg, sig, kind);
      if(r == 3 && crash_only()) record(w, "unconfirmed-hang", batch[i], msg, "", false, {});
      else if(r) { record(w, kind, batch[i], msg, sig, true, {}); w.violations++; w.bysig[sig]++; }
      else {
        std::vector<std::string> pre(batch.begin() + from, batch.begin() + i + 1);
        r = run_list(pre, to + pre.size() * 0.05, msg, sig, kind);
        if(r == 3 && crash_only()) r = 0;
        if(r) {   // depends on what ran before in the same process: shrink the prefix
          for(size_t step = pre.size() / 2; step >= 1; step /= 2) {
            for(size_t k = 0; k + step < pre.size();) {
              std::vector<std::string> q(pre.begin(), pre.begin() + k); q.insert(q.end(), pre.begin() + k + step, pre.end());
              std::string m2, s2, k2;
              if(q.size() >= 1 && run_list(q, to, m2, s2, k2)) pre = q; else k += step;
              if(now_ns() / 1e9 > w.deadline + 20) break;
            }
          }
          record(w, kind, batch[i], msg + " (after earlier executions in the same process)", sig, false, pre); w.violations++; w.bysig[sig]++;
        } else record(w, hang ? "unconfirmed-hang" : "unconfirmed", batch[i], "not reproduced on replay", "", false, {});
      }
    }
    from = next;
    if(w.violations >= 12 || w.hard >= 8) { stop = true; if(from < batch.size()) write_file(w.outdir + "/capped." + std::to_string(w.id), "violations"); }
  }
  batch.clear();
}
}  // namespace mc

int main(int argc, char** argv) {
  using namespace mc;
  std::string tier = "quick", out = "out", replay, casefile; int jobs = 8; double limit = 600;
  for(int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if(a == "--tier") tier = argv[++i];
    else if(a == "--out") out = argv[++i];
    else if(a == "--jobs") jobs = atoi(argv[++i]);
    else if(a == "--limit") limit = atof(argv[++i]);
    else if(a == "--replay") replay = argv[++i];
    else if(a == "--count") { Explorer e; e.tier = tier; e.nshards = 1; e.shard = 1; enumerate(e); printf("%llu\n", (unsigned long long)e.index); return 0; }
    else if(a == "--list") { Explorer e; e.tier = tier; e.nshards = 1; e.shard = 0; e.batch_size = (size_t)-1; enumerate(e); for(auto& c : e.batch) puts(c.c_str()); return 0; }
  }
  if(!replay.empty()) {
    // cases separated by newlines: run them all in one fresh process, report the last
    std::string msg, sig, kind;
    char cwd[] = "/tmp/mcreplayXXXXXX"; if(!mkdtemp(cwd) || chdir(cwd)) return 2;
    int r = run_list(split(replay, '\n'), 120, msg, sig, kind);
    std::string rm = std::string("rm -rf '") + cwd + "'"; if(system(rm.c_str())) {}
    if(r) { printf("%s [%s] %s\n", kind.c_str(), sig.c_str(), msg.c_str()); return 1; }
    puts("ok"); return 0;
  }
  mkdir(out.c_str(), 0755);
  char rp[4096]; if(!realpath(out.c_str(), rp)) return 2; out = rp;
  Shm* shm = (Shm*)mmap(nullptr, sizeof(Shm) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<pid_t> pids;
  double dl = now_ns() / 1e9 + limit;
  for(int k = 0; k < jobs; k++) {
    pid_t pid = fork();
    if(pid == 0) {
      std::string d = out + "/cwd." + std::to_string(k); mkdir(d.c_str(), 0755); if(chdir(d.c_str())) _exit(3);
      Worker w; w.shm = shm + k; w.outdir = out; w.id = k; w.deadline = dl;
      Explorer e; e.tier = tier; e.shard = k; e.nshards = jobs; e.batch_size = harness_batch; e.impl = &w;
      try { enumerate(e); e.flush(); } catch(std::exception& ex) { fprintf(stderr, "enumerator failed: %s\n", ex.what()); _exit(4); }
      write_file(out + "/total." + std::to_string(k), std::to_string(e.index));
      _exit(0);
    }
    pids.push_back(pid);
  }
  int bad = 0;
  for(pid_t p : pids) { int st; waitpid(p, &st, 0); if(!WIFEXITED(st) || WEXITSTATUS(st)) bad = 1; }
  uint64_t cases = 0, ops = 0, nt = 0; std::set<uint64_t> oc;
  for(int k = 0; k < jobs; k++) {
    cases += shm[k].cases; ops += shm[k].ops; nt += shm[k].nontriv;
    for(size_t i = 0; i < (1u << 19); i++) if(shm[k].outc[i]) oc.insert((uint64_t)shm[k].outc[i]);
  }
  std::ofstream f(out + "/summary.json");
  f << "{\"harness\":\"" << harness_name << "\",\"cases\":" << cases << ",\"ops\":" << ops << ",\"nontrivial\":" << nt << ",\"outcomes\":" << oc.size() << ",\"bad\":" << bad << "}\n";
  return bad ? 2 : 0;
}
