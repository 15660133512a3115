// Driver: runs scenarios, each in a forked child, and reports one JSON line per scenario.
#include "harness.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <malloc.h>
#include <chrono>
#include <execinfo.h>

using namespace harness;

// ------------------------------------------------------------------ allocation seam: dirty memory
namespace sim { int fillByte = 0; void PaintStack (size_t n); }
static inline void * allocFill (size_t n)
{
  void * p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (sim::fillByte >= 0) memset(p, sim::fillByte, n < (1u << 20) ? n : (1u << 20));
  if (sim::fillByte > 0) sim::PaintStack(1024);
  return p;
}
static inline void dealloc (void * p) { if (!p) return; if (sim::fillByte > 0) { size_t n = malloc_usable_size(p); memset(p, sim::fillByte ^ 0xA5, n < 4096 ? n : 4096); } free(p); }
void * operator new (size_t n) { return allocFill(n); }
void * operator new[] (size_t n) { return allocFill(n); }
void * operator new (size_t n, const std::nothrow_t &) noexcept { void * p = malloc(n ? n : 1); if (p && sim::fillByte >= 0) memset(p, sim::fillByte, n < (1u << 20) ? n : (1u << 20)); return p; }
void * operator new[] (size_t n, const std::nothrow_t &) noexcept { void * p = malloc(n ? n : 1); if (p && sim::fillByte >= 0) memset(p, sim::fillByte, n < (1u << 20) ? n : (1u << 20)); return p; }
void operator delete (void * p) noexcept { dealloc(p); }
void operator delete[] (void * p) noexcept { dealloc(p); }
void operator delete (void * p, size_t) noexcept { dealloc(p); }
void operator delete[] (void * p, size_t) noexcept { dealloc(p); }

// ------------------------------------------------------------------ output
static string esc (const string & s)
{
  string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
  return o;
}
static string traceStr (const vector<pair<uint64_t,int>> & t) { string s; char b[64]; for (auto & x : t) { snprintf(b, 64, "%lx:%d,", (unsigned long)x.first, x.second); s += b; } return s; }
static string json (const Params & p, const Outcome & o, bool withTrace)
{
  stringstream ss;
  ss << "{\"params\":{"; bool f = true; for (auto & kv : p) { if (!f) ss << ","; f = false; ss << "\"" << esc(kv.first) << "\":\"" << esc(kv.second) << "\""; }
  ss << "},\"violations\":["; f = true; for (auto & v : o.viol) { if (!f) ss << ","; f = false; ss << "[\"" << esc(v.cls) << "\",\"" << esc(v.msg) << "\"]"; }
  ss << "],\"hash\":\"" << hex << o.hash << dec << "\",\"nontrivial\":" << (o.nontrivial ? "true" : "false") << ",\"stat\":{"; f = true;
  for (auto & kv : o.stat) { if (kv.second == 0) continue; if (!f) ss << ","; f = false; ss << "\"" << kv.first << "\":" << S(kv.second); }
  ss << "},\"states\":["; f = true; for (auto s : o.states) { if (!f) ss << ","; f = false; ss << "\"" << hex << s << dec << "\""; }
  ss << "],\"info\":{"; f = true; for (auto & kv : o.info) { if (!f) ss << ","; f = false; ss << "\"" << esc(kv.first) << "\":\"" << esc(kv.second) << "\""; }
  ss << "}";
  if (withTrace || o.viol.size()) ss << ",\"trace\":\"" << traceStr(o.trace) << "\"";
  ss << "}";
  return ss.str();
}

static int resFd = -1; static Params * curParams = nullptr;
static void writeAll (int fd, const string & s) { size_t k = 0; while (k < s.size()) { ssize_t n = write(fd, s.data() + k, s.size() - k); if (n <= 0) break; k += n; } }

static void crash (int sig)
{
  char b[64]; int n = snprintf(b, 64, "#CRASH %d ", sig); if (write(resFd, b, n) < 0) _exit(78);
  sim::DumpTrace(resFd);
  void * bt[40]; int m = backtrace(bt, 40); backtrace_symbols_fd(bt, m, 2);
  _exit(78);
}

static void child (const Check & c, Params p, int fd, bool verbose, bool withTrace)
{
  resFd = fd; curParams = &p;
  if (!verbose) { int nul = open("/dev/null", O_RDWR); dup2(nul, 1); if (!getenv("SIM_STDERR")) dup2(nul, 2); }
  stack_t st; st.ss_sp = malloc(1 << 16); st.ss_size = 1 << 16; st.ss_flags = 0; sigaltstack(&st, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_handler = crash; sa.sa_flags = SA_ONSTACK;
  for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL }) sigaction(s, &sa, nullptr);
  struct rlimit rl = { 90, 100 }; setrlimit(RLIMIT_CPU, &rl);
  Outcome o; curOutcome = &o;
  sim::onFatal = [&](RunResult & r) { o.Add(r); writeAll(resFd, json(p, o, withTrace) + "\n"); _exit(0); };
  sim::fillByte = PI(p, "sim.fill", 0);
  try { c.run(p, o); }
  catch (const std::exception & e) { o.Fail("harness-exception", e.what()); }
  writeAll(fd, json(p, o, withTrace) + "\n");
  _exit(0);
}

struct Job { pid_t pid; int fd; string buf; Params p; double t0; };
static double wall () { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

int main (int argc, char ** argv)
{
  if (!getenv("SIM_REEXEC"))
    {
      personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
      setenv("SIM_REEXEC", "1", 1); setenv("GLIBC_TUNABLES", "glibc.malloc.arena_max=1", 1);
      setenv("MKL_NUM_THREADS", "1", 1); setenv("OMP_NUM_THREADS", "1", 1); setenv("MKL_THREADING_LAYER", "SEQUENTIAL", 1); setenv("MKL_CBWR", "COMPATIBLE", 1);
      setenv("NGS_NUM_THREADS", "1", 1);
      execv("/proc/self/exe", argv);
      perror("execv"); return 3;
    }
  string check, mode = argc > 1 ? argv[1] : "";
  uint64_t s0 = 1, s1 = 1; int jobs = 8; double budget = 1e9, per = 300; bool thorough = false, verbose = false, withTrace = false; Params over; string pfile;
  int maxViol = 1000000;
  for (int i = 2; i < argc; i++)
    {
      string a = argv[i];
      auto nxt = [&] { if (i + 1 >= argc) exit(3); return string(argv[++i]); };
      if (a == "--check") check = nxt(); else if (a == "--seeds") { string v = nxt(); auto q = v.find(':'); s0 = stoull(v.substr(0, q)); s1 = q == string::npos ? s0 : stoull(v.substr(q+1)); }
      else if (a == "--jobs") jobs = stoi(nxt()); else if (a == "--budget") budget = stod(nxt()); else if (a == "--thorough") thorough = true; else if (a == "-v") verbose = true;
      else if (a == "--trace") withTrace = true; else if (a == "--set") { string v = nxt(); auto q = v.find('='); over[v.substr(0, q)] = v.substr(q+1); }
      else if (a == "--params") pfile = nxt(); else if (a == "--per") per = stod(nxt()); else if (a == "--maxviol") maxViol = stoi(nxt());
      else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
    }
  mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 2000000000); mallopt(M_TOP_PAD, 1 << 26);
  sim::InstallMPI();
  { Dense a(3,3); a(0,0) = a(1,1) = a(2,2) = 1; EigSym(a); Dense r(3,1); LUSolve(a, r); vector<double> l; EigGen(a, a, l); CholSolve(a, r); }   // loads the LAPACK kernels before forking
  { void * bt[2]; backtrace(bt, 2); }
  ngcore::printmessage_importance = 0; netgen::printmessage_importance = 0;
  if (mode == "list") { for (auto & c : Checks()) printf("%s\n", c.id.c_str()); return 0; }
  const Check * C = nullptr; for (auto & c : Checks()) if (c.id == check) C = &c;
  if (!C) { fprintf(stderr, "unknown check '%s'\n", check.c_str()); return 3; }
  auto gen = [&](uint64_t s) { Params p = C->gen(s, thorough); p["seed"] = to_string(s); for (auto & kv : over) if (kv.second == "-") p.erase(kv.first); else p[kv.first] = kv.second; return p; };
  if (mode == "gen") { for (uint64_t s = s0; s <= s1; s++) { Outcome o; printf("%s\n", json(gen(s), o, false).c_str()); } return 0; }
  vector<Params> todo;
  if (mode == "params")
    { // lines "key=value", scenarios separated by an empty line
      FILE * f = pfile == "-" ? stdin : fopen(pfile.c_str(), "r"); if (!f) { perror("params"); return 3; }
      char * line = nullptr; size_t cap = 0; ssize_t n; Params p;
      while ((n = getline(&line, &cap, f)) > 0) { string l(line); while (l.size() && (l.back() == '\n')) l.pop_back(); if (l.empty()) { if (p.size()) todo.push_back(p); p.clear(); continue; } auto q = l.find('='); if (q != string::npos) p[l.substr(0, q)] = l.substr(q+1); }
      if (p.size()) todo.push_back(p);
      for (auto & q : todo) for (auto & kv : over) if (kv.second == "-") q.erase(kv.first); else q[kv.first] = kv.second;
    }
  else if (mode != "run") { fprintf(stderr, "usage: simrun run|params|gen|list --check ID ...\n"); return 3; }
  double start = wall(); size_t next = 0; uint64_t ns = s0; list<Job> act; int nviol = 0;
  while (true)
    {
      while ((int)act.size() < jobs && (mode == "params" ? next < todo.size() : ns <= s1) && wall() - start < budget && nviol < maxViol)
        {
          Params p = mode == "params" ? todo[next++] : gen(ns++);
          int fds[2]; if (pipe(fds)) { perror("pipe"); return 3; }
          fflush(stdout);
          pid_t pid = fork();
          if (pid == 0) { close(fds[0]); child(*C, p, fds[1], verbose, withTrace); }
          close(fds[1]); act.push_back({pid, fds[0], "", p, wall()});
        }
      if (act.empty()) break;
      vector<struct pollfd> pf; for (auto & j : act) pf.push_back({j.fd, POLLIN, 0});
      poll(pf.data(), pf.size(), 500);
      int k = 0;
      for (auto it = act.begin(); it != act.end(); k++)
        {
          bool done = false; auto & j = *it;
          if (pf[k].revents) { char b[65536]; ssize_t n = read(j.fd, b, sizeof b); if (n > 0) j.buf.append(b, n); else done = true; }
          bool tout = !done && wall() - j.t0 > per;
          if (tout) { kill(j.pid, SIGKILL); done = true; }
          if (!done) { ++it; continue; }
          int st; waitpid(j.pid, &st, 0); close(j.fd);
          { string dir = "/tmp/ngsamg_sim." + to_string(j.pid); if (DIR * d = opendir(dir.c_str())) { while (auto * e = readdir(d)) if (e->d_type == DT_REG) unlink((dir + "/" + e->d_name).c_str()); closedir(d); rmdir(dir.c_str()); } }
          auto q = j.buf.find("#CRASH ");
          string line;
          if (tout) { Outcome o; o.Fail("wall-clock", "scenario did not end within the wall clock limit"); line = json(j.p, o, false) + "\n"; }
          else if (q != string::npos || !WIFEXITED(st) || WEXITSTATUS(st) != 0 || j.buf.empty())
            {
              Outcome o; int sig = q != string::npos ? atoi(j.buf.c_str() + q + 7) : WIFSIGNALED(st) ? WTERMSIG(st) : 0; if (sig == SIGXCPU) o.Fail("timeout", "scenario exceeded its processor time limit"); else o.Fail("crash", string("the process was ended by signal ") + strsignal(sig));
              line = json(j.p, o, false); if (q != string::npos) { auto e = j.buf.find(' ', q + 7); string tr = j.buf.substr(e + 1); auto pos = line.rfind(",\"trace\""); line = line.substr(0, pos) + ",\"trace\":\"" + tr + "\"}"; }
              line += "\n";
            }
          else line = j.buf;
          if (line.find("\"violations\":[]") == string::npos && line.find("[\"singular-coarse\"") == string::npos) nviol++;
          fputs(line.c_str(), stdout); fflush(stdout);
          it = act.erase(it);
        }
    }
  fprintf(stdout, "{\"done\":%zu,\"wall\":%.3f}\n", mode == "params" ? next : size_t(ns - s0), wall() - start);
  return 0;
}
