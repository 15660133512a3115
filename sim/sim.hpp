// Deterministic simulation kernel: a simulated MPI + thread scheduler in one process.
// Everything nondeterministic is a "choice", identified by (kind, actor, per-actor counter).
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim
{

enum Kind : int
{
  K_SCHED = 0,   // which runnable task continues
  K_DELAY,       // message latency bucket
  K_REND,        // rendezvous (synchronous) instead of buffered send
  K_STALL,       // task stalled for a while
  K_SRC,         // which source/message an ANY_SOURCE probe/recv or Waitany takes
  K_COLL,        // collective completion: loose instead of synchronising
  K_SPUR,        // spurious condition variable wake-up / which waiter is woken
  K_TASK,        // order of shared-memory tasks
  K_LATECPY,     // eager isend: payload is pulled at arrival and not at the call
  K_ERED,        // reduction combined in a permuted order
  K_DISK,        // opening or writing a file fails
  K_NUM
};
extern const char * kindName[K_NUM];

struct Config
{
  int np = 1;
  uint64_t seed = 1;
  int runIdx = -1;               // which run of the scenario this is (part of the identity of its choices); -1: count up
  double p[K_NUM] = {0};         // probability of a non-default choice per kind
  bool replay = false;           // take choices only from "forced" (default 0 elsewhere)
  std::map<uint64_t, int> forced;
  long maxSteps = 20000000;
  int  tasks = 0;                // >0: simulated TaskManager with that many threads
  int  mallocPerturb = 0;
  int  victim = -1;              // rank which is stalled preferentially ("slow node")
  bool strictSend = false;       // every send is rendezvous (no buffering at all)
  int  failSends = 0;
};

struct Violation
{
  std::string cls;     // stable class, e.g. "deadlock", "send-buffer-changed"
  std::string msg;
};

struct RunResult
{
  bool ok = false;
  std::vector<Violation> violations;
  std::vector<std::pair<uint64_t,int>> trace;  // non-default choices
  uint64_t schedHash = 0;     // hash over the order of all events
  uint64_t contentHash = 0;   // hash over all events incl. payload
  long steps = 0, switches = 0, msgs = 0, colls = 0, bytes = 0;
  long fired[K_NUM] = {0};    // how often a non-default choice actually happened
  long nchoice[K_NUM] = {0};
  long rendBlocked = 0, stalledTicks = 0, timeJumps = 0, bgThreads = 0, taskJobs = 0, overtakes = 0, latecopies = 0;
  uint64_t simTime = 0;
  std::vector<std::string> exceptions; // per rank
};

// runs f(rank) on np simulated ranks to completion. If a fatal simulator-level violation occurs
// (deadlock, livelock, truncation, ...) the onFatal callback is invoked and must not return.
RunResult Run (const Config & cfg, std::function<void(int)> f);
extern std::function<void(RunResult &)> onFatal;

// ---- available inside a simulated rank
int MyRank ();
int NumRanks ();
std::vector<int> CommWorld (uintptr_t comm);   // world ranks of a communicator
void DumpTrace (int fd);                        // for crash handlers
bool InSim ();
uint64_t Now ();
extern std::string diskDir;                     // files written here are subject to disk faults
void Yield ();
void Report (const std::string & cls, const std::string & msg);  // non fatal violation
[[noreturn]] void Fatal (const std::string & cls, const std::string & msg);
// resource accounting
struct Leaks { long comms = 0, requests = 0, unmatched = 0; std::string text; };
void OutOfBandBarrier ();   // rank barrier that is not part of the simulated program

// a seeded RNG for workload generation
struct Rng
{
  uint64_t s;
  Rng (uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { for (int k = 0; k < 4; k++) next(); }
  uint64_t next () { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  double uni () { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  int below (int n) { return n <= 1 ? 0 : int(next() % uint64_t(n)); }
  int range (int a, int b) { return a + below(b - a + 1); }
  bool flip (double p) { return uni() < p; }
  template<class T> const T & pick (const std::vector<T> & v) { return v[below((int)v.size())]; }
};

inline void hashMix (uint64_t & h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; }
uint64_t hashBytes (const void * p, size_t n);

void InstallMPI ();
} // namespace sim
