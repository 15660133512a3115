// Deterministic simulation kernel. See sim.hpp.
#include "sim.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <malloc.h>
#include <execinfo.h>
#include <string.h>
#include <stdlib.h>

#include <algorithm>
#include <cassert>
#include <complex>
#include <deque>
#include <memory>
#include <set>
#include <sstream>
#include <unordered_map>

#include <core/ngcore.hpp>
#include <core/ng_mpi.hpp>

using namespace std;

namespace sim
{
const char * kindName[K_NUM] = { "preempt", "msg_delay", "rendezvous_send", "rank_stall", "any_source_order",
                                 "collective_loose", "spurious_or_reordered_wakeup", "task_reorder", "late_send_copy", "reduction_reorder", "disk_error" };
string diskDir;

std::function<void(RunResult &)> onFatal;

uint64_t hashBytes (const void * p, size_t n)
{
  const unsigned char * c = (const unsigned char*)p;
  uint64_t h = 1469598103934665603ull;
  while (n >= 8) { uint64_t v; memcpy(&v, c, 8); h ^= v; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; c += 8; n -= 8; }
  while (n--) { h ^= *c++; h *= 1099511628211ull; h ^= h >> 31; }
  return h;
}

// ------------------------------------------------------------------ tasks
struct Task
{
  int id = 0, rank = 0;
  bool isRank = false;
  int go = 0;                       // futex
  enum { RUN, BLOCKED, DONE } st = RUN;
  function<bool()> pred;
  uint64_t wakeAt = ~0ull;          // timed waits
  function<string()> what;
  uint64_t stallUntil = 0;
  uint32_t cnt[K_NUM] = {0};
  Rng rng, crand;
  pthread_t th{};
  function<void()> body;
  void * (*start)(void*) = nullptr; void * arg = nullptr;
  bool inTask = false;
};

struct Req;
struct Msg
{
  int src = 0, dst = 0, comm = 0, tag = 0;   // src/dst: world ranks
  uint64_t arrival = 0, seq = 0;
  bool rend = false;
  vector<char> data; bool pulled = false;
  size_t nbytes = 0; uint64_t sig = 0;
  Req * sreq = nullptr;   // for late pull / rendezvous
};

struct DType { size_t size = 0, extent = 0; bool contig = true; vector<pair<ptrdiff_t,size_t>> blocks; bool freed = false; };

struct Req
{
  int id = 0;
  bool send = false, persistent = false, active = false, complete = false, freed = false;
  char * buf = nullptr; int count = 0; int dt = 0;
  int peer = 0, tag = 0, comm = 0, owner = 0;   // peer: comm rank or ANY
  uint64_t hash = 0; size_t nbytes = 0;
  vector<char> save; bool poisoned = false;
  uint64_t poison = 0;
  int stSrc = -1, stTag = -1; size_t stBytes = 0;
  uint64_t postSeq = 0;
  void * bt[20]; int nbt = 0;   // debugging aid, SIM_BT=1
};

struct Coll
{
  string kind; int root = -1; size_t bytes = 0; int op = 0; int joined = 0;
  vector<char> here;
  vector<vector<char>> data;
  vector<vector<int>> ints;
  int newcomm = -1;
  int left = 0;
};

struct Comm
{
  int id = 0;
  vector<int> members;       // world ranks
  vector<char> freed;
  vector<int> collCount;     // per member
  map<int, Coll> colls;
  map<int,int> collGroupCreate;
  string origin;
};

struct World
{
  Config cfg; int runIdx = 0; uint64_t seed = 0;
  RunResult res;
  vector<unique_ptr<Task>> tasks;
  Task * running = nullptr;
  uint64_t now = 0;
  uint64_t seq = 0;
  vector<deque<Msg*>> inbox;          // per world rank, in send order
  vector<vector<Req*>> posted;        // per world rank, in post order
  vector<char> dirty;
  vector<unique_ptr<Req>> reqs;       // id-1
  vector<unique_ptr<Comm>> comms;     // id
  deque<vector<int>> groups;
  map<vector<long>, int> createGroupKeys;
  map<vector<long>, pair<int,int>> createGroupPending;
  long userErr = 0;
  int mainGo = 0;
  bool finished = false;
  int ranksAlive = 0;
  int oob = 0; long oobGen = 0;
};

static World * W = nullptr;
static thread_local Task * cur = nullptr;
static deque<DType> dtypes;   // global across runs (static caches in the code under test live across runs)
static vector<pair<void*,void*>> dummy;

int MyRank () { return cur ? cur->rank : -1; }
int NumRanks () { return W ? W->cfg.np : 0; }
std::vector<int> CommWorld (uintptr_t comm) { if (!W || comm == 0 || comm > W->comms.size()) return {}; return W->comms[comm-1]->members; }
void DumpTrace (int fd)
{
  if (!W) return;
  char b[64];
  for (auto & t : W->res.trace) { int n = snprintf(b, 64, "%lx:%d,", (unsigned long)t.first, t.second); if (write(fd, b, n) < 0) return; }
}
bool InSim () { return cur != nullptr && W != nullptr; }
uint64_t Now () { return W ? W->now : 0; }

static void futexWait (int * addr)
{
  while (__atomic_load_n(addr, __ATOMIC_ACQUIRE) == 0)
    syscall(SYS_futex, addr, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(addr, 0, __ATOMIC_RELEASE);
}
static void futexWake (int * addr)
{
  __atomic_store_n(addr, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, addr, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

static inline void ev (uint64_t a, uint64_t b = 0, uint64_t c = 0, uint64_t d = 0)
{
  uint64_t x = a * 1315423911u + (cur ? cur->id : 99);
  hashMix(W->res.schedHash, x); hashMix(W->res.schedHash, b); hashMix(W->res.schedHash, c); hashMix(W->res.schedHash, d);
}
static inline void evc (uint64_t h) { hashMix(W->res.contentHash, h); hashMix(W->res.contentHash, W->res.schedHash); }

void Report (const string & cls, const string & msg)
{
  if (!W) return;
  if (W->res.violations.size() < 50)
    W->res.violations.push_back({cls, msg});
}

[[noreturn]] void Fatal (const string & cls, const string & msg)
{
  Report(cls, msg);
  W->res.ok = false;
  W->res.simTime = W->now;
  W->res.exceptions.resize(W->cfg.np);
  if (onFatal) onFatal(W->res);
  fprintf(stderr, "FATAL %s: %s\n", cls.c_str(), msg.c_str());
  _exit(77);
}

// ------------------------------------------------------------------ choices
static uint64_t ckey (int kind, int task, uint32_t c) { return (uint64_t(W->runIdx & 255) << 56) | (uint64_t(kind) << 48) | (uint64_t(task) << 40) | c; }

// n alternatives, 0 is the default one
static int Choose (Kind k, int n, double pmul = 1.0)
{
  if (n <= 1) return 0;
  Task * t = cur;
  uint32_t c = t->cnt[k]++;
  W->res.nchoice[k]++;
  uint64_t key = ckey(k, t->id, c);
  int v = 0;
  if (W->cfg.replay)
    {
      auto it = W->cfg.forced.find(key);
      if (it != W->cfg.forced.end()) { v = it->second; if (v >= n) v = n - 1; }
    }
  else
    {
      double p = W->cfg.p[k] * pmul;
      if (p > 0)
        {
          if (t->rng.uni() < p) v = 1 + t->rng.below(n-1);
        }
    }
  if (v)
    {
      W->res.fired[k]++;
      W->res.trace.push_back({key, v});
    }
  return v;
}

// ------------------------------------------------------------------ progress engine
static void pack (const char * buf, int count, const DType & d, vector<char> & out)
{
  out.resize(d.size * size_t(count));
  if (d.contig) { if (out.size()) memcpy(out.data(), buf, out.size()); return; }
  char * o = out.data();
  for (int k = 0; k < count; k++)
    for (auto & b : d.blocks) { memcpy(o, buf + k * d.extent + b.first, b.second); o += b.second; }
}
static void unpack (const char * in, size_t nbytes, char * buf, const DType & d)
{
  if (d.contig) { if (nbytes) memcpy(buf, in, nbytes); return; }
  size_t cnt = d.size ? nbytes / d.size : 0;
  const char * o = in;
  for (size_t k = 0; k < cnt; k++)
    for (auto & b : d.blocks) { memcpy(buf + k * d.extent + b.first, o, b.second); o += b.second; }
}
static uint64_t bufHash (const char * buf, int count, const DType & d)
{
  if (d.contig) return hashBytes(buf, d.size * size_t(count));
  vector<char> v; pack(buf, count, d, v); return hashBytes(v.data(), v.size());
}

static int commRank (Comm & c, int world)
{
  for (size_t k = 0; k < c.members.size(); k++) if (c.members[k] == world) return int(k);
  return -1;
}

static string commStr (int c) { return W->comms[c]->origin; }

static void pullData (Msg * m)
{
  if (m->pulled) return;
  Req * s = m->sreq;
  DType & d = dtypes[s->dt];
  pack(s->buf, s->count, d, m->data);
  uint64_t h = hashBytes(m->data.data(), m->data.size());
  m->pulled = true;
  if (h != s->hash)
    {
      stringstream ss;
      ss << "rank " << m->src << " -> rank " << m->dst << " tag " << m->tag << " comm " << commStr(m->comm) << " " << m->nbytes
         << " bytes: the send buffer was changed or freed before the transfer completed";
      if (s->nbt) { fprintf(stderr, "---- posted at\n"); backtrace_symbols_fd(s->bt, s->nbt, 2); }
      Report("send-buffer-changed", ss.str());
    }
  s->complete = true;
  if (s->freed) { s->active = false; }
}

static bool matches (Req * r, Msg * m)
{
  if (r->comm != m->comm) return false;
  if (r->tag != ngcore::NG_MPI_ANY_TAG && r->tag != m->tag) return false;
  if (r->peer != ngcore::NG_MPI_ANY_SOURCE && W->comms[r->comm]->members[r->peer] != m->src) return false;
  return true;
}

static void unpoison (Req * r, size_t nbytes)
{
  if (!r->poisoned) return;
  DType & d = dtypes[r->dt];
  size_t total = d.extent * size_t(r->count);
  uint64_t h = hashBytes(r->buf, total);
  if (h != r->poison)
    {
      stringstream ss;
      ss << "rank " << r->owner << " receive from " << r->peer << " tag " << r->tag << ": buffer was written while the receive was pending";
      Report("recv-buffer-touched", ss.str());
    }
  else
    memcpy(r->buf, r->save.data(), total);
  r->poisoned = false; r->save.clear();
}

static void doPoison (Req * r)
{
  DType & d = dtypes[r->dt];
  size_t total = d.extent * size_t(r->count);
  if (!total) return;
  r->save.assign(r->buf, r->buf + total);
  memset(r->buf, 0xCB, total);
  r->poison = hashBytes(r->buf, total);
  r->poisoned = true;
}

static void deliver (Req * r, Msg * m)
{
  pullData(m);
  unpoison(r, m->nbytes);
  DType & d = dtypes[r->dt];
  size_t cap = d.size * size_t(r->count);
  if (m->nbytes > cap)
    {
      stringstream ss;
      ss << "rank " << m->src << " -> rank " << m->dst << " tag " << m->tag << ": message of " << m->nbytes << " bytes into a buffer of " << cap;
      Fatal("message-truncated", ss.str());
    }
  unpack(m->data.data(), m->data.size(), r->buf, d);
  r->stSrc = commRank(*W->comms[r->comm], m->src); r->stTag = m->tag; r->stBytes = m->nbytes;
  r->complete = true;
  if (r->freed) r->active = false;
  ev(11, m->src, m->dst, m->tag); evc(hashBytes(m->data.data(), m->data.size()));
  delete m;
}

static Msg * findMsg (int rank, Req * pat, bool choose)
{
  // first message in send order per source; earlier not yet arrived matching messages from the same source hide later ones
  auto & in = W->inbox[rank];
  vector<Msg*> cand; vector<int> seen;
  for (auto m : in)
    {
      if (!matches(pat, m)) continue;
      if (find(seen.begin(), seen.end(), m->src) != seen.end()) continue;
      seen.push_back(m->src);
      if (m->arrival <= W->now) cand.push_back(m);
      if (pat->peer != ngcore::NG_MPI_ANY_SOURCE) break;
    }
  if (cand.empty()) return nullptr;
  if (cand.size() == 1 || !choose) return cand[0];
  return cand[Choose(K_SRC, int(cand.size()))];
}

static void progress ()
{
  for (int r = 0; r < W->cfg.np; r++)
    {
      auto & in = W->inbox[r]; auto & po = W->posted[r];
      if (in.empty() || po.empty()) continue;
      for (size_t k = 0; k < po.size(); )
        {
          Req * q = po[k];
          Msg * m = findMsg(r, q, cur != nullptr && q->peer == ngcore::NG_MPI_ANY_SOURCE);
          if (!m) { k++; continue; }
          if (m != in.front()) { for (auto x : in) { if (x == m) break; if (x->src == m->src && x->comm == m->comm) { W->res.overtakes++; break; } } }
          in.erase(find(in.begin(), in.end(), m));
          po.erase(po.begin() + k);
          deliver(q, m);
        }
    }
  // late copies of messages that have arrived although nobody has matched them yet: the library may pull any time
}

static uint64_t nextArrival ()
{
  uint64_t t = ~0ull;
  for (auto & in : W->inbox) for (auto m : in) if (m->arrival > W->now) t = min(t, m->arrival);
  return t;
}

// ------------------------------------------------------------------ scheduler
static void describeTasks (stringstream & ss)
{
  for (auto & t : W->tasks)
    {
      ss << " [task " << t->id << " rank " << t->rank << (t->isRank ? "" : " bg") << ": ";
      if (t->st == Task::DONE) ss << "finished";
      else if (t->st == Task::BLOCKED) ss << "blocked in " << (t->what ? t->what() : string("?"));
      else ss << "running";
      ss << "]";
    }
}

static bool runnable (Task * t)
{
  if (t->st == Task::DONE || t->stallUntil > W->now) return false;
  if (t->st == Task::RUN) return true;
  if (t->wakeAt <= W->now) return true;
  return t->pred();
}

static Task * pickNext ()
{
  while (true)
    {
      progress();
      Task * list[256]; int n = 0;
      // order: current first, then cyclic by id
      int nt = (int)W->tasks.size();
      int base = cur ? cur->id : 0;
      for (int k = 0; k < nt && n < 256; k++)
        {
          Task * t = W->tasks[(base + k) % nt].get();
          if (runnable(t)) list[n++] = t;
        }
      if (n)
        {
          int c = (n > 1) ? Choose(K_SCHED, n) : 0;
          return list[c];
        }
      if (W->finished) return nullptr;
      // nothing can run: let time pass
      uint64_t t = nextArrival();
      for (auto & x : W->tasks)
        if (x->st != Task::DONE)
          {
            if (x->stallUntil > W->now) { t = min(t, x->stallUntil); }
            if (x->st == Task::BLOCKED && x->wakeAt > W->now) t = min(t, x->wakeAt);
          }
      if (t == ~0ull)
        {
          // background helpers of finished ranks do not count
          stringstream ss; ss << "no rank can make progress:"; describeTasks(ss);
          Fatal("deadlock", ss.str());
        }
      W->res.timeJumps++;
      W->now = t;
    }
}

static void switchTo (Task * n)
{
  Task * me = cur;
  if (n == me) return;
  W->res.switches++;
  W->running = n;
  ev(1, n->id);
  futexWake(&n->go);
  futexWait(&me->go);
}

static void stepCheck ()
{
  W->now++;
  if (++W->res.steps > W->cfg.maxSteps)
    {
      stringstream ss; ss << "no termination within " << W->cfg.maxSteps << " steps:"; describeTasks(ss);
      Fatal("livelock", ss.str());
    }
}

thread_local int guardDepth = 0;    // in the initialisation of a function-local static: nobody else may run
extern int fillByte;
// stack below the caller: variables of functions called from here on contain this before they are initialised
__attribute__((noinline)) void PaintStack (size_t n)
{
  if (fillByte < 0) return;
  volatile char * p = (volatile char*)__builtin_alloca(n); memset((char*)p, fillByte, n); asm volatile("" : : "r"(p) : "memory");
}
void Yield ()
{
  if (!InSim() || guardDepth > 0) return;
  PaintStack(16384);
  stepCheck();
  double mul = (W->cfg.victim < 0) ? 1.0 : (W->cfg.victim == cur->rank ? 4.0 : 0.25);
  int s = Choose(K_STALL, 4, mul);
  if (s)
    {
      static const uint64_t d[4] = { 0, 40, 1500, 60000 };
      cur->stallUntil = W->now + d[s];
      W->res.stalledTicks += d[s];
    }
  switchTo(pickNext());
  cur->st = Task::RUN;
}

static void Block (function<bool()> pred, function<string()> what, uint64_t wakeAt = ~0ull)
{
  PaintStack(16384);
  stepCheck();
  progress();
  cur->pred = move(pred); cur->what = move(what); cur->wakeAt = wakeAt;
  cur->st = Task::BLOCKED;
  switchTo(pickNext());
  cur->st = Task::RUN;
  cur->wakeAt = ~0ull;
}

static pthread_key_t exitKey;
static void taskExit (void * p)
{
  Task * me = (Task*)p;
  cur = me;
  me->st = Task::DONE;
  if (me->isRank) W->ranksAlive--;
  bool all = true;
  for (auto & t : W->tasks) if (t->isRank && t->st != Task::DONE) all = false;
  if (all)
    {
      // all ranks are through; background tasks that are still alive stay parked for good
      int bg = 0;
      for (auto & t : W->tasks) if (!t->isRank && t->st != Task::DONE) bg++;
      W->finished = true;
      if (bg)
        {
          // give them the chance to end (they may have been told to stop)
          Task * n = nullptr;
          progress();
          for (auto & t : W->tasks) if (t->st != Task::DONE) { if (t->st == Task::RUN || t->pred()) { n = t.get(); break; } }
          if (n) { n->stallUntil = 0; cur = nullptr; W->running = n; futexWake(&n->go); return; }
        }
      cur = nullptr;
      futexWake(&W->mainGo);
      return;
    }
  Task * n = pickNext();
  cur = nullptr;
  W->running = n;
  W->res.switches++;
  futexWake(&n->go);
}

void InstallTaskManager (int threads);
static void * rankMain (void * p)
{
  Task * t = (Task*)p;
  futexWait(&t->go);
  cur = t;
  pthread_setspecific(exitKey, t);
  if (t->start) return t->start(t->arg);
  t->body();
  return nullptr;
}

void OutOfBandBarrier ()
{
  long gen = W->oobGen;
  if (++W->oob == W->cfg.np) { W->oob = 0; W->oobGen++; return; }
  Block([gen]{ return W->oobGen != gen; }, []{ return string("out-of-band barrier of the harness"); });
}

// ------------------------------------------------------------------ MPI
#define NG ngcore
using ngcore::NG_MPI_Comm; using ngcore::NG_MPI_Datatype; using ngcore::NG_MPI_Request; using ngcore::NG_MPI_Op;
using ngcore::NG_MPI_Status; using ngcore::NG_MPI_Group; using ngcore::NG_MPI_Aint;

enum { T_CHAR = 1, T_INT, T_SHORT, T_BOOL, T_DOUBLE, T_FLOAT, T_U64, T_CPLX, T_FIRSTUSER };
enum { OP_LOR = 1, OP_MAX, OP_MIN, OP_SUM };

static Comm & C (NG_MPI_Comm c, const char * fn)
{
  if (!W) { fprintf(stderr, "MPI call %s outside of the simulation\n", fn); abort(); }
  if (!cur) { fprintf(stderr, "MPI call %s from a thread the simulator does not own\n", fn); abort(); }
  if (c.value == 0 || c.value > W->comms.size()) Fatal("invalid-communicator", string(fn) + " on an invalid communicator");
  Comm & cc = *W->comms[c.value - 1];
  int r = commRank(cc, cur->rank);
  if (r < 0) Fatal("invalid-communicator", string(fn) + " on a communicator the rank is not a member of");
  if (cc.freed[r]) Fatal("invalid-communicator", string(fn) + " on a communicator that was already freed");
  return cc;
}
static DType & D (NG_MPI_Datatype d)
{
  if (d.value == 0 || d.value > dtypes.size() - 1 || dtypes[d.value].freed) Fatal("invalid-datatype", "use of an invalid datatype");
  return dtypes[d.value];
}
static Req * R (uintptr_t v, const char * fn)
{
  if (v == 0) return nullptr;
  if (v > W->reqs.size()) Fatal("invalid-request", string(fn) + " on an invalid request");
  Req * r = W->reqs[v-1].get();
  if (!r || r->freed) Fatal("invalid-request", string(fn) + " on a request that was already completed or freed");
  if (r->owner != cur->rank) Fatal("invalid-request", string(fn) + " on a request of another rank");
  return r;
}
static Req * newReq ()
{
  W->reqs.push_back(make_unique<Req>());
  Req * r = W->reqs.back().get();
  r->id = int(W->reqs.size());
  r->owner = cur->rank;
  return r;
}
static void checkPeer (Comm & c, int peer, const char * fn, bool anyOk)
{
  if (anyOk && peer == NG::NG_MPI_ANY_SOURCE) return;
  if (peer < 0 || peer >= int(c.members.size()))
    Fatal("invalid-rank", string(fn) + " with peer rank " + to_string(peer) + " in a communicator of size " + to_string(c.members.size()));
}

// NGSolve's own distributed inverse (ngla::MasterInverse) receives into a buffer that it is still sending from. That is a defect of
// the dependency, outside of the code under test: non-blocking sends posted by NGSolve libraries are always buffered at once.
static bool fromDependency (void * ra)
{
  static unordered_map<void*,bool> cache;
  auto it = cache.find(ra);
  if (it != cache.end()) return it->second;
  Dl_info di; bool dep = false;
  if (dladdr(ra, &di) && di.dli_fname) dep = strstr(di.dli_fname, "netgen_mesher.libs") != nullptr;
  return cache[ra] = dep;
}

static void startSend (Req * r, bool buffered = false)
{
  Comm & c = *W->comms[r->comm];
  DType & d = dtypes[r->dt];
  r->active = true; r->complete = false;
  r->nbytes = d.size * size_t(r->count);
  r->hash = bufHash(r->buf, r->count, d);
  static bool wantBt = getenv("SIM_BT") != nullptr;
  if (wantBt) r->nbt = backtrace(r->bt, 20);
  Msg * m = new Msg;
  m->src = cur->rank; m->dst = c.members[r->peer]; m->comm = r->comm; m->tag = r->tag;
  m->nbytes = r->nbytes; m->seq = ++W->seq;
  m->sreq = r;
  static const uint64_t base[5] = { 0, 7, 60, 900, 40000 };
  int dl = Choose(K_DELAY, 5);
  m->arrival = W->now + base[dl];
  bool rend = W->cfg.strictSend && !buffered;
  if (!rend && !buffered) rend = Choose(K_REND, 2) == 1;
  m->rend = rend;
  W->res.msgs++; W->res.bytes += r->nbytes;
  if (!rend)
    {
      bool late = !buffered && Choose(K_LATECPY, 2) == 1;
      if (!late) pullData(m);   // buffered right away: complete
      else W->res.latecopies++;
    }
  ev(2, m->dst, m->tag, m->nbytes); evc(r->hash);
  W->inbox[m->dst].push_back(m);
}

static void startRecv (Req * r)
{
  r->active = true; r->complete = false;
  r->postSeq = ++W->seq;
  doPoison(r);
  ev(3, r->peer + 5, r->tag, r->count);
  W->posted[r->owner].push_back(r);
}

static string reqStr (Req * r)
{
  stringstream ss;
  ss << (r->send ? "send to " : "receive from ") << r->peer << " tag " << r->tag << " count " << r->count << " comm " << commStr(r->comm);
  return ss.str();
}

static void finishReq (NG_MPI_Request * h, Req * r, NG_MPI_Status * st)
{
  if (st) { st->data[0] = r->stSrc; st->data[1] = r->stTag; st->data[2] = r->stBytes; st->data[3] = 0; }
  r->active = false;
  if (!r->persistent) { r->freed = true; h->value = 0; }
}

static int simIsend (void * buf, int count, NG_MPI_Datatype dt, int dest, int tag, NG_MPI_Comm comm, NG_MPI_Request * req)
{
  Comm & c = C(comm, "Isend"); D(dt);
  Yield();
  checkPeer(c, dest, "Isend", false);
  Req * r = newReq();
  r->send = true; r->buf = (char*)buf; r->count = count; r->dt = int(dt.value); r->peer = dest; r->tag = tag; r->comm = int(comm.value) - 1;
  startSend(r, fromDependency(__builtin_return_address(0)));
  req->value = r->id;
  return 0;
}
static int simIrecv (void * buf, int count, NG_MPI_Datatype dt, int src, int tag, NG_MPI_Comm comm, NG_MPI_Request * req)
{
  Comm & c = C(comm, "Irecv"); D(dt);
  Yield();
  checkPeer(c, src, "Irecv", true);
  Req * r = newReq();
  r->buf = (char*)buf; r->count = count; r->dt = int(dt.value); r->peer = src; r->tag = tag; r->comm = int(comm.value) - 1;
  startRecv(r);
  req->value = r->id;
  return 0;
}
static int waitReq (NG_MPI_Request * h, NG_MPI_Status * st, const char * fn)
{
  if (h->value == 0) return 0;
  Req * r = R(h->value, fn);
  if (!r->active) { if (!r->persistent) Fatal("invalid-request", "Wait on inactive request"); return 0; }
  if (!r->complete)
    {
      if (r->send) W->res.rendBlocked++;
      Block([r]{ return r->complete; }, [r]{ return "Wait for " + reqStr(r); });
    }
  finishReq(h, r, st);
  return 0;
}
static int simWait (NG_MPI_Request * h, NG_MPI_Status * st) { Yield(); return waitReq(h, st, "Wait"); }
static int simWaitall (int n, NG_MPI_Request * h, NG_MPI_Status * st)
{
  Yield();
  for (int k = 0; k < n; k++) waitReq(h + k, st ? st + k : nullptr, "Waitall");
  return 0;
}
static int simWaitany (int n, NG_MPI_Request * h, int * idx, NG_MPI_Status * st)
{
  Yield();
  vector<int> act;
  for (int k = 0; k < n; k++) if (h[k].value) { Req * r = R(h[k].value, "Waitany"); if (r->active) act.push_back(k); }
  if (act.empty()) { *idx = -32766; return 0; }
  auto done = [&]{ for (int k : act) if (W->reqs[h[k].value-1]->complete) return true; return false; };
  if (!done()) Block(done, [n]{ return "Waitany on " + to_string(n) + " requests"; });
  vector<int> c;
  for (int k : act) if (W->reqs[h[k].value-1]->complete) c.push_back(k);
  int w = c[Choose(K_SRC, int(c.size()))];
  Req * r = R(h[w].value, "Waitany");
  finishReq(h + w, r, st);
  *idx = w;
  return 0;
}
static int simSend (void * buf, int count, NG_MPI_Datatype dt, int dest, int tag, NG_MPI_Comm comm)
{
  NG_MPI_Request q;
  simIsend(buf, count, dt, dest, tag, comm, &q);
  Req * r = R(q.value, "Send");
  if (!r->complete)
    {
      // a buffered blocking send has to return on its own: only a rendezvous one blocks
      Msg * mm = nullptr;
      for (auto m : W->inbox[W->comms[r->comm]->members[dest]]) if (m->sreq == r) mm = m;
      if (mm && !mm->rend) pullData(mm);
    }
  if (!r->complete)
    {
      W->res.rendBlocked++;
      Block([r]{ return r->complete; }, [r]{ return "blocking " + reqStr(r); });
    }
  finishReq(&q, r, nullptr);
  return 0;
}
static int simRecv (void * buf, int count, NG_MPI_Datatype dt, int src, int tag, NG_MPI_Comm comm, NG_MPI_Status * st)
{
  NG_MPI_Request q;
  simIrecv(buf, count, dt, src, tag, comm, &q);
  Req * r = R(q.value, "Recv");
  progress();
  if (!r->complete) Block([r]{ return r->complete; }, [r]{ return "blocking " + reqStr(r); });
  finishReq(&q, r, st);
  return 0;
}
static int simProbeX (int src, int tag, NG_MPI_Comm comm, int * flag, NG_MPI_Status * st, bool block)
{
  Comm & c = C(comm, "Probe");
  Yield();
  checkPeer(c, src, "Probe", true);
  Req pat; pat.peer = src; pat.tag = tag; pat.comm = int(comm.value) - 1; pat.owner = cur->rank;
  int me = cur->rank;
  progress();
  Msg * m = findMsg(me, &pat, true);
  if (!m && block)
    {
      Block([&]{ return findMsg(me, &pat, false) != nullptr; }, [&]{ return "Probe for " + reqStr(&pat); });
      m = findMsg(me, &pat, true);
    }
  if (flag) *flag = m != nullptr;
  if (m && st) { st->data[0] = commRank(c, m->src); st->data[1] = m->tag; st->data[2] = m->nbytes; st->data[3] = 0; }
  ev(4, m ? m->src : 77, tag);
  return 0;
}
static int simProbe (int src, int tag, NG_MPI_Comm comm, NG_MPI_Status * st) { return simProbeX(src, tag, comm, nullptr, st, true); }
static int simIprobe (int src, int tag, NG_MPI_Comm comm, int * flag, NG_MPI_Status * st) { return simProbeX(src, tag, comm, flag, st, false); }
static int simGetCount (NG_MPI_Status * st, NG_MPI_Datatype dt, int * n)
{
  DType & d = D(dt);
  if (d.size == 0) { *n = 0; return 0; }
  if (st->data[2] % d.size) Fatal("message-type-mismatch", "Get_count: the message is not a whole number of elements (" + to_string(st->data[2]) + " bytes, element " + to_string(d.size) + ")");
  *n = int(st->data[2] / d.size);
  return 0;
}
static int simSendInit (void * buf, int count, NG_MPI_Datatype dt, int peer, int tag, NG_MPI_Comm comm, NG_MPI_Request * req)
{
  Comm & c = C(comm, "Send_init"); D(dt); checkPeer(c, peer, "Send_init", false);
  Req * r = newReq();
  r->send = true; r->persistent = true; r->buf = (char*)buf; r->count = count; r->dt = int(dt.value); r->peer = peer; r->tag = tag; r->comm = int(comm.value) - 1;
  req->value = r->id; return 0;
}
static int simRecvInit (void * buf, int count, NG_MPI_Datatype dt, int peer, int tag, NG_MPI_Comm comm, NG_MPI_Request * req)
{
  Comm & c = C(comm, "Recv_init"); D(dt); checkPeer(c, peer, "Recv_init", true);
  Req * r = newReq();
  r->persistent = true; r->buf = (char*)buf; r->count = count; r->dt = int(dt.value); r->peer = peer; r->tag = tag; r->comm = int(comm.value) - 1;
  req->value = r->id; return 0;
}
static int simStartall (int n, NG_MPI_Request * h)
{
  for (int k = 0; k < n; k++)
    {
      Yield();
      Req * r = R(h[k].value, "Startall");
      if (!r) Fatal("invalid-request", "Startall on a null request");
      if (!r->persistent) Fatal("invalid-request", "Startall on a request that is not persistent");
      if (r->active) Fatal("invalid-request", "Startall on a persistent request that is still active: " + reqStr(r));
      if (r->send) startSend(r); else startRecv(r);
    }
  return 0;
}
static int simRequestFree (NG_MPI_Request * h)
{
  if (h->value == 0) Fatal("invalid-request", "Request_free on a null request");
  Req * r = R(h->value, "Request_free");
  r->freed = true;
  if (r->active && r->complete) r->active = false;
  h->value = 0;
  return 0;
}

// ---- reductions
template<class T> static void red (T * a, const T * b, int n, int op)
{
  for (int i = 0; i < n; i++)
    switch (op)
      {
      case OP_SUM: a[i] = a[i] + b[i]; break;
      case OP_MAX: if (b[i] > a[i]) a[i] = b[i]; break;
      case OP_MIN: if (b[i] < a[i]) a[i] = b[i]; break;
      case OP_LOR: a[i] = (a[i] || b[i]); break;
      default: Fatal("invalid-op", "unknown reduction");
      }
}
static void reduce (char * a, const char * b, int count, int dt, int op)
{
  switch (dt)
    {
    case T_CHAR: red((signed char*)a, (const signed char*)b, count, op); break;
    case T_INT: red((int*)a, (const int*)b, count, op); break;
    case T_SHORT: red((short*)a, (const short*)b, count, op); break;
    case T_BOOL: red((unsigned char*)a, (const unsigned char*)b, count, op); break;
    case T_DOUBLE: red((double*)a, (const double*)b, count, op); break;
    case T_FLOAT: red((float*)a, (const float*)b, count, op); break;
    case T_U64: red((uint64_t*)a, (const uint64_t*)b, count, op); break;
    case T_CPLX: { if (op != OP_SUM) Fatal("invalid-op", "complex reduction"); red((double*)a, (const double*)b, 2 * count, op); break; }
    default: Fatal("invalid-op", "reduction on a derived datatype");
    }
}

// joins the next collective on the communicator; pred decides when this rank may leave
struct CollHandle { Comm * c; Coll * k; int me; int idx; };
static CollHandle joinColl (NG_MPI_Comm comm, const char * kind, int root, size_t bytes, int op, bool checkBytes = true)
{
  Comm & c = C(comm, kind);
  Yield();
  CollHandle h; h.c = &c; h.me = commRank(c, cur->rank);
  h.idx = c.collCount[h.me]++;
  Coll & k = c.colls[h.idx];
  h.k = &k;
  int n = int(c.members.size());
  if (k.joined == 0)
    {
      k.kind = kind; k.root = root; k.bytes = bytes; k.op = op;
      k.here.assign(n, 0); k.data.resize(n); k.ints.resize(n);
      W->res.colls++;
    }
  else if (k.kind != kind || k.root != root || k.op != op || (checkBytes && k.bytes != bytes))
    {
      stringstream ss;
      ss << "collective " << h.idx << " on " << c.origin << ": rank " << cur->rank << " calls " << kind << "(root " << root << ", " << bytes << " bytes, op " << op
         << "), another rank called " << k.kind << "(root " << k.root << ", " << k.bytes << " bytes, op " << k.op << ")";
      Fatal("collective-mismatch", ss.str());
    }
  if (root >= n || (root < 0 && root != -1)) Fatal("invalid-rank", string(kind) + " with an invalid root");
  k.here[h.me] = 1; k.joined++;
  ev(5, h.idx, comm.value, hashBytes(kind, strlen(kind)));
  return h;
}
static void waitColl (CollHandle & h, function<bool()> pred)
{
  if (!pred())
    {
      Coll * k = h.k; Comm * c = h.c; int idx = h.idx;
      Block(pred, [k,c,idx]{ stringstream ss; ss << "collective " << k->kind << " #" << idx << " on " << c->origin << " (" << k->joined << " of " << c->members.size() << " there)"; return ss.str(); });
    }
}
static void leaveColl (CollHandle & h)
{
  if (++h.k->left == int(h.c->members.size())) h.c->colls.erase(h.idx);
}
static bool allHere (CollHandle & h) { return h.k->joined == int(h.c->members.size()); }

static int simBarrier (NG_MPI_Comm comm)
{
  auto h = joinColl(comm, "Barrier", -1, 0, 0);
  waitColl(h, [&]{ return allHere(h); });
  leaveColl(h); return 0;
}
static void combine (CollHandle & h, vector<char> & out, int count, int dt, int op)
{
  // reduction order: fixed by rank (default) or permuted, the same for everybody in the collective
  int n = int(h.c->members.size());
  vector<int> ord(n); for (int i = 0; i < n; i++) ord[i] = i;
  if (W->cfg.p[K_ERED] > 0 || W->cfg.replay)
    {
      // derived from the identity of the collective only, so that all members see the same order
      uint64_t key = ckey(K_ERED, 0, uint32_t(h.idx * 131 + h.c->id));
      int v = 0;
      if (W->cfg.replay) { auto it = W->cfg.forced.find(key); if (it != W->cfg.forced.end()) v = it->second; }
      else { Rng r(W->seed ^ (key * 77)); if (r.uni() < W->cfg.p[K_ERED]) v = 1 + r.below(1000); }
      if (v) { Rng r(v); for (int i = n - 1; i > 0; i--) swap(ord[i], ord[r.below(i+1)]);
               if (h.me == 0) { W->res.fired[K_ERED]++; W->res.trace.push_back({key, v}); } }
    }
  out = h.k->data[ord[0]];
  for (int i = 1; i < n; i++) reduce(out.data(), h.k->data[ord[i]].data(), count, dt, op);
}
static int simAllreduce (void * sb, void * rb, int count, NG_MPI_Datatype dt, NG_MPI_Op op, NG_MPI_Comm comm)
{
  DType & d = D(dt); size_t n = d.size * count;
  auto h = joinColl(comm, "Allreduce", -1, n, int(op.value) * 100 + int(dt.value));
  void * s = (sb == NG::NG_MPI_IN_PLACE) ? rb : sb;
  h.k->data[h.me].assign((char*)s, (char*)s + n);
  evc(hashBytes(s, n));
  waitColl(h, [&]{ return allHere(h); });
  vector<char> out; combine(h, out, count, int(dt.value), int(op.value));
  if (n) memcpy(rb, out.data(), n);
  leaveColl(h); return 0;
}
static int simReduce (void * sb, void * rb, int count, NG_MPI_Datatype dt, NG_MPI_Op op, int root, NG_MPI_Comm comm)
{
  DType & d = D(dt); size_t n = d.size * count;
  auto h = joinColl(comm, "Reduce", root, n, int(op.value) * 100 + int(dt.value));
  void * s = (sb == NG::NG_MPI_IN_PLACE) ? rb : sb;
  h.k->data[h.me].assign((char*)s, (char*)s + n);
  evc(hashBytes(s, n));
  bool loose = Choose(K_COLL, 2) == 1;
  if (h.me == root)
    {
      waitColl(h, [&]{ return allHere(h); });
      vector<char> out; combine(h, out, count, int(dt.value), int(op.value));
      if (n) memcpy(rb, out.data(), n);
    }
  else if (!loose) waitColl(h, [&]{ return allHere(h); });
  leaveColl(h); return 0;
}
static int simReduceLocal (void * in, void * io, int count, NG_MPI_Datatype dt, NG_MPI_Op op)
{ reduce((char*)io, (const char*)in, count, int(dt.value), int(op.value)); return 0; }

static int simBcast (void * b, int count, NG_MPI_Datatype dt, int root, NG_MPI_Comm comm)
{
  DType & d = D(dt); size_t n = d.size * count;
  auto h = joinColl(comm, "Bcast", root, n, 0);
  bool loose = Choose(K_COLL, 2) == 1;
  if (h.me == root)
    {
      pack((char*)b, count, d, h.k->data[root]);
      evc(hashBytes(h.k->data[root].data(), n));
      if (!loose) waitColl(h, [&]{ return allHere(h); });
    }
  else
    {
      waitColl(h, [&]{ return loose ? bool(h.k->here[root]) : allHere(h); });
      unpack(h.k->data[root].data(), n, (char*)b, d);
    }
  leaveColl(h); return 0;
}
static int simGatherX (void * sb, int sc, NG_MPI_Datatype st, void * rb, int * rcs, int * displs, int rc1, NG_MPI_Datatype rt, int root, NG_MPI_Comm comm, const char * kind, bool allv)
{
  auto h = joinColl(comm, kind, root, 0, 0, false);
  int n = int(h.c->members.size());
  if (sb != NG::NG_MPI_IN_PLACE) { DType & d = D(st); pack((char*)sb, sc, d, h.k->data[h.me]); }
  bool loose = Choose(K_COLL, 2) == 1;
  bool isroot = allv || h.me == root;
  if (isroot)
    {
      waitColl(h, [&]{ return allHere(h); });
      DType & d = D(rt);
      for (int i = 0; i < n; i++)
        {
          int cnt = rcs ? rcs[i] : rc1; size_t off = displs ? displs[i] : size_t(rc1) * i;
          if (sb == NG::NG_MPI_IN_PLACE && i == h.me) continue;
          auto & v = h.k->data[i];
          if (v.size() != d.size * cnt) Fatal("collective-mismatch", string(kind) + ": contribution of " + to_string(v.size()) + " bytes, expected " + to_string(d.size * cnt));
          unpack(v.data(), v.size(), (char*)rb + off * d.extent, d);
          evc(hashBytes(v.data(), v.size()));
        }
    }
  else if (!loose) waitColl(h, [&]{ return allHere(h); });
  leaveColl(h); return 0;
}
static int simGather (void * sb, int sc, NG_MPI_Datatype st, void * rb, int rc, NG_MPI_Datatype rt, int root, NG_MPI_Comm comm)
{ return simGatherX(sb, sc, st, rb, nullptr, nullptr, rc, rt, root, comm, "Gather", false); }
static int simGatherv (void * sb, int sc, NG_MPI_Datatype st, void * rb, int * rcs, int * dis, NG_MPI_Datatype rt, int root, NG_MPI_Comm comm)
{ return simGatherX(sb, sc, st, rb, rcs, dis, 0, rt, root, comm, "Gatherv", false); }
static int simAllgather (void * sb, int sc, NG_MPI_Datatype st, void * rb, int rc, NG_MPI_Datatype rt, NG_MPI_Comm comm)
{ return simGatherX(sb, sc, st, rb, nullptr, nullptr, rc, rt, -1, comm, "Allgather", true); }
static int simScatter (void * sb, int sc, NG_MPI_Datatype st, void * rb, int rc, NG_MPI_Datatype rt, int root, NG_MPI_Comm comm)
{
  auto h = joinColl(comm, "Scatter", root, 0, 0, false);
  bool loose = Choose(K_COLL, 2) == 1;
  if (h.me == root)
    {
      DType & d = D(st);
      pack((char*)sb, sc * int(h.c->members.size()), d, h.k->data[root]);
      h.k->bytes = d.size * sc;
      if (rb != NG::NG_MPI_IN_PLACE) { DType & e = D(rt); unpack(h.k->data[root].data() + h.k->bytes * root, h.k->bytes, (char*)rb, e); }
      if (!loose) waitColl(h, [&]{ return allHere(h); });
    }
  else
    {
      waitColl(h, [&]{ return loose ? bool(h.k->here[root]) : allHere(h); });
      DType & e = D(rt);
      if (e.size * rc != h.k->bytes) Fatal("collective-mismatch", "Scatter with different sizes");
      unpack(h.k->data[root].data() + h.k->bytes * h.me, h.k->bytes, (char*)rb, e);
    }
  leaveColl(h); return 0;
}
static int simAlltoall (void * sb, int sc, NG_MPI_Datatype st, void * rb, int rc, NG_MPI_Datatype rt, NG_MPI_Comm comm)
{
  DType & d = D(st); DType & e = D(rt);
  auto h = joinColl(comm, "Alltoall", -1, d.size * sc, 0);
  int n = int(h.c->members.size());
  pack((char*)sb, sc * n, d, h.k->data[h.me]);
  evc(hashBytes(h.k->data[h.me].data(), h.k->data[h.me].size()));
  waitColl(h, [&]{ return allHere(h); });
  if (e.size * rc != h.k->bytes) Fatal("collective-mismatch", "Alltoall with different sizes");
  for (int i = 0; i < n; i++) unpack(h.k->data[i].data() + h.k->bytes * h.me, h.k->bytes, (char*)rb + size_t(i) * rc * e.extent, e);
  leaveColl(h); return 0;
}

// ---- communicators
static int simCommRank (NG_MPI_Comm c, int * r) { *r = commRank(C(c, "Comm_rank"), cur->rank); return 0; }
static int simCommSize (NG_MPI_Comm c, int * s) { *s = int(C(c, "Comm_size").members.size()); return 0; }
static int simCommC2F (NG_MPI_Comm c) { return int(c.value); }
static int simCommGroup (NG_MPI_Comm c, NG_MPI_Group * g) { W->groups.push_back(C(c, "Comm_group").members); *g = NG_MPI_Group(W->groups.size()); return 0; }
static int simGroupIncl (NG_MPI_Group g, int n, int * ranks, NG_MPI_Group * ng)
{
  if (g.value == 0 || g.value > W->groups.size()) Fatal("invalid-group", "Group_incl");
  vector<int> v; auto & src = W->groups[g.value - 1];
  set<int> seen;
  for (int i = 0; i < n; i++)
    {
      if (ranks[i] < 0 || ranks[i] >= int(src.size())) Fatal("invalid-rank", "Group_incl with rank " + to_string(ranks[i]) + " of " + to_string(src.size()));
      if (!seen.insert(ranks[i]).second) Fatal("invalid-rank", "Group_incl with a repeated rank");
      v.push_back(src[ranks[i]]);
    }
  W->groups.push_back(v); *ng = NG_MPI_Group(W->groups.size()); return 0;
}
static int mkComm (const vector<int> & members, const string & origin)
{
  auto c = make_unique<Comm>();
  c->id = int(W->comms.size()) + 1; c->members = members; c->freed.assign(members.size(), 0); c->collCount.assign(members.size(), 0);
  stringstream ss; ss << origin << "{"; for (auto m : members) ss << m << (m == members.back() ? "" : ","); ss << "}"; c->origin = ss.str();
  W->comms.push_back(move(c));
  return int(W->comms.size());
}
static int simCommCreate (NG_MPI_Comm c, NG_MPI_Group g, NG_MPI_Comm * out)
{
  auto h = joinColl(c, "Comm_create", -1, 0, 0);
  vector<int> grp = W->groups[g.value - 1];
  h.k->ints[h.me] = grp;
  waitColl(h, [&]{ return allHere(h); });
  bool in = find(grp.begin(), grp.end(), cur->rank) != grp.end();
  if (in)
    {
      for (int m : grp) { int mr = commRank(*h.c, m); if (mr < 0 || h.k->ints[mr] != grp) Fatal("collective-mismatch", "Comm_create with different groups"); }
      int id = 0;
      // the first member to get here creates it
      vector<long> key = { long(c.value), long(h.idx), 1 }; for (int m : grp) key.push_back(m);
      auto it = W->createGroupKeys.find(key);
      if (it == W->createGroupKeys.end()) { id = mkComm(grp, "comm" + to_string(W->comms.size() + 1)); W->createGroupKeys[key] = id; }
      else id = it->second;
      *out = uintptr_t(id);
    }
  else *out = uintptr_t(0);
  leaveColl(h);
  return 0;
}
static int simCommCreateGroup (NG_MPI_Comm c, NG_MPI_Group g, int tag, NG_MPI_Comm * out)
{
  Comm & cc = C(c, "Comm_create_group");
  Yield();
  auto grp = W->groups[g.value - 1];
  if (find(grp.begin(), grp.end(), cur->rank) == grp.end()) Fatal("invalid-communicator", "Comm_create_group by a rank outside of the group");
  for (int m : grp) if (commRank(cc, m) < 0) Fatal("invalid-communicator", "Comm_create_group with a rank outside of the parent");
  vector<long> key = { long(c.value), long(tag), 2 }; for (int m : grp) key.push_back(m);
  auto & p = W->createGroupPending[key];   // {generation id, joined}
  if (p.second == 0) p.first = mkComm(grp, "comm" + to_string(W->comms.size() + 1));
  int id = p.first;
  p.second++;
  ev(6, id);
  Comm * nc = W->comms[id-1].get();
  auto & joined = nc->collGroupCreate[0];
  joined++;
  if (p.second == int(grp.size())) { p.second = 0; }
  if (nc->collGroupCreate[0] < int(grp.size()))
    Block([nc]{ return nc->collGroupCreate[0] == int(nc->members.size()); }, [nc]{ return "Comm_create_group " + nc->origin + " (" + to_string(nc->collGroupCreate[0]) + " there)"; });
  *out = uintptr_t(id);
  return 0;
}
static int simCommFree (NG_MPI_Comm * c)
{
  if (!InSim()) { c->value = 0; return 0; }   // static destruction
  Comm & cc = C(*c, "Comm_free");
  cc.freed[commRank(cc, cur->rank)] = 1;
  ev(7, c->value);
  c->value = 0;
  return 0;
}

// ---- datatypes (these are cached in function statics of the code under test: no scheduling here)
static int addType (DType d) { dtypes.push_back(move(d)); return int(dtypes.size()) - 1; }
static void normalise (DType & d)
{
  vector<pair<ptrdiff_t,size_t>> b;
  for (auto & x : d.blocks) { if (!x.second) continue; if (b.size() && b.back().first + ptrdiff_t(b.back().second) == x.first) b.back().second += x.second; else b.push_back(x); }
  d.blocks = b;
  d.contig = (b.size() == 0) || (b.size() == 1 && b[0].first == 0 && b[0].second == d.extent);
}
static int simTypeStruct (int n, int * lens, NG_MPI_Aint * disp, NG_MPI_Datatype * types, NG_MPI_Datatype * out)
{
  DType d; size_t ext = 0;
  for (int i = 0; i < n; i++)
    {
      DType & e = dtypes[types[i].value];
      for (int k = 0; k < lens[i]; k++)
        {
          d.size += e.size;
          if (e.contig) d.blocks.push_back({disp[i].value + ptrdiff_t(k * e.extent), e.size});
          else for (auto & b : e.blocks) d.blocks.push_back({disp[i].value + ptrdiff_t(k * e.extent) + b.first, b.second});
        }
      ext = max(ext, size_t(disp[i].value) + lens[i] * e.extent);
    }
  d.extent = ext; normalise(d);
  *out = uintptr_t(addType(d)); return 0;
}
static int simTypeContig (int n, NG_MPI_Datatype t, NG_MPI_Datatype * out)
{ NG_MPI_Aint z; z.value = 0; return simTypeStruct(1, &n, &z, &t, out); }
static int simTypeIndexed (int n, int * lens, int * disp, NG_MPI_Datatype t, NG_MPI_Datatype * out)
{
  vector<NG_MPI_Aint> dd(n); vector<NG_MPI_Datatype> tt(n); size_t e = dtypes[t.value].extent;
  for (int i = 0; i < n; i++) { dd[i].value = intptr_t(disp[i]) * intptr_t(e); tt[i] = t; }
  return simTypeStruct(n, lens, dd.data(), tt.data(), out);
}
static int simTypeResized (NG_MPI_Datatype t, NG_MPI_Aint lb, NG_MPI_Aint ext, NG_MPI_Datatype * out)
{
  DType d = dtypes[t.value];
  if (d.contig && d.blocks.empty()) d.blocks.push_back({0, d.size});
  d.extent = ext.value; normalise(d); *out = uintptr_t(addType(d)); return 0;
}
static int simTypeCommit (NG_MPI_Datatype *) { return 0; }
static int simTypeFree (NG_MPI_Datatype * t) { t->value = 0; return 0; }
static int simTypeSize (NG_MPI_Datatype t, int * s) { *s = int(D(t).size); return 0; }
static int simTypeExtent (NG_MPI_Datatype t, NG_MPI_Aint * lb, NG_MPI_Aint * e) { lb->value = 0; e->value = D(t).extent; return 0; }

static double simWtime () { return 1e-6 * double(Now()); }
static int simInitialized (int * f) { *f = InSim() ? 1 : 0; return 0; }
static int simInit (int*, char***) { return 0; }
static int simInitThread (int*, char***, int, int * p) { if (p) *p = 3; return 0; }
static int simQuery (int * p) { *p = 3; return 0; }
static int simFinalize () { return 0; }
static int simProcName (char * n, int * l) { strcpy(n, "sim"); *l = 3; return 0; }

void InstallMPI ()
{
  using namespace ngcore;
  dtypes.resize(1);
  auto basic = [](size_t s) { DType d; d.size = d.extent = s; d.contig = true; d.blocks.push_back({0, s}); dtypes.push_back(d); };
  basic(1); basic(sizeof(int)); basic(sizeof(short)); basic(1); basic(8); basic(4); basic(8); basic(16);
  NG_MPI_CHAR = uintptr_t(T_CHAR); NG_MPI_INT = uintptr_t(T_INT); NG_MPI_SHORT = uintptr_t(T_SHORT); NG_MPI_C_BOOL = uintptr_t(T_BOOL);
  NG_MPI_DOUBLE = uintptr_t(T_DOUBLE); NG_MPI_FLOAT = uintptr_t(T_FLOAT); NG_MPI_UINT64_T = uintptr_t(T_U64); NG_MPI_CXX_DOUBLE_COMPLEX = uintptr_t(T_CPLX);
  NG_MPI_DATATYPE_NULL = uintptr_t(0);
  NG_MPI_LOR = uintptr_t(OP_LOR); NG_MPI_MAX = uintptr_t(OP_MAX); NG_MPI_MIN = uintptr_t(OP_MIN); NG_MPI_SUM = uintptr_t(OP_SUM);
  NG_MPI_COMM_NULL = uintptr_t(0); NG_MPI_COMM_WORLD = uintptr_t(1);
  NG_MPI_REQUEST_NULL = uintptr_t(0);
  NG_MPI_STATUS_IGNORE = nullptr; NG_MPI_STATUSES_IGNORE = nullptr;
  NG_MPI_ANY_SOURCE = -7; NG_MPI_ANY_TAG = -8; NG_MPI_PROC_NULL = -9; NG_MPI_ROOT = -10;
  NG_MPI_MAX_PROCESSOR_NAME = 64; NG_MPI_VERSION = 3; NG_MPI_SUBVERSION = 1; NG_MPI_THREAD_MULTIPLE = 3; NG_MPI_THREAD_SINGLE = 0;
  NG_MPI_IN_PLACE = (void*)(intptr_t)-1;
  NG_MPI_Wtime = simWtime; NG_MPI_Allgather = simAllgather; NG_MPI_Allreduce = simAllreduce; NG_MPI_Alltoall = simAlltoall; NG_MPI_Barrier = simBarrier;
  NG_MPI_Bcast = simBcast; NG_MPI_Comm_c2f = simCommC2F; NG_MPI_Comm_create = simCommCreate; NG_MPI_Comm_create_group = simCommCreateGroup;
  NG_MPI_Comm_free = simCommFree; NG_MPI_Comm_group = simCommGroup; NG_MPI_Comm_rank = simCommRank; NG_MPI_Comm_size = simCommSize;
  NG_MPI_Finalize = simFinalize; NG_MPI_Gather = simGather; NG_MPI_Gatherv = simGatherv; NG_MPI_Get_count = simGetCount;
  NG_MPI_Get_processor_name = simProcName; NG_MPI_Group_incl = simGroupIncl; NG_MPI_Init = simInit; NG_MPI_Init_thread = simInitThread;
  NG_MPI_Initialized = simInitialized; NG_MPI_Iprobe = simIprobe; NG_MPI_Irecv = simIrecv; NG_MPI_Isend = simIsend; NG_MPI_Probe = simProbe;
  NG_MPI_Query_thread = simQuery; NG_MPI_Recv = simRecv; NG_MPI_Recv_init = simRecvInit; NG_MPI_Reduce = simReduce; NG_MPI_Reduce_local = simReduceLocal;
  NG_MPI_Request_free = simRequestFree; NG_MPI_Scatter = simScatter; NG_MPI_Send = simSend; NG_MPI_Send_init = simSendInit; NG_MPI_Startall = simStartall;
  NG_MPI_Type_commit = simTypeCommit; NG_MPI_Type_contiguous = simTypeContig; NG_MPI_Type_create_resized = simTypeResized;
  NG_MPI_Type_create_struct = simTypeStruct; NG_MPI_Type_free = simTypeFree; NG_MPI_Type_get_extent = simTypeExtent; NG_MPI_Type_indexed = simTypeIndexed;
  NG_MPI_Type_size = simTypeSize; NG_MPI_Wait = simWait; NG_MPI_Waitall = simWaitall; NG_MPI_Waitany = simWaitany;
  pthread_key_create(&exitKey, taskExit);
}

// ------------------------------------------------------------------ Run
static int (*realCreate)(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*);
static int (*realJoin)(pthread_t, void**);
static void resolve ();

RunResult Run (const Config & cfg, std::function<void(int)> f)
{
  resolve();
  World * w = new World;   // never freed before the result is copied; parked helper threads may refer to it
  W = w;
  w->cfg = cfg;
  static int runCounter = 0;
  w->runIdx = cfg.runIdx >= 0 ? cfg.runIdx : runCounter; runCounter++;
  w->seed = cfg.seed + uint64_t(w->runIdx) * 0x51ED270B9F1Full;
  w->inbox.resize(cfg.np); w->posted.resize(cfg.np); w->dirty.assign(cfg.np, 0);
  w->res.exceptions.resize(cfg.np);
  vector<int> all(cfg.np); for (int i = 0; i < cfg.np; i++) all[i] = i;
  mkComm(all, "WORLD");
  if (cfg.mallocPerturb) mallopt(M_PERTURB, cfg.mallocPerturb); else mallopt(M_PERTURB, 0);
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 64 << 20);
  for (int i = 0; i < cfg.np; i++)
    {
      auto t = make_unique<Task>();
      t->id = i; t->rank = i; t->isRank = true;
      t->rng = Rng(w->seed * 1000003ull + i * 7919ull + 17);
      t->crand = Rng(4711 + i);
      t->body = [f, i, w] {
        try { f(i); }
        catch (const std::exception & e) { w->res.exceptions[i] = string("exception: ") + e.what(); Report("exception", "rank " + to_string(i) + ": " + e.what()); }
        catch (...) { w->res.exceptions[i] = "unknown exception"; Report("exception", "rank " + to_string(i) + ": unknown exception"); }
      };
      w->tasks.push_back(move(t));
    }
  w->ranksAlive = cfg.np;
  InstallTaskManager(cfg.tasks);
  for (auto & t : w->tasks) { if (realCreate(&t->th, &at, rankMain, t.get())) { perror("pthread_create"); abort(); } }
  vector<pthread_t> ths; for (auto & t : w->tasks) ths.push_back(t->th);
  w->running = w->tasks[0].get();
  futexWake(&w->tasks[0]->go);
  futexWait(&w->mainGo);
  for (auto & t : ths) realJoin(t, nullptr);
  // ---- end of run: nothing may be left over
  bool exc = false; for (auto & e : w->res.exceptions) if (e.size()) exc = true;
  if (!exc)
    {
      stringstream ss; int n = 0;
      for (auto & in : w->inbox) for (auto m : in) if (n++ < 3) ss << " (rank " << m->src << " -> " << m->dst << " tag " << m->tag << " " << m->nbytes << " bytes on " << w->comms[m->comm]->origin << ")";
      if (n) Report("unreceived-message", to_string(n) + " message(s) were sent but never received:" + ss.str());
      stringstream s2; n = 0;
      for (auto & r : w->reqs) if (r && (r->active || (r->persistent && !r->freed)) && !(r->send && r->freed))
        if (n++ < 3) s2 << " (rank " << r->owner << " " << reqStr(r.get()) << (r->persistent ? " persistent" : "") << (r->complete ? " complete" : " incomplete") << ")";
      if (n) Report("request-leak", to_string(n) + " request(s) never completed by a wait or freed:" + s2.str());
      stringstream s3; n = 0;
      for (auto & c : w->comms) if (c->id > 1) for (size_t k = 0; k < c->members.size(); k++) if (!c->freed[k] && n++ < 3) s3 << " (" << c->origin << " on rank " << c->members[k] << ")";
      if (n) Report("communicator-leak", to_string(n) + " communicator handle(s) never freed:" + s3.str());
      stringstream s4; n = 0;
      for (auto & c : w->comms) if (c->colls.size()) { n++; s4 << " " << c->origin << ":" << c->colls.begin()->second.kind; }
      if (n) Report("collective-incomplete", "collectives not entered by all ranks:" + s4.str());
    }
  mallopt(M_PERTURB, 0);
  w->res.simTime = w->now;
  w->res.ok = w->res.violations.empty();
  RunResult r = w->res;
  W = nullptr;
  bool parked = false; for (auto & t : w->tasks) if (t->st != Task::DONE) parked = true;
  if (!parked) delete w;
  return r;
}

// ------------------------------------------------------------------ pthread seam
static int (*rLock)(pthread_mutex_t*); static int (*rTry)(pthread_mutex_t*); static int (*rUnlock)(pthread_mutex_t*);
static int (*rCWait)(pthread_cond_t*, pthread_mutex_t*); static int (*rCSig)(pthread_cond_t*); static int (*rCBro)(pthread_cond_t*);
static int (*rCTimed)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
static int (*rCClock)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
static int (*rDetach)(pthread_t);
static volatile int resolved = 0;
static void resolve ()
{
  if (resolved) return;
  rLock = (decltype(rLock))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  rTry = (decltype(rTry))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  rUnlock = (decltype(rUnlock))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  auto v = [](const char * n) { void * p = dlvsym(RTLD_NEXT, n, "GLIBC_2.3.2"); return p ? p : dlsym(RTLD_NEXT, n); };
  rCWait = (decltype(rCWait))v("pthread_cond_wait");
  rCSig = (decltype(rCSig))v("pthread_cond_signal");
  rCBro = (decltype(rCBro))v("pthread_cond_broadcast");
  rCTimed = (decltype(rCTimed))v("pthread_cond_timedwait");
  rCClock = (decltype(rCClock))dlsym(RTLD_NEXT, "pthread_cond_clockwait");
  realCreate = (decltype(realCreate))dlsym(RTLD_NEXT, "pthread_create");
  realJoin = (decltype(realJoin))dlsym(RTLD_NEXT, "pthread_join");
  rDetach = (decltype(rDetach))dlsym(RTLD_NEXT, "pthread_detach");
  resolved = 1;
}

struct Waiter { pthread_cond_t * c; bool sig = false; };
static vector<Waiter*> waiters;
static bool haveBG () { return W->res.bgThreads > 0; }

struct SimDisk
{
  enum { MAXFD = 256 };
  static char mode[MAXFD];   // 0: works, 3: full, 4: short writes, 5: input/output error
  static int open (const char * fn, const char * m)
  {
    if (!InSim() || diskDir.empty() || !(strchr(m, 'w') || strchr(m, 'a')) || (fn[0] == '/' && strncmp(fn, diskDir.c_str(), diskDir.size()))) return 0;
    return Choose(K_DISK, 6);
  }
  static size_t length (int fd, size_t n)
  {
    if (fd < 0 || fd >= MAXFD || !mode[fd] || n == 0) return n;
    if (mode[fd] == 4) return n > 1 ? n / 2 : n;
    errno = mode[fd] == 3 ? ENOSPC : EIO; return ~size_t(0);
  }
};
static Rng looseRand(1);
char SimDisk::mode[SimDisk::MAXFD];
struct SimPth
{
  static int lock (pthread_mutex_t * m)
  {
    if (haveBG()) Yield();
    if (rTry(m) == 0) return 0;
    while (rTry(m) != 0)
      Block([m]{ if (rTry(m) == 0) { rUnlock(m); return true; } return false; }, []{ return string("mutex lock"); });
    return 0;
  }
  static int wait (pthread_cond_t * c, pthread_mutex_t * m, uint64_t wakeAt)
  {
    Yield();    // between the test of the condition and the enrolment as a waiter: whoever notifies without holding the mutex gets in here
    Waiter w{c};
    waiters.push_back(&w);
    rUnlock(m);
    bool spurious = Choose(K_SPUR, 2) == 1;
    if (spurious) Yield();
    else Block([&w]{ return w.sig; }, []{ return string("condition variable wait"); }, wakeAt);
    waiters.erase(find(waiters.begin(), waiters.end(), &w));
    int rc = (!w.sig && !spurious) ? ETIMEDOUT : 0;
    lock(m);
    return rc;
  }
  static int signal (pthread_cond_t * c, bool all)
  {
    vector<Waiter*> v; for (auto w : waiters) if (w->c == c && !w->sig) v.push_back(w);
    if (v.empty()) return 0;
    if (all) for (auto w : v) w->sig = true;
    else v[Choose(K_SPUR, int(v.size()))]->sig = true;
    return 0;
  }
  static int create (pthread_t * th, void*(*st)(void*), void * arg)
  {
    auto t = make_unique<Task>();
    t->id = int(W->tasks.size()); t->rank = cur->rank; t->start = st; t->arg = arg;
    t->rng = Rng(W->seed * 1000003ull + t->id * 7919ull + 17);
    Task * p = t.get();
    W->tasks.push_back(move(t));
    W->res.bgThreads++;
    int rc = realCreate(&p->th, nullptr, rankMain, p);
    *th = p->th;
    Yield();
    return rc;
  }
  static int join (pthread_t th, void ** ret)
  {
    Task * p = nullptr;
    for (auto & t : W->tasks) if (!t->isRank && pthread_equal(t->th, th)) p = t.get();
    if (p && p->st != Task::DONE) Block([p]{ return p->st == Task::DONE; }, []{ return string("thread join"); });
    return realJoin(th, ret);
  }
};

// ------------------------------------------------------------------ shared memory tasks
struct SimTasks
{
  static bool on () { return InSim() && W->cfg.tasks > 0; }
  static int n () { return W->cfg.tasks; }
};

} // namespace sim

extern "C"
{
int pthread_mutex_lock (pthread_mutex_t * m) { if (!sim::resolved) sim::resolve(); if (sim::InSim()) return sim::SimPth::lock(m); return sim::rLock(m); }
int pthread_cond_wait (pthread_cond_t * c, pthread_mutex_t * m) { if (!sim::resolved) sim::resolve(); if (sim::InSim()) return sim::SimPth::wait(c, m, ~0ull); return sim::rCWait(c, m); }
int pthread_cond_timedwait (pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * ts) { if (!sim::resolved) sim::resolve(); if (sim::InSim()) return sim::SimPth::wait(c, m, sim::Now() + 1000); return sim::rCTimed(c, m, ts); }
int pthread_cond_clockwait (pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const struct timespec * ts) { if (!sim::resolved) sim::resolve(); if (sim::InSim()) return sim::SimPth::wait(c, m, sim::Now() + 1000); return sim::rCClock(c, m, k, ts); }
int pthread_cond_signal (pthread_cond_t * c) { if (!sim::resolved) sim::resolve(); if (sim::InSim()) return sim::SimPth::signal(c, false); return sim::rCSig(c); }
int pthread_cond_broadcast (pthread_cond_t * c) { if (!sim::resolved) sim::resolve(); if (sim::InSim()) return sim::SimPth::signal(c, true); return sim::rCBro(c); }
int pthread_create (pthread_t * t, const pthread_attr_t * a, void*(*f)(void*), void * arg) { if (!sim::resolved) sim::resolve(); if (sim::InSim()) return sim::SimPth::create(t, f, arg); return sim::realCreate(t, a, f, arg); }
// the disk seam: files the program writes in its working directory, see ScratchDir
FILE * fopen (const char * fn, const char * mode)
{
  static FILE * (*real)(const char*, const char*) = (FILE*(*)(const char*, const char*))dlsym(RTLD_NEXT, "fopen");
  int k = sim::SimDisk::open(fn, mode);
  if (k == 1 || k == 2) { errno = k == 1 ? ENOSPC : EMFILE; return nullptr; }
  FILE * f = real(fn, mode);
  if (f && fileno(f) >= 0 && fileno(f) < sim::SimDisk::MAXFD) sim::SimDisk::mode[fileno(f)] = k;
  return f;
}
FILE * fopen64 (const char * fn, const char * mode) { return fopen(fn, mode); }
ssize_t write (int fd, const void * b, size_t n)
{
  n = sim::SimDisk::length(fd, n); if (n == ~size_t(0)) return -1;
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev (int fd, const struct iovec * v, int n)
{
  if (fd >= 0 && fd < sim::SimDisk::MAXFD && sim::SimDisk::mode[fd]) return n ? write(fd, v[0].iov_base, v[0].iov_len) : 0;
  return syscall(SYS_writev, fd, v, n);
}
int pthread_join (pthread_t t, void ** r) { if (!sim::resolved) sim::resolve(); if (sim::InSim()) return sim::SimPth::join(t, r); return sim::realJoin(t, r); }
void srand (unsigned s) { sim::Rng g(s + 77); if (sim::InSim()) sim::cur->crand = g; else sim::looseRand = g; }
int rand () { if (sim::InSim()) return int(sim::cur->crand.next() & 0x7fffffff); return int(sim::looseRand.next() & 0x7fffffff); }
}

namespace ngcore
{
// the shared-memory task seam: tasks of one job run one after the other in a simulated order, on simulated threads
void TaskManager :: CreateJob (const function<void(TaskInfo&)> & afunc, int antasks)
{
  if (antasks < 0) { num_threads = -antasks; thread_id = 0; return; }
  if (!sim::SimTasks::on() || sim::cur->inTask || antasks <= 1)
    {
      TaskInfo ti; ti.ntasks = max(antasks, 1); ti.thread_nr = TaskManager::thread_id; ti.nthreads = sim::SimTasks::on() ? sim::SimTasks::n() : 1;
      for (ti.task_nr = 0; ti.task_nr < ti.ntasks; ti.task_nr++) afunc(ti);
      return;
    }
  int n = antasks, nt = sim::SimTasks::n();
  vector<int> ord(n); for (int i = 0; i < n; i++) ord[i] = i;
  int v = sim::Choose(sim::K_TASK, 1000);
  sim::Rng r(v * 3 + 1);
  if (v) for (int i = n - 1; i > 0; i--) swap(ord[i], ord[r.below(i+1)]);
  sim::W->res.taskJobs++;
  sim::cur->inTask = true;
  int save = TaskManager::thread_id;
  TaskInfo ti; ti.ntasks = n; ti.nthreads = nt;
  for (int i = 0; i < n; i++)
    {
      ti.task_nr = ord[i];
      ti.thread_nr = v ? r.below(nt) : ord[i] % nt;
      TaskManager::thread_id = ti.thread_nr;
      afunc(ti);
    }
  TaskManager::thread_id = save;
  sim::cur->inTask = false;
}
// dependencies start worker threads of their own around single calls (e.g. the sparse factorisation): here, there is always a task
// manager, which never has worker threads
void RunWithTaskManager (function<void()> alg) { alg(); }
int EnterTaskManager () { return 0; }
void ExitTaskManager (int) { }
void TaskManager :: StartWorkers () { }
void TaskManager :: StopWorkers () { }
}
namespace sim
{
void InstallTaskManager (int threads)
{
  if (!ngcore::task_manager) ngcore::task_manager = new ngcore::TaskManager();
  // timers of the dependencies count per thread
  static ngcore::TTimePoint * tt = new ngcore::TTimePoint[ngcore::NgProfiler::SIZE * 64](), * tf = new ngcore::TTimePoint[ngcore::NgProfiler::SIZE * 64]();
  ngcore::NgProfiler::thread_times = tt; ngcore::NgProfiler::thread_flops = tf;
  ngcore::TaskManager::CreateJob([](ngcore::TaskInfo &){}, -max(1, threads));   // (see CreateJob: sets the number of threads)
}
}
