// Scenario families that compare whole executions with each other.
#include "session.hpp"
namespace sim { extern int fillByte; }
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
namespace harness
{
namespace
{
// the working directory of the simulated program, removed at the end
struct ScratchDir
{
  string old, dir;
  ScratchDir () { char c[4096]; old = getcwd(c, 4096) ? c : "/"; string t = "/tmp/ngsamg_sim." + to_string(getpid()); if (mkdir(t.c_str(), 0700) == 0) { dir = t; if (chdir(t.c_str())) { } sim::diskDir = dir; } }
  vector<string> List () { vector<string> v; if (DIR * d = opendir(dir.c_str())) { while (auto * e = readdir(d)) if (e->d_name[0] != '.') v.push_back(e->d_name); closedir(d); } return v; }
  int Files () { return List().size(); }
  // (of a process that was ended early: see main.cpp)
  ~ScratchDir () { sim::diskDir = ""; if (dir.empty()) return; for (auto & f : List()) unlink((dir + "/" + f).c_str()); if (chdir(old.c_str())) { } rmdir(dir.c_str()); }
};
struct Obs { vector<double> x, x2; vector<size_t> lev; double amp = 0; bool singular = false, refused = false; string refusal, rest; uint64_t sched = 0, content = 0; long steps = 0; };
typedef function<void(Session &, int rank, Obs &)> Extra;
// sets the preconditioner up and applies it; run: which run of the scenario this counts as
void observe (const Params & p, const Problem & pr, Outcome & o, bool fuzz, int run, Obs & r, Extra extra = nullptr, function<bool(Session &)> setup = nullptr)
{
  Config cfg = MakeConfig(p, fuzz && !PI(p, "sim.off", 0)); cfg.runIdx = run;
  RunResult rr = sim::Run(cfg, [&](int rank) {
    Session s(p);
    if (!(setup ? setup(s) : s.Setup(pr))) { if (rank == 0) { r.refused = true; r.refusal = s.refusal; } return; }
    if (SingularCoarse(s)) { if (rank == 0) { r.refused = r.singular = true; o.stat["singular_coarse_skipped"] += 1; } return; }
    auto b = s.c.A->CreateColVector(), x = s.c.A->CreateColVector();
    ScatterSplit(*s.num, s.RandomVec(5), &*b, 11);
    s.c.pc->Mult(*b, *x);
    x.Cumulate();
    auto G = GatherVec(*s.num, &*x);
    Require(G.error.empty(), "copies", "result of the preconditioner: " + G.error);
    auto m = s.am->GetMap(); long nl = MaxRank(m->GetNLevels()); vector<size_t> lev;
    for (int l = 0; l < nl; l++) { long k = l < m->GetNLevels() && m->GetUDofs(l).IsValid() ? m->GetUDofs(l).GetNDGlob() : -1; lev.push_back(MaxRank(k)); }
    if (rank == 0) { r.x = G.v; r.lev = lev; r.amp = s.amp; }
    if (extra) extra(s, rank, r);
  });
  r.sched = rr.schedHash; r.content = rr.contentHash; r.steps = rr.steps;
  o.Add(rr); sim::hashMix(o.hash, sim::hashBytes(r.x.data(), r.x.size() * 8));
}
string levs (const vector<size_t> & v) { string t; for (auto x : v) t += S(x) + " "; return t; }
// false: nothing more to compare
bool same (Outcome & o, const Obs & a, const Obs & b, double tol, const string & cls, const string & what)
{
  if (o.viol.size() || a.singular || b.singular) return false;
  if (a.refused != b.refused) { o.Fail(cls, what + ": the setup is refused or not: " + a.refusal + b.refusal); return false; }
  if (a.refused) return false;
  if (a.lev != b.lev) { o.Fail(cls, what + ": the sizes of the levels differ: " + levs(a.lev) + "/ " + levs(b.lev)); return false; }
  double d = relDiff(a.x, b.x); o.stat["max_rel"] = max(o.stat["max_rel"], d); o.stat[d == 0 ? "bitwise_equal" : "not_bitwise_equal"] += 1;
  if (!(d <= tol + (tol > 1e-13 ? 100 * max(a.amp, b.amp) : 0))) { o.Fail(cls, what + ": the results differ by " + S(d)); return false; }
  return true;
}
}

// ------------------------------------------------------------------ C16: nothing depends on what memory contained before
static Params gen16 (uint64_t seed, bool th)
{
  Rng r(seed * 1299709 + 16); Params p = GenBase(seed, th, r, 6, 120, FL_ALL, false);
  p["fillA"] = S(r.pick(vector<int>{0, 0, 1, 63})); p["fillB"] = S(r.pick(vector<int>{255, 255, 127, 127, 191, 254}));
  return p;
}
static void run16 (const Params & p, Outcome & o)
{
  Problem pr = MakeProblem(p); Obs a, b; Params pa = p, pb = p; pa["sim.fill"] = P(p, "fillA"); pb["sim.fill"] = P(p, "fillB");
  sim::fillByte = PI(p, "fillA"); observe(pa, pr, o, true, 1, a);
  sim::fillByte = PI(p, "fillB"); observe(pb, pr, o, true, 1, b);
  sim::fillByte = 0;
  if (o.viol.size()) return;
  o.stat[a.sched == b.sched ? "same_schedule" : "other_schedule"] += 1; o.stat[a.content == b.content ? "same_messages" : "other_messages"] += 1;
  if (!same(o, a, b, 0, "uninitialised", "memory filled with " + P(p, "fillA") + " and " + P(p, "fillB"))) return;
  o.nontrivial = a.lev.size() > 1;
}
static RegisterCheck c16("C16", gen16, run16);

// ------------------------------------------------------------------ C17: options about execution and diagnostics do not change the result
static Params gen17 (uint64_t seed, bool th)
{
  Rng r(seed * 1299709 + 17); Params p = GenBase(seed, th, r, 6, 120, FL_ALL, false);
  auto alt = [&](const string & k, const string & v) { p["alt." + k] = v; };
  auto flag = [&](const string & k) { alt("f.ngs_amg_" + k, r.flip(0.5) ? "b:1" : "b:0"); };
  if (r.flip(0.5)) { int k = r.below(3); alt("f.ngs_amg_sm_NG_MPI_overlap", k ? "b:1" : "b:0"); alt("f.ngs_amg_sm_NG_MPI_thread", k == 2 ? "b:1" : "b:0"); }
  if (r.flip(0.3)) flag("sync");
  if (r.flip(0.3)) flag("keep_grid_maps");
  if (r.flip(0.5)) alt("sim.tasks", S(r.pick(vector<int>{2, 3, 4, 7})));
  if (r.flip(0.4)) { alt("f.ngs_amg_log_level", "s:" + r.pick(vector<string>{"basic", "normal", "extra", "debug"})); if (r.flip(0.5)) flag("print_log"); if (r.flip(0.5)) alt("f.ngs_amg_log_file", "s:log_levels.txt"); }
  if (r.flip(0.4)) { alt("f.ngs_amg_log_level_pc", "s:" + r.pick(vector<string>{"basic", "normal", "extra", "debug"})); if (r.flip(0.5)) flag("print_log_pc"); if (r.flip(0.5)) alt("f.ngs_amg_log_file_pc", "s:log_pc.txt"); }
  for (auto k : {"do_test", "test_levels", "test_smoothers", "check_kvecs"}) if (r.flip(0.12)) alt("f.ngs_amg_" + string(k), "b:1");
  if (r.flip(0.015)) { Params q; for (auto & kv : p) if (kv.first.compare(0, 4, "alt.")) q.insert(kv); p = q; alt("f.ngs_amg_test_2level", "b:1"); }   // see known_findings.txt
  if (r.flip(0.5)) p["sim.p.disk_error"] = S(r.pick(vector<double>{0.1, 0.5, 1}));
  return p;
}
static void run17 (const Params & p, Outcome & o)
{
  Problem pr = MakeProblem(p); Obs a, b; Params pb = p;
  for (auto & kv : p) if (kv.first.compare(0, 4, "alt.") == 0) pb[kv.first.substr(4)] = kv.second;
  ScratchDir dir;   // for log files
  observe(p, pr, o, true, 1, a);
  if (o.viol.size()) return;
  observe(pb, pr, o, true, 2, b);
  if (o.viol.size()) return;
  o.stat["log_files"] += dir.Files();
  if (!same(o, a, b, 1e-9, "option-changes-result", "options of execution or diagnostics")) return;
  o.nontrivial = a.lev.size() > 1;
}
static RegisterCheck c17("C17", gen17, run17);

// ------------------------------------------------------------------ C19: setting up again equals setting up anew
static Params gen19 (uint64_t seed, bool th)
{
  Rng r(seed * 1299709 + 19); Params p = GenBase(seed, th, r, 6, 110, FL_ALL, false);
  if (P(p, "mode", "alg") == "mesh" && r.flip(0.6)) { p["m.nmat"] = S(r.range(2, 4)); if (!p.count("m.jump")) p["m.jump"] = "1"; }
  p["hist.n"] = S(r.range(1, th ? 5 : 3)); p["hist.back"] = S(r.flip(0.3)); if (r.flip(0.3)) p["hist.realloc"] = "1";
  return p;
}
static void run19 (const Params & p, Outcome & o)
{
  Problem pr = MakeProblem(p); int n = PI(p, "hist.n", 1); Obs a, b; vector<Params> ps(n + 1, p); vector<Problem> pp;
  for (int k = 0; k <= n; k++) { ps[k]["hist.k"] = S(k == n && PI(p, "hist.back") ? 0 : k); pp.push_back(Perturb(pr, ps[k])); }
  int last = n;   // step at which the setup was refused
  observe(p, pr, o, true, 1, a, nullptr, [&](Session & s) {
    if (!s.Setup(pp[0])) { last = 0; return false; }
    for (int k = 1; k <= n; k++)
      {
        if (k % 2) { auto b = s.c.A->CreateColVector(), x = s.c.A->CreateColVector(); ScatterSplit(*s.num, s.RandomVec(50 + k), &*b, 3 + k); s.c.pc->Mult(*b, *x); }
        if (!s.Resetup(pp[k], ps[k])) { last = k; return false; }
      }
    return true; });
  if (o.viol.size()) return;
  observe(ps[last], pp[last], o, true, 2, b);
  if (!same(o, a, b, 1e-9, "history-dependent", "preconditioner after " + S(n) + " repeated setups and a new one")) return;
  o.nontrivial = a.lev.size() > 1;
}
static RegisterCheck c19("C19", gen19, run19);

// ------------------------------------------------------------------ C08: coarse spaces contain the near-kernel
static Params gen08 (uint64_t seed, bool th)
{
  Rng r(seed * 1299709 + 8); Params p = GenBase(seed, th, r, 6, 110, FL_LEVELS | FL_CRS | FL_PROL, false, 1, 0.6);
  p["f.ngs_amg_enable_multistep"] = "b:0";
  return p;
}
static void run08 (const Params & p, Outcome & o)
{
  Problem pr = MakeProblem(p);
  Sim(p, o, true, [&](int rank) {
    Session s(p);
    if (!s.Setup(pr)) return;
    auto H = ProbeHierarchy(*s.am, HV_P | HV_A); OracleKernel(s, *H, o);
    if (rank == 0) o.nontrivial = H->size() > 1;
  });
}
static RegisterCheck c08("C08", gen08, run08);

// ------------------------------------------------------------------ C14: options do what they say
// kind bounds: sizes and numbers of levels; steps: several / symmetric steps of a smoother; specall, spec0: lists of values for levels
static Params gen14 (uint64_t seed, bool th)
{
  Rng r(seed * 1299709 + 14); Params p = GenBase(seed, th, r, 8, 90, FL_ALL, false);
  auto key = [](const string & k) { return "f.ngs_amg_" + k; };
  int kind = r.below(4);
  if (kind == 0)
    {
      p["kind"] = "bounds";
      if (r.flip(0.7)) p[key("max_coarse_size")] = "n:" + S(r.pick(vector<int>{1, 2, 3, 5, 8, 12}));
      if (r.flip(0.5)) p[key("max_levels")] = "n:" + S(r.range(2, 5));
      if (r.flip(0.5)) p[key("min_coarse_size")] = "n:" + S(r.pick(vector<int>{2, 3, 5, 8}));
    }
  else if (kind == 1)
    {
      p["kind"] = "steps"; p[key("sm_steps")] = "n:" + S(r.range(1, 4)); p[key("sm_symm")] = r.flip(0.5) ? "b:1" : "b:0";
    }
  else
    {
      p["kind"] = kind == 2 ? "specall" : "spec0";
      struct Opt { const char * name; char t; vector<string> v; };
      static const vector<Opt> opts = {
        {"sm_steps", 'n', {"1", "2", "3"}}, {"sm_symm", 'b', {"0", "1"}}, {"sm_type", 's', {"gs", "bgs"}},
        {"prol_type", 's', {"piecewise", "aux_smoothed", "semi_aux_smoothed"}}, {"sp_omega", 'n', {"0.5", "0.7", "1"}}, {"sp_max_per_row", 'n', {"1", "2", "3", "4"}},
        {"sp_max_per_row_classic", 'n', {"2", "3", "5", "8"}}, {"sp_min_frac", 'n', {"0.05", "0.2", "0.4"}},
        {"crs_alg", 's', {"spw", "mis"}}, {"crs_robust", 'b', {"0", "1"}}, {"edge_thresh", 'n', {"0.01", "0.1", "0.3"}}, {"spw_rounds", 'n', {"1", "2", "3"}},
        {"spw_orphan_treatment", 'b', {"0", "1"}}, {"spw_pick_robust", 'b', {"0", "1"}}, {"spw_neib_boost", 'b', {"0", "1"}}, {"spw_cbs", 'b', {"0", "1"}}, {"spw_pick_avg", 's', {"min", "geom", "harm", "alg", "max"}},
        {"mis_neib_boost", 'b', {"0", "1"}}, {"mis_dist2", 'b', {"0", "1"}}, {"mis_ecw_geom", 'b', {"0", "1"}}, {"mis_ecw_minmax", 'b', {"0", "1"}}, {"mis_minmax_avg", 's', {"min", "geom", "harm", "alg", "max"}},
        {"ecw_stab_hack", 'b', {"0", "1"}}};
      string base = "spec";
      for (int k = r.range(1, 3); k > 0; k--)
        {
          auto & o = r.pick(opts); string n = o.name; if ((P(p, "mode") == "mesh" && n == "sm_type") || p.count("spec." + n)) continue;
          string v = r.pick(o.v), w = r.pick(o.v); if (v == w) w = r.pick(o.v);
          if (n == "sm_type" && PI(p, "np", 1) == 1 && P(p, key("sm_type")) == "s:jacobi") p.erase(key("sm_type"));
          string l = v; if (kind == 2) for (int j = 0; j < 11; j++) l += "," + v;
          p[key(n)] = string(1, o.t) + ":" + v; p["spec." + n] = string(1, o.t) + ":" + w + ";l" + (o.t == 's' ? "s:" : "n:") + l;
          if (p.count("spec.crs_alg")) continue;   // (keeps the algorithm drawn for the first step)
          if (n.compare(0, 3, "mis") == 0) p[key("crs_alg")] = "s:mis";
          if (n.compare(0, 3, "spw") == 0) p[key("crs_alg")] = "s:spw";
        }
    }
  return p;
}
static void run14 (const Params & p, Outcome & o)
{
  Problem pr = MakeProblem(p); string kind = P(p, "kind"); auto key = [](const string & k) { return "f.ngs_amg_" + k; };
  auto num = [&](const string & k, double d) { string v = P(p, key(k)); return v.size() > 2 ? atof(v.c_str() + 2) : d; };
  if (kind == "bounds")
    {
      Sim(p, o, true, [&](int rank) {
        Session s(p);
        if (!s.Setup(pr)) return;
        auto H = ProbeHierarchy(*s.am, 0); long L = H->size();
        if (rank) return;
        long ml = num("max_levels", 0), mx = num("max_coarse_size", 0), mn = num("min_coarse_size", 0);
        if (ml >= 2) Require(L <= ml, "too-many-levels", S(L) + " levels, max_levels is " + S(ml));
        for (long l = 1; l < L; l++)
          {
            long n = (*H)[l].num->nglob;
            Require(n >= mn, "level-too-small", "level " + S(l) + " has " + S(n) + " DOFs, min_coarse_size is " + S(mn));
            if (l + 1 < L) Require(n > mx, "coarsened-further", "level " + S(l) + " has " + S(n) + " DOFs and is not the coarsest one, max_coarse_size is " + S(mx));
            if (l >= 2) Require(n < (*H)[l-1].num->nglob, "level-not-smaller", "levels " + S(l-1) + " and " + S(l) + " have " + S((*H)[l-1].num->nglob) + " and " + S(n) + " DOFs");
          }
        o.nontrivial = L > 2 || ml == 2;
      });
      return;
    }
  struct Data { vector<Dense> A, F, B; Dense P0; string err; };
  Params pb = p; Data da, db; Obs a, b;
  if (kind == "steps") { pb[key("sm_steps")] = "n:1"; pb[key("sm_symm")] = "b:0"; }
  for (auto & kv : p) if (kv.first.compare(0, 5, "spec.") == 0) { auto q = kv.second.find(';'); string n = kv.first.substr(5); pb[key(n)] = kv.second.substr(0, q); pb[key(n) + "_spec"] = kv.second.substr(q + 1); }
  auto collect = [&](Data & d) { return [&](Session & s, int rank, Obs &) {
    auto H = ProbeHierarchy(*s.am, HV_A | HV_P); Data D;
    for (size_t l = 0; l + 1 < H->size(); l++)
      {
        D.A.push_back((*H)[l].A); D.F.push_back(ProbeSmoother(s, (*H)[l], l, false, D.err)); D.B.push_back(ProbeSmoother(s, (*H)[l], l, true, D.err)); D.err += (*H)[l].errA;
        if (kind == "spec0") break;
      }
    D.P0 = (*H)[0].P; D.err += (*H)[0].errP;
    if (rank == 0) { d = D; Require(D.err.empty(), "smoother", D.err); }
  }; };
  observe(p, pr, o, true, 1, a, collect(da));
  if (o.viol.size()) return;
  observe(pb, pr, o, true, 1, b, collect(db));
  if (o.viol.size()) return;
  string names; for (auto & kv : p) if (kv.first.compare(0, 5, "spec.") == 0) names += kv.first.substr(5) + " ";
  if (kind == "specall") { if (!same(o, a, b, 1e-9, "list-of-values", "one value and a list of equal values for " + names)) return; o.nontrivial = a.lev.size() > 1; return; }
  if (a.singular || b.singular || (kind == "spec0" && (a.refused || b.refused))) return;
  if (kind == "spec0")
    {
      if (a.refused || b.refused || !da.F.size() || !db.F.size()) return;
      auto cmp = [&](const Dense & x, const Dense & y, const string & what) {
        if (x.h != y.h || x.w != y.w) { o.Fail("value-of-level", what + " depends on options of other levels: size " + S(x.h) + "x" + S(x.w) + " and " + S(y.h) + "x" + S(y.w) + ", " + names); return; }
        double d = Sub(x, y).maxabs(); if (!(d <= 1e-9 * max(x.maxabs(), 1e-300))) o.Fail("value-of-level", what + " depends on options of other levels: " + S(d) + " of " + S(x.maxabs()) + ", " + names); };
      cmp(da.P0, db.P0, "the prolongation to level 0"); cmp(da.F[0], db.F[0], "the smoother of level 0"); cmp(da.B[0], db.B[0], "the backward smoother of level 0");
      o.nontrivial = a.lev.size() > 2 || b.lev.size() > 2; return;
    }
  // steps
  if (a.refused != b.refused || a.lev != b.lev) { o.Fail("hierarchy", "options of the smoother change the hierarchy: " + levs(a.lev) + "/ " + levs(b.lev)); return; }
  if (a.refused) return;
  int k = num("sm_steps", 1); bool symm = P(p, key("sm_symm")) == "b:1";
  for (size_t l = 0; l < da.F.size(); l++)
    for (int back = 0; back < 2; back++)
      {
        auto & A = db.A[l]; int n = A.h; Dense X(n, n);
        auto relax = [&](const Dense & M) { Dense R(n, n); for (int i = 0; i < n; i++) R(i, i) = 1; R = Mul(M, Sub(R, Mul(A, X))); for (size_t q = 0; q < X.a.size(); q++) X.a[q] += R.a[q]; };
        for (int j = 0; j < k; j++) if (symm) { relax(db.F[l]); relax(db.B[l]); } else relax(back ? db.B[l] : db.F[l]);
        double d = Sub(X, back ? da.B[l] : da.F[l]).maxabs(), sc = max(X.maxabs(), 1e-300); o.stat["max_rel"] = max(o.stat["max_rel"], d / sc);
        if (!(d <= 1e-8 * sc)) { o.Fail("steps", "level " + S(l) + ": " + S(k) + (symm ? " symmetric" : "") + (back ? " backward" : "") + " steps of the smoother differ from as many single steps by " + S(d / sc)); return; }
      }
  o.nontrivial = da.F.size() > 0 && (k > 1 || symm);
}
static RegisterCheck c14("C14", gen14, run14);
}
