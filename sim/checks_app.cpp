// Scenario families about applying the preconditioner and about its parts.
#include "session.hpp"
#include <dcc_map.hpp>
namespace harness
{
// the code closes the sets of ranks that share vertices under intersection; of irregular partitions onto many ranks there are exponentially many
static bool tooManyRankSets (const Params & p, size_t lim)
{
  Problem pr = MakeProblem(p);
  vector<set<vector<int>>> byRank(pr.np); set<vector<int>> all;
  vector<vector<int>> todo;
  auto add = [&](const vector<int> & v) { if (v.size() > 1 && all.insert(v).second) todo.push_back(v); };
  for (auto & v : pr.mesh ? pr.mesh->procs : pr.procs) { auto w = v; std::sort(w.begin(), w.end()); add(w); }
  for (size_t i = 0; i < todo.size(); i++)
    {
      if (all.size() > lim) return true;
      auto cur = todo[i];
      for (size_t j = 0; j < i && all.size() <= lim; j++)
        { vector<int> m; std::set_intersection(cur.begin(), cur.end(), todo[j].begin(), todo[j].end(), back_inserter(m)); add(m); }
    }
  return all.size() > lim;
}
Params GenBase (uint64_t seed, bool th, Rng & r, int lo, int hi, int what, bool heavy, int minnp, double mesh)
{
  static const char * force = getenv("SIM_MESH");
  bool m = r.flip(mesh); if (force) m = atoi(force);
  Params p = m ? GenMesh(seed, th, r, min(th ? hi * 3 / 2 : hi, 150)) : GenAlg(seed, th, r);
  if (PI(p, "np") < minnp) p["np"] = S(r.range(minnp, minnp + 3));
  static const char * fmany = getenv("SIM_MANY"); bool many = (what & FL_LEVELS) && r.flip(fmany ? atof(fmany) : 0.12);   // contraction of many ranks to several groups
  if (many) p["np"] = S(r.range(7, 14));
  if (!m) p["a.n"] = S(r.range(lo, th ? hi * 3 / 2 : hi));
  if (many && !m)
    {
      p["a.n"] = S(r.range(hi / 2, hi));
      if (P(p, "a.graph") == "star") p["a.graph"] = "grid2";
      if (P(p, "a.part") == "randel" || P(p, "a.part") == "rand") p["a.part"] = r.flip(0.5) ? "blob" : "strip";   // the sets of ranks that share vertices are closed under intersection
    }
  GenFlags(p, r, what); GenFaults(p, r, heavy);
  if (many)
    for (auto t : vector<pair<string, string>>{ {"rd_seq_nv", "0"}, {"rd_min_nv_gl", "1"}, {"rd_min_nv_thresh", "30"}, {"rd_pfac", r.flip(0.5) ? "0.5" : "0.35"}, {"rd_loc_thresh", "0.01"} })
      p["f.ngs_amg_" + t.first] = "n:" + t.second;
  if (m && P(p, "m.pde") != "h1") p.erase(P(p, "f.ngs_amg_sm_type") == "s:jacobi" ? "f.ngs_amg_sm_type" : "-");   // blocks of size 6 are refused
  static const char * flim = getenv("SIM_RANKSETS");
  while (PI(p, "np") > 5 && tooManyRankSets(p, flim ? atoi(flim) : 150)) p["np"] = S(PI(p, "np") - 1);
  return p;
}
static Params base (uint64_t seed, bool th, int salt, int lo, int hi, int what, bool heavy, Rng & r, int minnp = 1) { (void)salt; return GenBase(seed, th, r, lo, hi, what, heavy, minnp); }
#define GEN(NAME, SALT, LO, HI, WHAT, HEAVY) static Params NAME (uint64_t seed, bool th) { Rng r(seed * 1299709 + SALT); Params p = base(seed, th, SALT, LO, HI, WHAT, HEAVY, r); return p; }

static vector<double> rndv (int n, uint64_t seed) { vector<double> g(n); Rng q(seed); for (auto & t : g) t = q.uni() - 0.5; return g; }
static int Vwb (const Params & p) { string c = P(p, "f.ngs_amg_mg_cycle"); return c == "s:W" ? 1 : c == "s:BS" ? 2 : 0; }
static void mixHash (Outcome & o, const vector<double> & v) { sim::hashMix(o.hash, sim::hashBytes(v.data(), v.size() * 8)); }

// ------------------------------------------------------------------ C01: the result does not depend on timing
struct Obs { vector<double> x; vector<size_t> lev; double amp = 0; bool singular = false; bool refused = false; string refusal; };
static void observe (const Params & p, const Problem & pr, Outcome & o, bool fuzz, Obs & r)
{
  Sim(p, o, fuzz, [&](int rank) {
    Session s(p);
    if (!s.Setup(pr)) { if (rank == 0) { r.refused = true; r.refusal = s.refusal; } return; }
    if (SingularCoarse(s)) { if (rank == 0) { r.refused = r.singular = true; o.stat["singular_coarse_skipped"] += 1; } return; }
    auto b = s.c.A->CreateColVector(), x = s.c.A->CreateColVector();
    ScatterSplit(*s.num, s.RandomVec(5), &*b, 11);
    s.c.pc->Mult(*b, *x);
    x.Cumulate();
    auto G = GatherVec(*s.num, &*x);
    Require(G.error.empty(), "copies", "result of the preconditioner: " + G.error);
    auto m = s.am->GetMap(); long nl = MaxRank(m->GetNLevels()); vector<size_t> lev;
    for (int l = 0; l < nl; l++) { long k = l < m->GetNLevels() && m->GetUDofs(l).IsValid() ? m->GetUDofs(l).GetNDGlob() : -1; lev.push_back(MaxRank(k)); }
    if (rank == 0) { r.x = G.v; r.lev = lev; r.amp = s.amp; }
  });
  mixHash(o, r.x);
}
GEN(gen01, 1, 10, 140, FL_ALL, false)
static void run01 (const Params & p, Outcome & o)
{
  Problem pr = MakeProblem(p); Obs a; observe(p, pr, o, false, a);
  if (o.viol.size()) return;
  for (int k = 0; k < 2; k++)
    {
      Obs b; observe(p, pr, o, true, b);
      if (o.viol.size()) return;
      if (a.singular || b.singular) return;
      if (a.refused != b.refused) { o.Fail("schedule-dependent", "the setup is refused or not depending on the schedule: " + a.refusal + b.refusal); return; }
      if (a.refused) return;
      if (a.lev != b.lev) { string t; for (auto x : a.lev) t += S(x) + " "; t += "/ "; for (auto x : b.lev) t += S(x) + " "; o.Fail("schedule-dependent", "the sizes of the levels depend on the schedule: " + t); return; }
      double d = relDiff(a.x, b.x); o.stat["max_rel"] = max(o.stat["max_rel"], d); o.stat[d == 0 ? "bitwise_equal" : "not_bitwise_equal"] += 1;
      if (!(d <= 1e-9 + 100 * a.amp)) { o.Fail("schedule-dependent", "the result depends on the schedule: relative difference " + S(d)); return; }
    }
  o.nontrivial = a.lev.size() > 1 && pr.np > 1;
}
static RegisterCheck c01("C01", gen01, run01);

// ------------------------------------------------------------------ C02: progress
static Params gen02 (uint64_t seed, bool th)
{
  Rng r(seed * 1299709 + 2); Params p = base(seed, th, 2, 6, 140, FL_ALL, true, r, 2);
  if (r.flip(0.5)) p["sim.strict"] = "1"; else if (r.flip(0.5)) p["sim.p.rendezvous_send"] = "1";
  if (r.flip(0.4)) { p["sim.p.rank_stall"] = "0.02"; p["sim.victim"] = S(r.below(PI(p, "np"))); }
  return p;
}
static void run02 (const Params & p, Outcome & o)
{
  Problem pr = MakeProblem(p);
  Sim(p, o, true, [&](int rank) {
    Session s(p);
    if (!s.Setup(pr)) return;
    auto b = s.c.A->CreateColVector(), x = s.c.A->CreateColVector();
    for (int k = 0; k < 2; k++)
      {
        ScatterSplit(*s.num, s.RandomVec(5 + k), &*b, 11);
        s.c.pc->Mult(*b, *x);
        if (k) s.c.pc->MultAdd(0.5, *b, *x);
      }
    x.Cumulate();
    auto G = GatherVec(*s.num, &*x, 1e300);
    if (rank == 0) { o.nontrivial = pr.np > 1; mixHash(o, G.v); }
  });
}
static RegisterCheck c02("C02", gen02, run02);

// ------------------------------------------------------------------ C03: hygiene
static Params gen03 (uint64_t seed, bool th)
{
  Rng r(seed * 1299709 + 3); Params p = base(seed, th, 3, 6, 110, FL_ALL, true, r, 2);
  if (r.flip(0.7)) p["sim.p.late_send_copy"] = r.flip(0.5) ? "1" : "0.4";
  p["reps"] = S(r.range(1, 3)); if (r.flip(0.4)) p["again"] = S(r.range(1, 2));
  return p;
}
static void run03 (const Params & p, Outcome & o)
{
  Problem pr = MakeProblem(p); vector<Params> ps(3, p); vector<Problem> pp;
  for (int j = 0; j < 3; j++) { ps[j]["hist.k"] = S(j); pp.push_back(Perturb(pr, ps[j])); }
  Sim(p, o, true, [&](int rank) {
    for (int k = 0; k < PI(p, "reps", 1); k++)
      {
        Session s(p);
        if (!s.Setup(pr)) return;
        for (int j = 1; j <= PI(p, "again", 0); j++) { if (!s.Resetup(pp[j], ps[j])) return; }
        auto b = s.c.A->CreateColVector(), x = s.c.A->CreateColVector();
        ScatterSplit(*s.num, s.RandomVec(5 + k), &*b, 11);
        s.c.pc->Mult(*b, *x);
        x.Cumulate();
        auto G = GatherVec(*s.num, &*x, 1e300);
        if (rank == 0) { o.nontrivial = pr.np > 1; mixHash(o, G.v); }
      }
  });
}
static RegisterCheck c03("C03", gen03, run03);

// ------------------------------------------------------------------ C05: applying it
GEN(gen05, 5, 6, 110, FL_ALL, false)
static void run05 (const Params & p, Outcome & o)
{
  Problem pr = MakeProblem(p);
  Sim(p, o, true, [&](int rank) {
    Session s(p);
    if (!s.Setup(pr)) return;
    if (SingularCoarse(s)) { if (rank == 0) o.stat["singular_coarse_skipped"] += 1; return; }
    auto & pc = *s.c.pc; auto & num = *s.num; int n = s.N(); Rng q(PI(p, "a.seed") + 3);
    double nrm = 0, tolR = pr.mesh ? 1e-9 : 1e-10;
    // how: 0 cumulated, 1 distributed with zeros, 2 distributed at random; op 0 Mult 1 MultTrans 2 MultAdd 3 MultTransAdd
    auto apply = [&](const BaseMatrix & B, const vector<double> & g, int how, int op, double a, const vector<double> & y0, int yhow, uint64_t sp) {
      auto b = s.c.A->CreateColVector(), x = s.c.A->CreateColVector();
      if (how == 2) ScatterSplit(num, g, &*b, sp); else ScatterVec(num, g, &*b, how == 1);
      if (op < 2) { auto f = x.FVDouble(); f = 1e10; x.SetParallelStatus(yhow ? DISTRIBUTED : CUMULATED); }
      else if (yhow == 2) ScatterSplit(num, y0, &*x, sp + 1); else ScatterVec(num, y0, &*x, yhow == 1);
      switch (op) { case 0: B.Mult(*b, *x); break; case 1: B.MultTrans(*b, *x); break; case 2: B.MultAdd(a, *b, *x); break; default: B.MultTransAdd(a, *b, *x); }
      string e1, e2; auto r = ValueOf(num, &*x, e1), bb = ValueOf(num, &*b, e2);
      if (rank == 0) { Require(e1.empty(), "application", "result: " + e1); Require(e2.empty(), "application", "input: " + e2); Require(e2.size() || relDiff(bb, g) <= 1e-10, "input-changed", "the input was changed by the application: " + S(relDiff(bb, g))); }
      return r;
    };
    auto u = rndv(n, 21), v = rndv(n, 22), y0 = rndv(n, 23); double al = q.uni() * 4 - 2, be = q.uni() * 4 - 2;
    auto comb = [&](double a, const vector<double> & x, double b, const vector<double> & y) { vector<double> z(x.size()); for (size_t k = 0; k < z.size(); k++) z[k] = a * x[k] + b * y[k]; return z; };
    auto Bu = apply(pc, u, 1, 0, 0, y0, 0, 1), Bv = apply(pc, v, 1, 0, 0, y0, 0, 2);
    nrm = max(maxAbs(Bu), maxAbs(Bv));
    auto same = [&](const vector<double> & a, const vector<double> & b, double tol, const string & cls, const string & what) { if (rank) return; double d = 0; for (size_t k = 0; k < a.size(); k++) { double t = fabs(a[k] - b[k]); if (!(t <= d)) d = t; } Require(d <= (tol + s.amp) * max(nrm, 1e-300), cls, what + ": difference " + S(d) + " (max " + S(nrm) + ")"); };
    same(apply(pc, comb(al, u, be, v), 1, 0, 0, y0, 1, 3), comb(al, Bu, be, Bv), 1e-9 * 6, "not-linear", "the application is not linear");
    same(apply(pc, u, 0, 0, 0, y0, 1, 4), Bu, 1e-10, "status-dependent", "a cumulated and a distributed input give different results");
    same(apply(pc, u, 2, 0, 0, y0, 0, 5), Bu, 1e-9, "status-dependent", "the result depends on how a distributed input is split");
    same(apply(pc, u, q.below(3), 1, 0, y0, q.below(2), 6), Bu, 1e-9, "not-symmetric", "transposed application");
    { double sc = max(1.0, maxAbs(y0)); nrm = max(nrm, sc);
      same(apply(pc, u, q.below(3), 2, al, y0, 0, 7), comb(1, y0, al, Bu), 1e-9, "mult-add", "adding a multiple of the application to a cumulated vector");
      same(apply(pc, u, q.below(3), 2, al, y0, 1 + q.below(2), 8), comb(1, y0, al, Bu), 1e-9, "mult-add", "adding a multiple of the application to a distributed vector");
      same(apply(pc, u, q.below(3), 3, be, y0, q.below(3), 9), comb(1, y0, be, Bu), 1e-9, "mult-add", "adding a multiple of the transposed application"); }
    nrm = max(maxAbs(Bu), maxAbs(Bv));
    same(apply(pc, u, 1, 0, 0, y0, 0, 1), Bu, tolR, "not-repeatable", "the same input gives another result after other applications");
    // a second preconditioner for the same matrix must not interfere
    Params p2 = p; { Rng z(PI(p, "a.seed") + 9); GenFlags(p2, z, FL_ALL); if (pr.mesh && P(p, "m.pde") != "h1") p2.erase("f.ngs_amg_sm_type"); }
    Session t(p2); t.pr = s.pr; t.c = s.c; t.c.pc = nullptr; t.c.prec = nullptr; t.num = s.num;
    if (t.BuildPrecond() && !SingularCoarse(t))
      {
        s.amp = max(s.amp, t.amp);
        auto Cu = apply(*t.c.pc, u, 1, 0, 0, y0, 0, 1);
        same(apply(pc, u, 1, 0, 0, y0, 0, 1), Bu, tolR, "interference", "the result changes after another preconditioner was set up");
        double n0 = nrm; nrm = maxAbs(Cu); same(apply(*t.c.pc, u, 1, 0, 0, y0, 0, 1), Cu, tolR, "interference", "the result of the second preconditioner changes after the first one was applied"); nrm = n0;
        t.am = nullptr; t.c.pc = nullptr; t.c.prec = nullptr;
        same(apply(pc, u, 1, 0, 0, y0, 0, 1), Bu, tolR, "interference", "the result changes after another preconditioner was destroyed");
      }
    if (rank == 0) { o.nontrivial = n > 4; mixHash(o, Bu); }
  });
}
static RegisterCheck c05("C05", gen05, run05);

// ------------------------------------------------------------------ C06: distribution of the DOFs
GEN(gen06, 6, 8, 130, FL_LEVELS | FL_CRS | FL_PROL | FL_CYCLE, false)
static void run06 (const Params & p, Outcome & o)
{
  Problem pr = MakeProblem(p);
  Sim(p, o, true, [&](int rank) {
    Session s(p);
    if (!s.Setup(pr)) return;
    auto H = ProbeHierarchy(*s.am, 0); OracleDist(s, *H);
    auto m = s.am->GetMap(); int nl = m->GetNLevels();
    for (int l = 0; l < int(H->size()); l++)
      {
        auto & N = *(*H)[l].num; if (N.error.size()) continue;
        bool here = N.here[rank];
        // global enumeration: of sets of DOFs that are distributed over several ranks
        if (AnyRank(here && l < nl && m->GetParDofs(l) == nullptr)) continue;
        string b; if (here) { auto g = m->GetGlobDNums(l); for (size_t d = 0; d < N.l2g[rank].size(); d++) { int x = d < g.Size() ? g[d] : -1; b.append((char*)&x, 4); } }
        { auto & all = ShareBlobs(b); string e; vector<int> of(N.nglob, -1), inv(N.nglob, -1);
          for (int r = 0; r < N.np; r++) if (N.here[r]) for (size_t d = 0; d < N.l2g[r].size(); d++)
            { int x; memcpy(&x, all[r].data() + 4 * d, 4); int g = N.l2g[r][d];
              if (x < 0 || x >= N.nglob) e = "number " + S(x) + " out of range"; else { if (of[g] != -1 && of[g] != x) e = "copies of a DOF have different global numbers"; of[g] = x; if (inv[x] != -1 && inv[x] != g) e = "two DOFs have the same global number"; inv[x] = g; } }
          sim::OutOfBandBarrier();
          if (rank == 0) Require(e.empty(), "global-numbering", "level " + S(l) + ": " + e); }
        // concentrated vectors on this set of DOFs
        auto pd = here && l < nl ? m->GetParDofs(l) : nullptr;
        if (AnyRank(pd != nullptr))
          {
            auto mk = [&] { return m->CreateVector(l); };
            unique_ptr<amg::BasicDCCMap<double>> dm; if (here && pd) dm = make_unique<amg::BasicDCCMap<double>>(pd);
            OracleDCC(s, N, dm.get(), mk, "level " + S(l) + ": ", 100 + l, o);
          }
      }
    // sizes as told by the library
    long L = H->size();
    long nlev = s.am->GetNLevels(0);
    if (rank == 0) { Require(nlev == L, "level-count", "the number of levels is reported as " + S(nlev) + ", there are " + S(L)); }
    for (int l = 0; l < L && l < nl; l++) if (l < L) { } 
    if (rank == 0) { o.nontrivial = L > 1 && pr.np > 1; for (auto & v : *H) { long k = 0; for (char h : v.num->here) k += h; o.stat[k < pr.np ? "levels_on_fewer_ranks" : "levels_on_all_ranks"] += 1; } }
  });
}
static RegisterCheck c06("C06", gen06, run06);

// ------------------------------------------------------------------ C07: transfer
GEN(gen07, 7, 8, 90, FL_LEVELS | FL_CRS | FL_PROL, false)
static void run07 (const Params & p, Outcome & o)
{
  Problem pr = MakeProblem(p);
  Sim(p, o, true, [&](int rank) {
    Session s(p);
    if (!s.Setup(pr)) return;
    auto H = ProbeHierarchy(*s.am, HV_P | HV_R); OracleAdjoint(s, *H); OracleDirichletP(s, *H);
    auto m = s.am->GetMap(); int nl = m->GetNLevels(); int L = H->size(); Rng q(PI(p, "a.seed") + 1);
    for (auto & v : *H) if (v.num->error.size() || v.errP.size() || v.errR.size()) { if (rank == 0) Require(false, "transfer", v.num->error + v.errP + v.errR); return; }
    auto mv = [](const Dense & A, const vector<double> & x) { vector<double> y(A.h, 0.0); for (int i = 0; i < A.h; i++) for (int j = 0; j < A.w; j++) y[i] += A(i, j) * x[j]; return y; };
    for (int l = 0; l + 1 < L; l++)
      {
        auto & F = *(*H)[l].num; auto & C = *(*H)[l+1].num; auto & P = (*H)[l].P;
        bool hf = F.here[rank], hc = C.here[rank];
        // every transfer, from and onto vectors of any state; what is transferred must not change
        for (int k = 0; k < 6; k++)
          {
            // 0, 1 AddC2F; 2 TransferC2F; 3, 4 TransferF2C; 5 AddF2C
            auto xc = rndv(P.w, 31 + k), xf = rndv(P.h, 41 + k); double a = k < 2 || k == 5 ? q.uni() * 4 - 2 : 1.0; uint64_t sp = q.next();
            int how1 = q.below(3), how2 = k < 2 ? 2 * k : q.below(3); bool up = k < 3;
            unique_ptr<BaseVector> vf, vc; if (hf) vf = m->CreateVector(l); if (hc) vc = m->CreateVector(l+1);
            auto scat = [&](auto & N, const vector<double> & x, BaseVector * v, int how, uint64_t sp) { if (how == 2) ScatterSplit(N, x, v, sp); else ScatterVec(N, x, v, how == 1); };
            scat(F, xf, vf.get(), up ? how2 : how1, sp); scat(C, xc, vc.get(), up ? how1 : how2, sp + 1);
            if (k == 2 && vf) vf->FVDouble() = 3.0;
            if ((k == 3 || k == 4) && vc) vc->FVDouble() = 3.0;
            if (hf) { if (k < 2) m->AddC2F(l, a, vf.get(), vc.get()); else if (k == 2) m->TransferC2F(l, vf.get(), vc.get()); else if (k < 5) m->TransferF2C(l, vf.get(), vc.get()); else m->AddF2C(l, a, vf.get(), vc.get()); }
            string e, e2; auto r = up ? ValueOf(F, vf.get(), e) : ValueOf(C, vc.get(), e); auto in = up ? ValueOf(C, vc.get(), e2) : ValueOf(F, vf.get(), e2);
            auto w = up ? mv(P, xc) : mv(Trans(P), xf);
            if (k < 2) for (size_t i = 0; i < w.size(); i++) w[i] = xf[i] + a * w[i];
            if (k == 5) for (size_t i = 0; i < w.size(); i++) w[i] = xc[i] + a * w[i];
            static const char * nm[] = { "adding the prolongation", "adding the prolongation", "prolongation", "restriction", "restriction", "adding the restriction" };
            static const char * st[] = { "cumulated", "distributed", "split" };
            string what = "level " + S(l) + ": " + nm[k] + " (" + st[how1] + " onto " + st[how2] + ")";
            if (rank == 0)
              {
                Require(e.empty(), "transfer", what + ": " + e); Require(e2.empty(), "transfer", what + ": input: " + e2);
                if (e.empty() && e2.empty())
                  { double d = relDiff(r, w); Require(d <= 1e-9, "transfer", what + " is off by " + S(d)); d = relDiff(in, up ? xc : xf); Require(d <= 1e-12, "transfer", what + " changes its input by " + S(d)); }
              }
          }
        // no coarse DOF is without effect
        if (rank == 0)
          {
            Dense Q = P;
            if (Singular(p))   // single rotations (and displacements) can be without effect, a whole vertex must not
              {
                int cb = C.bs; Dense R(P.h, P.w / cb);
                for (int j = 0; j < P.w; j++) for (int i = 0; i < P.h; i++) R(i, j / cb) += fabs(P(i, j));
                Q = R;
              }
            // scaled: coefficients of the problem may differ by many orders of magnitude
            for (int i = 0; i < Q.h; i++) { double m = 0; for (int j = 0; j < Q.w; j++) m = max(m, fabs(Q(i, j))); if (m > 0) for (int j = 0; j < Q.w; j++) Q(i, j) /= m; }
            for (int j = 0; j < Q.w; j++) { double m = 0; for (int i = 0; i < Q.h; i++) m += Q(i, j) * Q(i, j); Require(m > 0 && isfinite(m), "rank-deficient", "level " + S(l) + ": coarse unknown " + S(j) + " has no effect on the finer level"); if (m > 0) for (int i = 0; i < Q.h; i++) Q(i, j) /= sqrt(m); }
            Dense G = Mul(Trans(Q), Q); auto ev = EigSym(G);
            if (G.h && !Singular(p)) Require(ev[0] > 1e-13 * ev[G.h-1], "rank-deficient", "level " + S(l) + ": the prolongation does not have full rank: " + S(ev[0]) + " of " + S(ev[G.h-1]));
          }
        (void)nl;
      }
    // across several levels at once
    if (L > 2)
      for (int dir = 0; dir < 2; dir++)
      {
        Dense P = (*H)[0].P; for (int l = 1; l + 1 < L; l++) P = Mul(P, (*H)[l].P);
        auto & F = *(*H)[0].num; auto & C = *(*H)[L-1].num;
        bool hf = F.here[rank], hc = C.here[rank];
        unique_ptr<BaseVector> vf, vc; if (hf) vf = m->CreateVector(0); if (hc) vc = m->CreateVector(L-1);
        if (dir == 0)
          {
            auto xc = rndv(P.w, 61); if (q.flip(0.5)) ScatterSplit(C, xc, vc.get(), 6); else ScatterVec(C, xc, vc.get(), false);
            m->TransferAtoB(min(L, nl) - 1, 0, vc.get(), vf.get());
            string e; auto r = ValueOf(F, vf.get(), e); auto w = mv(P, xc);
            if (rank == 0) { Require(e.empty(), "transfer", e); if (e.empty()) Require(relDiff(r, w) <= 1e-9, "transfer", "prolongation across all levels differs from going level by level: " + S(relDiff(r, w))); }
          }
        else
          {
            auto xf = rndv(P.h, 71); ScatterSplit(F, xf, vf.get(), 5);
            m->TransferAtoB(0, min(L, nl) - 1, vf.get(), vc.get());
            string e; auto r = ValueOf(C, vc.get(), e); auto w = mv(Trans(P), xf);
            if (rank == 0) { Require(e.empty(), "transfer", e); if (e.empty()) Require(relDiff(r, w) <= 1e-9, "transfer", "restriction across all levels differs from going level by level: " + S(relDiff(r, w))); }
          }
      }
    if (rank == 0) { o.nontrivial = L > 1; o.stat["levels"] += L; }
  });
}
static RegisterCheck c07("C07", gen07, run07);

// ------------------------------------------------------------------ C09: Galerkin
GEN(gen09, 9, 8, 100, FL_LEVELS | FL_CRS | FL_PROL | FL_CYCLE, false)
static void run09 (const Params & p, Outcome & o)
{
  Problem pr = MakeProblem(p);
  Sim(p, o, true, [&](int rank) {
    Session s(p);
    if (!s.Setup(pr)) return;
    auto H = ProbeHierarchy(*s.am, HV_P | HV_A); OracleGalerkin(s, *H);
    if (rank == 0)
      for (size_t l = 1; l < H->size(); l++)
        {
          auto & v = (*H)[l]; if (!v.hasA || v.errA.size() || !v.A.h) continue;
          Dense t = v.A; for (int i = 0; i < t.h; i++) for (int j = 0; j < i; j++) t(i, j) = t(j, i) = 0.5 * (t(i, j) + t(j, i));
          auto ev = EigSym(t); Require(ev[0] > (Singular(p) ? -1e-12 : 1e-13) * ev[t.h-1], "not-positive", "level " + S(l) + ": the coarse operator is not positive definite: " + S(ev[0]) + " of " + S(ev[t.h-1]));
          o.stat["operators"] += 1;
        }
    if (SingularCoarse(s, H.get()) && s.singular && rank == 0) Require(false, "singular-coarse", "displacement formulation of elasticity: the coarsest operator is singular although no diagonal block of it is");
    if (rank == 0) o.nontrivial = H->size() > 1;
  });
}
static RegisterCheck c09("C09", gen09, run09);

// ------------------------------------------------------------------ C10: hybrid matrices
GEN(gen10, 10, 6, 80, FL_LEVELS | FL_CRS | FL_PROL, false)
static void run10 (const Params & p, Outcome & o)
{
  Problem pr = MakeProblem(p);
  Sim(p, o, true, [&](int rank) {
    Session s(p);
    s.BuildProblem(pr);
    uint64_t sd = PI(p, "a.seed");
    // straight from the matrix of the problem
    if (pr.np > 1)
    {
      shared_ptr<BaseMatrix> h;
      switch (pr.bs) { case 1: h = make_shared<amg::HybridMatrix<double>>(s.c.A); break; case 2: h = make_shared<amg::HybridMatrix<Mat<2,2,double>>>(s.c.A); break; default: h = make_shared<amg::HybridMatrix<Mat<3,3,double>>>(s.c.A); }
      OracleHybrid(s, *s.num, h, s.A, "finest matrix: ", sd + 1, o);
    }
    if (!s.BuildPrecond()) return;
    auto H = ProbeHierarchy(*s.am, HV_A);
    for (size_t l = 0; l < H->size(); l++)
      {
        auto & v = (*H)[l]; if (!v.hasA) continue;
        if (v.errA.size() || v.num->error.size()) { if (rank == 0) Require(false, "hybrid-product", "level " + S(l) + ": " + v.errA + v.num->error); continue; }
        auto A = v.num->here[rank] && int(l) < s.am->GetMap()->GetNLevels() ? s.am->GetMatrix(l) : nullptr;
        OracleHybrid(s, *v.num, A, v.A, "level " + S(l) + ": ", sd + 2 + l, o);
      }
    if (rank == 0) o.nontrivial = pr.np > 1;
  });
}
static RegisterCheck c10("C10", gen10, run10);

// ------------------------------------------------------------------ C11: smoothers
GEN(gen11, 11, 6, 60, FL_LEVELS | FL_CRS | FL_PROL | FL_SMOOTH, false)
static void run11 (const Params & p, Outcome & o)
{
  Problem pr = MakeProblem(p);
  Sim(p, o, true, [&](int rank) {
    Session s(p);
    if (!s.Setup(pr)) return;
    auto H = ProbeHierarchy(*s.am, HV_A);
    for (size_t l = 0; l < H->size(); l++) OracleSmoother(s, (*H)[l], l, 17 + l, o);
    if (rank == 0) o.nontrivial = pr.np > 1;
  });
}
static RegisterCheck c11("C11", gen11, run11);

// ------------------------------------------------------------------ C12: the cycle
GEN(gen12, 12, 8, 60, FL_ALL, false)
static void run12 (const Params & p, Outcome & o)
{
  Problem pr = MakeProblem(p);
  Sim(p, o, true, [&](int rank) {
    Session s(p);
    if (!s.Setup(pr)) return;
    if (SingularCoarse(s)) { if (rank == 0) o.stat["singular_coarse_skipped"] += 1; return; }
    string err; Dense B = ProbePC(s, *s.c.pc, err);
    if (err.size()) { if (rank == 0) Require(false, "application", err); return; }
    auto H = ProbeHierarchy(*s.am, HV_A | HV_P | HV_R);
    OracleCycle(s, *H, B, Vwb(p), o);
    if (rank == 0) o.nontrivial = H->size() > 2;
  });
}
static RegisterCheck c12("C12", gen12, run12);
}
