#include "session.hpp"
namespace harness
{
// ------------------------------------------------------------------ C04: symmetric positive definite
static Params gen04 (uint64_t seed, bool th) { Rng r(seed * 104729 + 4); Params p = GenBase(seed, th, r, 8, 60, FL_ALL, false);
  if (P(p, "mode") == "mesh" && P(p, "f.ngs_amg_sm_type") == "s:jacobi") p.erase("f.ngs_amg_sm_type");   // damped Jacobi need not contract for matrices of finite elements
  return p; }
static void run04 (const Params & p, Outcome & o)
{
  Problem pr = MakeProblem(p);
  Sim(p, o, true, [&](int rank) {
    Session s(p);
    if (!s.Setup(pr)) return;
    if (SingularCoarse(s)) { if (rank == 0) o.stat["singular_coarse_skipped"] += 1; return; }
    string err; Dense B = ProbePC(s, *s.c.pc, err);
    if (rank == 0) { Require(err.empty(), "application", err); if (err.empty()) OracleSPD(s, B, true, o); o.nontrivial = s.N() > 4; }
  });
}
static RegisterCheck c04("C04", gen04, run04);

// ------------------------------------------------------------------ hierarchy: C06 C07 C08 C09
static Params genH (uint64_t seed, bool th) { Rng r(seed * 15485863 + 6); Params p = GenAlg(seed, th, r); p["a.n"] = S(r.range(8, th ? 120 : 80)); GenFlags(p, r, FL_ALL); GenFaults(p, r); return p; }
static void runH (const Params & p, Outcome & o)
{
  Problem pr = MakeProblem(p);
  Sim(p, o, true, [&](int rank) {
    Session s(p);
    if (!s.Setup(pr)) return;
    auto H = ProbeHierarchy(*s.am, HV_P | HV_R | HV_A);
    OracleDist(s, *H); OracleAdjoint(s, *H); OracleGalerkin(s, *H); OracleDirichletP(s, *H); OracleKernel(s, *H, o);
    if (rank == 0) { o.nontrivial = H->size() > 1; o.stat["levels" + S(H->size())] += 1; }
  });
}
static RegisterCheck ch("HIER", genH, runH);
}
