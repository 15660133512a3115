#include "harness.hpp"
namespace harness
{
static Params gen00 (uint64_t seed, bool th) { Rng r(seed * 77 + 1); Params p = GenAlg(seed, th, r); GenFlags(p, r, FL_ALL); GenFaults(p, r); return p; }
static void run00 (const Params & p, Outcome & o)
{
  Problem pr = MakeProblem(p);
  vector<double> xx[2];
  for (int k = 0; k < 2; k++)
    {
      vector<uint64_t> hs(pr.np); string lv;
      Config cfg = MakeConfig(p, k == 1);
      RunResult r = sim::Run(cfg, [&](int rank) {
        RankCtx c; c.rank = rank;
        BuildLocal(pr, c);
        BuildPC(p, pr, c);
        auto b = c.A->CreateColVector(); auto x = c.A->CreateColVector();
        auto num = NumberPD(c.pd, pr.l2g[rank].size(), pr.bs, true);
        if (num->error.size()) Require(false, "numbering", num->error);
        vector<double> g(num->nglob * num->bs); Rng q(5); for (auto & t : g) t = q.uni() - 0.5;
        ScatterVec(*num, g, &*b, true);
        c.pc->Mult(*b, *x);
        x.Cumulate();
        hs[rank] = HashVec(*x);
        auto G = GatherVec(*num, &*x);
        if (G.error.size()) Require(false, "copies", G.error); xx[k] = G.v;
        if (rank == 0) { auto m = c.pc->GetAMGMatrix()->GetMap(); for (int l = 0; l <= m->GetNSteps(); l++) lv += S(m->GetUDofs(l).IsValid() ? m->GetUDofs(l).GetNDGlob() : 0) + " "; }
      });
      o.Add(r);
      o.info["levels" + S(k)] = lv;
      for (auto h : hs) sim::hashMix(o.hash, h);
      string t; for (auto h : hs) { char b[32]; snprintf(b, 32, "%lx ", (long)h); t += b; } o.info["h" + S(k)] = t;
    }
  double d = 0, m = 0; for (size_t k = 0; k < min(xx[0].size(), xx[1].size()); k++) { d = max(d, fabs(xx[0][k] - xx[1][k])); m = max(m, fabs(xx[0][k])); } o.info["rel"] = S(d / max(m, 1e-300));
}
static RegisterCheck c00("C00", gen00, run00);
}
