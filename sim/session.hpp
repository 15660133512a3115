// One simulated rank's view of a preconditioner under test, plus the oracles that work on it.
#pragma once
#include "harness.hpp"
namespace harness
{
struct Session
{
  const Params & p; const Problem * pr = nullptr;
  RankCtx c; int rank = 0;
  shared_ptr<Numbering> num;              // finest level DOFs
  vector<int> vert;                       // alg mode: global DOF -> vertex of the problem
  vector<char> fr;                        // free, per scalar global DOF
  vector<vector<double>> kern;            // vectors which the coarse spaces have to be able to represent
  vector<char> kernOk;                    // per scalar global DOF: representation required there
  Dense A;                                // finest operator, from the problem (alg) or from the matrix (mesh); set up on demand
  double amp = 0;                         // round-off to be expected from the solution on the coarsest level, see SingularCoarse
  bool singular = false;                  // the coarsest operator is
  bool refused = false; string refusal;
  shared_ptr<amg::AMGMatrix> am;
  Session (const Params & ap) : p(ap) { rank = sim::MyRank(); c.rank = rank; }
  // everything up to the matrix
  void BuildProblem (const Problem & apr);
  // preconditioner; false if it was refused on all ranks
  bool BuildPrecond ();
  bool Attempt (function<void()> f);   // a setup on all ranks
  bool Resetup (const Problem & apr, const Params & ap);   // new values of the matrix, same preconditioner object
  bool Setup (const Problem & apr) { BuildProblem(apr); return BuildPrecond(); }
  vector<double> RandomVec (uint64_t seed) const { vector<double> g(size_t(num->nglob) * num->bs); Rng q(seed); for (auto & t : g) t = q.uni() - 0.5; return g; }
  int N () const { return num->nglob * num->bs; }
};
Problem Perturb (const Problem & pr, const Params & p);   // values after step "hist.k" of a history
void MeshSession (const Params & p, const Problem & pr, Session & s);
// runs one simulation of the scenario on all ranks and adds its results to the outcome
RunResult Sim (const Params & p, Outcome & o, bool fuzz, function<void(int)> f);
Config FaultFree (const Params & p);

// ---- oracles: to be called by all ranks, report through Require (only rank 0 evaluates)
void OracleDist (Session & s, vector<LevelView> & H);
void OracleAdjoint (Session & s, vector<LevelView> & H);
bool Singular (const Params & p);
bool SingularCoarse (Session & s, vector<LevelView> * H = nullptr);   // coarsest operator numerically singular; collective
void OracleGalerkin (Session & s, vector<LevelView> & H);
void OracleKernel (Session & s, vector<LevelView> & H, Outcome & o);
void OracleDirichletP (Session & s, vector<LevelView> & H);
Dense ProbePC (Session & s, const BaseMatrix & pc, string & err);
void OracleSPD (Session & s, const Dense & B, bool wantContraction, Outcome & o);
double relDiff (const vector<double> & a, const vector<double> & b);
double maxAbs (const vector<double> & a);
}
namespace harness
{
void ScatterSplit (const Numbering & num, const vector<double> & g, BaseVector * v, uint64_t seed);
vector<double> ValueOf (const Numbering & num, const BaseVector * v, string & err);
bool AnyRank (bool b);
long MaxRank (long b);
Dense ProbeSmoother (Session & s, LevelView & v, int l, bool back, string & err);
void OracleSmoother (Session & s, LevelView & v, int l, uint64_t seed, Outcome & o);
void OracleHybrid (Session & s, const Numbering & num, shared_ptr<BaseMatrix> mat, const Dense & A, const string & what, uint64_t seed, Outcome & o);
void OracleDCC (Session & s, const Numbering & num, amg::DCCMap<double> * map, function<unique_ptr<BaseVector>()> mk, const string & what, uint64_t seed, Outcome & o);
void OracleCycle (Session & s, vector<LevelView> & H, const Dense & B, int vwb, Outcome & o);
}
