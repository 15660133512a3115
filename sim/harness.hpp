// Shared harness pieces: scenario parameters, problem generators, observation of the hierarchy, oracles.
#pragma once
#include <base.hpp>
#include <amg_register.hpp>
#include <amg_pc.hpp>
#include <amg_matrix.hpp>
#include <dof_map.hpp>
#include <hybrid_matrix.hpp>
#include <hybrid_smoother.hpp>
#include <universal_dofs.hpp>
#include "sim.hpp"
#include "meshmodel.hpp"
#include <map>
#include <sstream>

namespace harness
{
using namespace std;
using namespace ngcore; using namespace ngla; using namespace ngcomp; using namespace ngstd;
using sim::Rng; using sim::RunResult; using sim::Config;
using std::vector; using std::string; using std::map; using std::pair; using std::function; using std::shared_ptr; using std::make_shared;

typedef map<string,string> Params;

inline string P (const Params & p, const string & k, const string & d = "") { auto it = p.find(k); return it == p.end() ? d : it->second; }
inline double PD (const Params & p, const string & k, double d = 0) { auto it = p.find(k); return it == p.end() ? d : atof(it->second.c_str()); }
inline long PI (const Params & p, const string & k, long d = 0) { auto it = p.find(k); return it == p.end() ? d : atol(it->second.c_str()); }
inline string S (double d) { char b[64]; snprintf(b, 64, "%.6g", d); return b; }
inline string S (int d) { return to_string(d); }
inline string S (long d) { return to_string(d); }
inline string S (size_t d) { return to_string(d); }

Config MakeConfig (const Params & p, bool fuzz);
Flags MakeFlags (const Params & p);

// ------------------------------------------------------------------ dense helpers
struct Dense
{
  int h = 0, w = 0; vector<double> a;
  Dense (int ah = 0, int aw = 0) : h(ah), w(aw), a(size_t(ah) * aw, 0.0) { }
  double & operator() (int i, int j) { return a[size_t(i) * w + j]; }
  double operator() (int i, int j) const { return a[size_t(i) * w + j]; }
  double maxabs () const { double m = 0; for (double x : a) { if (!(fabs(x) <= m)) m = fabs(x); } return m; }
};
Dense Mul (const Dense & a, const Dense & b);
Dense Trans (const Dense & a);
Dense Sub (const Dense & a, const Dense & b);
// eigenvalues of a symmetric matrix
vector<double> EigSym (const Dense & a, Dense * vecs = nullptr);
// generalised: A x = lam B x, B SPD; returns false if B is not SPD
bool EigGen (const Dense & a, const Dense & b, vector<double> & lam);
bool CholSolve (Dense a, Dense & rhs);   // a SPD
bool LUSolve (Dense a, Dense & rhs);

// ------------------------------------------------------------------ problems
struct Problem
{
  // global algebraic problem: sum over "elements" (small dense symmetric matrices on a vertex list), each owned by one rank
  int n = 0, bs = 1, np = 1;
  struct El { vector<int> v; vector<double> m; int owner; };
  vector<El> els;
  vector<char> dir;                    // dirichlet flag per vertex
  vector<vector<int>> l2g;             // per rank: local -> global vertices (ascending)
  vector<vector<int>> procs;           // per vertex: ranks
  bool idle0 = false;
  Dense A;                             // global matrix (bs*n)
  int nsing = 0;
  vector<double> coords;               // 3 per vertex
  shared_ptr<MeshModel> mesh;          // finite element problem
};
Problem MakeProblem (const Params & p);

struct RankCtx
{
  int rank = 0;
  shared_ptr<ParallelDofs> pd;
  shared_ptr<BaseMatrix> A;
  shared_ptr<BitArray> freeDofs;
  shared_ptr<amg::BaseAMGPC> pc;
  shared_ptr<Preconditioner> prec;
  shared_ptr<MeshAccess> ma; shared_ptr<FESpace> fes; shared_ptr<BilinearForm> bfa; vector<shared_ptr<ParameterCoefficientFunction<double>>> mats;
  void Reset () { pc = nullptr; prec = nullptr; A = nullptr; bfa = nullptr; fes = nullptr; ma = nullptr; pd = nullptr; freeDofs = nullptr; }
};
void BuildLocal (const Problem & pr, RankCtx & c);
shared_ptr<BaseMatrix> BuildLocalMatrix (const Problem & pr, RankCtx & c, double scale = 1.0);
void BuildPC (const Params & p, const Problem & pr, RankCtx & c);

// ------------------------------------------------------------------ observations
// global numbering of one set of (parallel) DOFs, built outside of the simulated program
struct Numbering
{
  int nglob = 0, bs = 1, np = 0;
  vector<char> here;                     // rank takes part
  vector<vector<int>> l2g;               // per rank
  vector<vector<char>> master;
  vector<size_t> ndglob;                 // as reported by every rank
  string error;                          // inconsistency, if any
  vector<int> count;                     // copies per global dof
};
// collective over all simulated ranks (out of band)
shared_ptr<Numbering> Number (const amg::UniversalDofs & ud, bool here);
shared_ptr<Numbering> NumberPD (shared_ptr<ParallelDofs> pd, int nd, int bs, bool here);

// collective gather of a vector into global values. Fails (string) if copies differ by more than tol relative to the max
struct Gathered { vector<double> v; string error; double maxdiff = 0; };
Gathered GatherVec (const Numbering & num, const BaseVector * v, double tol = 1e-9);
void ScatterVec (const Numbering & num, const vector<double> & g, BaseVector * v, bool distributed);
// generic collective: each rank contributes a blob, all see all
const vector<string> & ShareBlobs (const string & mine);

uint64_t HashMatrix (const BaseMatrix * m);
uint64_t HashVec (const BaseVector & v);
string DescribeMatrix (const BaseMatrix * m);
// local sparse matrix (scalar entries) of a (block) sparse matrix
bool LocalTriplets (const BaseMatrix * m, vector<int> & r, vector<int> & c, vector<double> & v);
Dense GlobalMatrix (const BaseMatrix * locmat, const Numbering & rown, const Numbering & coln, bool here, bool sum, string & err);
shared_ptr<BaseMatrix> Unwrap (shared_ptr<BaseMatrix> m);

// ------------------------------------------------------------------ multigrid hierarchy, observed through its operators
struct LevelView
{
  shared_ptr<Numbering> num;
  bool hasA = false, hasP = false, hasR = false;
  Dense A;        // operator used on this level (global, summed over the ranks)
  Dense P, R;     // prolongation from / restriction to the next level
  string errP, errR, errA;
};
enum { HV_P = 1, HV_R = 2, HV_A = 4 };
// collective; all ranks get the same result
shared_ptr<vector<LevelView>> ProbeHierarchy (amg::AMGMatrix & am, int what);
// global matrix of a parallel operator: columns by application to unit vectors
// inStat / outStat: what the operator expects / how its result is to be read
Dense ProbeOperator (const Numbering & rown, const Numbering & coln, function<unique_ptr<BaseVector>()> mkin, function<unique_ptr<BaseVector>()> mkout,
                     bool inDistributed, function<void(const BaseVector * in, BaseVector * out)> op, string & error);

// ------------------------------------------------------------------ outcome of one scenario
struct Outcome
{
  vector<sim::Violation> viol;
  vector<pair<uint64_t,int>> trace;
  map<string,double> stat;           // summed over scenarios
  map<string,string> info;           // free text
  uint64_t hash = 0;                 // everything observed (determinism gate)
  set<uint64_t> states;              // distinct states / interleavings reached
  bool nontrivial = false;
  void Fail (const string & cls, const string & msg) { if (viol.size() < 20) viol.push_back({cls, msg}); }
  void Add (const RunResult & r);
};

typedef function<Params(uint64_t seed, bool thorough)> GenFn;
typedef function<void(const Params &, Outcome &)> RunFn;
struct Check { string id; GenFn gen; RunFn run; };
vector<Check> & Checks ();
struct RegisterCheck { RegisterCheck (string id, GenFn g, RunFn r) { Checks().push_back({id, g, r}); } };

extern Outcome * curOutcome;
void Require (bool ok, const string & cls, const string & msg);  // inside of a run

enum { FL_LEVELS = 1, FL_CRS = 2, FL_PROL = 4, FL_SMOOTH = 8, FL_CYCLE = 16, FL_ALL = 31 };
void GenFlags (Params & p, Rng & r, int what);
Params GenAlg (uint64_t seed, bool thorough, Rng & r);
Params GenMesh (uint64_t seed, bool thorough, Rng & r, int maxDofs);
Params GenBase (uint64_t seed, bool th, Rng & r, int lo, int hi, int what, bool heavy, int minnp = 1, double mesh = 0.35);
shared_ptr<MeshModel> MakeMeshModel (const Params & p);
void BuildMeshProblem (const Params & p, const Problem & pr, RankCtx & c);
void BuildMeshPC (const Params & p, const Problem & pr, RankCtx & c, double scale = 1);
void MeshReassemble (const Params & p, const Problem & pr, RankCtx & c);
int MeshDofDim (const Params & p);
void GenFaults (Params & p, Rng & r, bool heavy = false);
}
