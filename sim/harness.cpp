#include "harness.hpp"
#include <amg_solver_settings.hpp>
#include <numeric>

extern "C" {
void dsyev_ (const char*, const char*, int*, double*, int*, double*, double*, int*, int*);
void dsygv_ (int*, const char*, const char*, int*, double*, int*, double*, int*, double*, double*, int*, int*);
void dposv_ (const char*, int*, int*, double*, int*, double*, int*, int*);
void dgesv_ (int*, int*, double*, int*, int*, double*, int*, int*);
}

namespace harness
{
Outcome * curOutcome = nullptr;
vector<Check> & Checks () { static vector<Check> c; return c; }

void Outcome :: Add (const RunResult & r)
{
  for (auto & v : r.violations) if (viol.size() < 20) viol.push_back(v);
  trace.insert(trace.end(), r.trace.begin(), r.trace.end());
  sim::hashMix(hash, r.schedHash); sim::hashMix(hash, r.contentHash);
  states.insert(r.schedHash);
  stat["sim_runs"] += 1; stat["sim_steps"] += r.steps; stat["sim_switches"] += r.switches; stat["messages"] += r.msgs;
  stat["collectives"] += r.colls; stat["bytes"] += r.bytes; stat["sim_time_us"] += r.simTime; stat["time_jumps"] += r.timeJumps;
  stat["rendezvous_blocked"] += r.rendBlocked; stat["stalled_us"] += r.stalledTicks; stat["helper_threads"] += r.bgThreads;
  stat["task_jobs"] += r.taskJobs; stat["overtaking_deliveries"] += r.overtakes; stat["late_copies"] += r.latecopies;
  for (int k = 0; k < sim::K_NUM; k++) { stat[string("fault_") + sim::kindName[k]] += r.fired[k]; stat[string("choices_") + sim::kindName[k]] += r.nchoice[k]; }
}

void Require (bool ok, const string & cls, const string & msg) { if (!ok) sim::Report(cls, msg); }

// ------------------------------------------------------------------ config
Config MakeConfig (const Params & p, bool fuzz)
{
  Config c;
  c.np = PI(p, "np", 2);
  c.seed = PI(p, "sim.seed", 1);
  c.tasks = PI(p, "sim.tasks", 0);
  c.mallocPerturb = PI(p, "sim.fill", 0);
  c.maxSteps = PI(p, "sim.maxsteps", 20000000);
  if (fuzz)
    {
      for (int k = 0; k < sim::K_NUM; k++) c.p[k] = PD(p, string("sim.p.") + sim::kindName[k], 0);
      c.victim = PI(p, "sim.victim", -1);
      c.strictSend = PI(p, "sim.strict", 0);
      if (p.count("sim.replay"))
        {
          c.replay = true;
          stringstream ss(P(p, "sim.replay")); string t;
          while (getline(ss, t, ',')) { auto q = t.find(':'); if (q == string::npos) continue; c.forced[strtoull(t.c_str(), nullptr, 16)] = atoi(t.c_str() + q + 1); }
        }
    }
  return c;
}

Flags MakeFlags (const Params & p)
{
  Flags f;
  for (auto & kv : p)
    {
      if (kv.first.compare(0, 2, "f.")) continue;
      string k = kv.first.substr(2), v = kv.second;
      auto q = v.find(':'); string t = v.substr(0, q); string x = v.substr(q + 1);
      auto split = [&] { vector<string> r; stringstream ss(x); string a; while (getline(ss, a, ',')) r.push_back(a); return r; };
      if (t == "n") f.SetFlag(k, atof(x.c_str()));
      else if (t == "b") f.SetFlag(k, x == "1");
      else if (t == "s") f.SetFlag(k, x);
      else if (t == "ln") { Array<double> a; for (auto & e : split()) a.Append(atof(e.c_str())); f.SetFlag(k, a); }
      else if (t == "ls") { Array<string> a; for (auto & e : split()) a.Append(e); f.SetFlag(k, a); }
    }
  return f;
}

// ------------------------------------------------------------------ dense
Dense Mul (const Dense & a, const Dense & b)
{
  Dense c(a.h, b.w);
  for (int i = 0; i < a.h; i++) for (int k = 0; k < a.w; k++) { double x = a(i, k); if (x == 0) continue; for (int j = 0; j < b.w; j++) c(i, j) += x * b(k, j); }
  return c;
}
Dense Trans (const Dense & a) { Dense t(a.w, a.h); for (int i = 0; i < a.h; i++) for (int j = 0; j < a.w; j++) t(j, i) = a(i, j); return t; }
Dense Sub (const Dense & a, const Dense & b) { Dense c = a; for (size_t k = 0; k < c.a.size(); k++) c.a[k] -= b.a[k]; return c; }
vector<double> EigSym (const Dense & a, Dense * vecs)
{
  int n = a.h; vector<double> w(n); if (!n) return w;
  vector<double> m(a.a); int lw = max(1, 34 * n), info = 0; vector<double> wk(lw);
  ::dsyev_(vecs ? "V" : "N", "U", &n, m.data(), &n, w.data(), wk.data(), &lw, &info);
  if (info) w.assign(n, NAN);
  if (vecs) { *vecs = Dense(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) (*vecs)(i, j) = m[size_t(j) * n + i]; }
  return w;
}
bool EigGen (const Dense & a, const Dense & b, vector<double> & lam)
{
  int n = a.h, it = 1, info = 0; lam.assign(n, 0); if (!n) return true;
  vector<double> m(a.a), bb(b.a); int lw = max(1, 34 * n); vector<double> wk(lw);
  ::dsygv_(&it, "N", "U", &n, m.data(), &n, bb.data(), &n, lam.data(), wk.data(), &lw, &info);
  return info == 0;
}
bool CholSolve (Dense a, Dense & rhs)
{
  int n = a.h, m = rhs.w, info = 0; if (!n) return true;
  Dense t = Trans(rhs);
  ::dposv_("U", &n, &m, a.a.data(), &n, t.a.data(), &n, &info);
  rhs = Trans(t); return info == 0;
}
bool LUSolve (Dense a, Dense & rhs)
{
  int n = a.h, m = rhs.w, info = 0; if (!n) return true;
  Dense at = Trans(a), t = Trans(rhs); vector<int> ip(n);
  ::dgesv_(&n, &m, at.a.data(), &n, ip.data(), t.a.data(), &n, &info);
  rhs = Trans(t); return info == 0;
}

// ------------------------------------------------------------------ problem
Problem MakeProblem (const Params & p)
{
  Problem q;
  Rng r(PI(p, "a.seed", 1));
  if (P(p, "mode") == "mesh") { q.np = PI(p, "np", 2); q.mesh = MakeMeshModel(p); q.n = q.mesh->pts.size() / 3; q.bs = PI(p, "m.compound", 0) ? 1 : MeshDofDim(p); return q; }
  q.np = PI(p, "np", 2); q.bs = PI(p, "a.bs", 1);
  q.idle0 = PI(p, "a.idle0", 0) && q.np > 1;
  int n = max(2L, PI(p, "a.n", 60));
  string g = P(p, "a.graph", "grid2"), wt = P(p, "a.weights", "one");
  vector<pair<int,int>> ed; vector<array<int,3>> tris;
  vector<double> co;
  auto coord = [&](double x, double y, double z) { co.push_back(x); co.push_back(y); co.push_back(z); };
  if (g == "grid2" || g == "tri2")
    {
      int nx = max(1, int(lround(sqrt(double(n) * (0.6 + r.uni()))))), ny = max(2, n / nx); n = nx * ny;
      auto id = [&](int i, int j) { return i * ny + j; };
      for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++)
        {
          coord(i, j, 0);
          if (i + 1 < nx) ed.push_back({id(i,j), id(i+1,j)});
          if (j + 1 < ny) ed.push_back({id(i,j), id(i,j+1)});
          if (i + 1 < nx && j + 1 < ny) { tris.push_back({id(i,j), id(i+1,j), id(i,j+1)}); tris.push_back({id(i+1,j), id(i+1,j+1), id(i,j+1)}); }
        }
      if (g == "tri2" && nx < 2) g = "grid2";
    }
  else if (g == "grid3")
    {
      int nx = max(1, int(lround(cbrt(double(n))))), ny = max(1, nx + r.range(-1, 1)), nz = max(2, n / (nx * ny)); n = nx * ny * nz;
      auto id = [&](int i, int j, int k) { return (i * ny + j) * nz + k; };
      for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) for (int k = 0; k < nz; k++)
        {
          coord(i, j, k);
          if (i + 1 < nx) ed.push_back({id(i,j,k), id(i+1,j,k)});
          if (j + 1 < ny) ed.push_back({id(i,j,k), id(i,j+1,k)});
          if (k + 1 < nz) ed.push_back({id(i,j,k), id(i,j,k+1)});
        }
    }
  else if (g == "path") { for (int i = 0; i < n; i++) coord(i, 0, 0); for (int i = 0; i + 1 < n; i++) ed.push_back({i, i+1}); }
  else if (g == "star") { for (int i = 0; i < n; i++) coord(cos(i), sin(i), 0); for (int i = 1; i < n; i++) ed.push_back({0, i}); for (int i = 1; i + 1 < n; i++) if (r.flip(0.3)) ed.push_back({i, i+1}); }
  else if (g == "tree") { for (int i = 0; i < n; i++) coord(r.uni(), r.uni(), 0); for (int i = 1; i < n; i++) ed.push_back({r.below(i), i}); }
  else // rgg
    {
      vector<double> x(n), y(n);
      for (int i = 0; i < n; i++) { x[i] = r.uni(); y[i] = r.uni(); coord(x[i], y[i], 0); }
      double rad = 1.6 / sqrt(double(n));
      for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { double dx = x[i]-x[j], dy = y[i]-y[j]; if (dx*dx + dy*dy < rad*rad) ed.push_back({i, j}); }
      vector<int> c(n); iota(c.begin(), c.end(), 0); function<int(int)> f = [&](int a) { return c[a] == a ? a : c[a] = f(c[a]); };
      for (auto & e : ed) c[f(e.first)] = f(e.second);
      for (int i = 0; i + 1 < n; i++) if (f(i) != f(i+1)) { ed.push_back({i, i+1}); c[f(i)] = f(i+1); }
    }
  q.n = n; q.coords = co;
  vector<int> reg(n); { int nr = r.range(2, 6); vector<int> s(nr); for (int & x : s) x = r.below(n); for (int i = 0; i < n; i++) { double best = 1e300; for (int k = 0; k < nr; k++) { double d = 0; for (int l = 0; l < 3; l++) { double t = co[3*i+l] - co[3*s[k]+l]; d += t*t; } if (d < best) { best = d; reg[i] = k; } } } }
  vector<double> rw(8); for (auto & x : rw) x = pow(10.0, r.uni() * PD(p, "a.jump", 4) * 2 - PD(p, "a.jump", 4));
  auto weight = [&](int a, int b) -> double {
    if (wt == "rand") return 0.5 + r.uni();
    if (wt == "jump") return rw[reg[min(a,b)]];
    if (wt == "aniso") { double dx = fabs(co[3*a] - co[3*b]), dy = fabs(co[3*a+1] - co[3*b+1]); return dx > dy ? 1.0 : 1e-3; }
    if (wt == "wild") return pow(10.0, r.uni() * 6 - 3);
    return 1.0;
  };
  int bs = q.bs;
  auto block = [&]() { Dense B(bs, bs); for (int i = 0; i < bs; i++) B(i,i) = 1; if (bs > 1 && P(p, "a.block", "id") == "spd") { Dense t(bs, bs); for (auto & x : t.a) x = r.uni() - 0.5; Dense s = Mul(t, Trans(t)); for (size_t k = 0; k < B.a.size(); k++) B.a[k] += 0.7 * s.a[k]; } return B; };
  auto addEl = [&](const vector<int> & v, const Dense & K) {
    Problem::El e; e.v = v; int nv = v.size(); Dense B = block(); e.m.assign(size_t(nv) * bs * nv * bs, 0);
    for (int i = 0; i < nv; i++) for (int j = 0; j < nv; j++) for (int a = 0; a < bs; a++) for (int b = 0; b < bs; b++) e.m[size_t(i*bs+a) * nv * bs + j*bs+b] = K(i,j) * B(a,b);
    e.owner = 0; q.els.push_back(e);
  };
  if (g == "tri2")
    {
      double sh = P(p, "a.weights") == "aniso" ? 6 : 1;
      for (auto & t : tris)
        {
          double x[3], y[3]; for (int k = 0; k < 3; k++) { x[k] = co[3*t[k]] * sh; y[k] = co[3*t[k]+1]; }
          double det = (x[1]-x[0])*(y[2]-y[0]) - (x[2]-x[0])*(y[1]-y[0]); double ar = fabs(det) / 2, w = weight(t[0], t[1]);
          Dense K(3,3); double gx[3], gy[3];
          for (int k = 0; k < 3; k++) { int a = (k+1)%3, b = (k+2)%3; gx[k] = (y[a]-y[b]) / det; gy[k] = (x[b]-x[a]) / det; }
          for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) K(i,j) = w * ar * (gx[i]*gx[j] + gy[i]*gy[j]);
          addEl({t[0], t[1], t[2]}, K);
        }
    }
  else
    for (auto & e : ed) { double w = weight(e.first, e.second); Dense K(2,2); K(0,0) = K(1,1) = w; K(0,1) = K(1,0) = -w; addEl({e.first, e.second}, K); }
  // dirichlet / mass
  q.dir.assign(n, 0);
  double df = PD(p, "a.dir", 0.1);
  if (df > 0) { for (int i = 0; i < n; i++) if (r.flip(df)) q.dir[i] = 1; if (!accumulate(q.dir.begin(), q.dir.end(), 0)) q.dir[r.below(n)] = 1; if (accumulate(q.dir.begin(), q.dir.end(), 0) == n) q.dir[r.below(n)] = 0; }
  double mass = PD(p, "a.mass", 0), mf = PD(p, "a.massfrac", 1);
  if (mass > 0)
    for (int i = 0; i < n; i++) if (i == 0 || r.flip(mf)) { Dense K(1,1); K(0,0) = mass * (0.5 + r.uni()); addEl({i}, K); }
  // partition
  int lo = q.idle0 ? 1 : 0, nw = q.np - lo;
  vector<int> col(n, lo); string pt = P(p, "a.part", "blob");
  Rng pr(PI(p, "a.pseed", 7));
  if (pt == "strip") for (int i = 0; i < n; i++) col[i] = lo + int((long)i * nw / n);
  else if (pt == "rand" || pt == "randel") for (int i = 0; i < n; i++) col[i] = lo + pr.below(nw);
  else if (pt == "skew") for (int i = 0; i < n; i++) col[i] = lo + (pr.flip(0.06) ? pr.below(nw) : nw - 1);
  else
    {
      int use = pt == "empty" ? max(1, nw - pr.range(1, max(1, nw / 2))) : nw;
      vector<int> perm(nw); iota(perm.begin(), perm.end(), 0); for (int i = nw - 1; i > 0; i--) swap(perm[i], perm[pr.below(i+1)]);
      vector<vector<int>> adj(n); for (auto & e : q.els) for (int a : e.v) for (int b : e.v) if (a != b) adj[a].push_back(b);
      fill(col.begin(), col.end(), -1); vector<int> fr;
      for (int k = 0; k < use; k++) { int s = pr.below(n); if (col[s] == -1) { col[s] = lo + perm[k]; fr.push_back(s); } }
      while (fr.size()) { int k = pr.below(fr.size()); int v = fr[k]; int u = -1; for (int w : adj[v]) if (col[w] == -1) { u = w; break; } if (u == -1) { fr[k] = fr.back(); fr.pop_back(); } else { col[u] = col[v]; fr.push_back(u); } }
      for (int & c : col) if (c == -1) c = lo;
    }
  for (auto & e : q.els) e.owner = (pt == "randel") ? lo + pr.below(nw) : col[e.v[pr.below(e.v.size())]];
  q.procs.resize(n); q.l2g.resize(q.np);
  vector<set<int>> ps(n);
  for (auto & e : q.els) for (int v : e.v) ps[v].insert(e.owner);
  for (int i = 0; i < n; i++) { q.procs[i].assign(ps[i].begin(), ps[i].end()); for (int k : q.procs[i]) q.l2g[k].push_back(i); }
  q.A = Dense(n * bs, n * bs);
  for (auto & e : q.els) { int nv = e.v.size(); for (int i = 0; i < nv; i++) for (int j = 0; j < nv; j++) for (int a = 0; a < bs; a++) for (int b = 0; b < bs; b++) q.A(e.v[i]*bs+a, e.v[j]*bs+b) += e.m[size_t(i*bs+a) * nv * bs + j*bs+b]; }
  return q;
}

template<int BS> shared_ptr<BaseMatrix> LocalMat (const Problem & pr, int rank, double scale)
{
  typedef typename std::conditional<BS == 1, double, Mat<BS,BS,double>>::type TM;
  auto & l2g = pr.l2g[rank]; int nl = l2g.size();
  map<int,int> g2l; for (int k = 0; k < nl; k++) g2l[l2g[k]] = k;
  vector<set<int>> pat(nl);
  for (auto & e : pr.els) if (e.owner == rank) for (int a : e.v) for (int b : e.v) pat[g2l[a]].insert(g2l[b]);
  Array<int> cnt(nl); for (int k = 0; k < nl; k++) { pat[k].insert(k); cnt[k] = pat[k].size(); }
  auto m = make_shared<SparseMatrix<TM>>(cnt, nl);
  for (int k = 0; k < nl; k++) { int i = 0; for (int c : pat[k]) { m->GetRowIndices(k)[i] = c; m->GetRowValues(k)[i] = TM(0.0); i++; } }
  for (auto & e : pr.els) if (e.owner == rank)
    {
      int nv = e.v.size();
      for (int i = 0; i < nv; i++) for (int j = 0; j < nv; j++)
        {
          TM & t = (*m)(g2l[e.v[i]], g2l[e.v[j]]);
          if constexpr (BS == 1) t += scale * e.m[size_t(i) * nv + j];
          else for (int a = 0; a < BS; a++) for (int b = 0; b < BS; b++) t(a,b) += scale * e.m[size_t(i*BS+a) * nv * BS + j*BS+b];
        }
    }
  return m;
}

shared_ptr<BaseMatrix> BuildLocalMatrix (const Problem & pr, RankCtx & c, double scale)
{
  shared_ptr<BaseMatrix> m;
  if (pr.bs == 1) m = LocalMat<1>(pr, c.rank, scale);
  else if (pr.bs == 2) m = LocalMat<2>(pr, c.rank, scale);
  else m = LocalMat<3>(pr, c.rank, scale);
  if (c.pd) m = make_shared<ParallelMatrix>(m, c.pd, c.pd, C2D);
  return m;
}

void BuildLocal (const Problem & pr, RankCtx & c)
{
  auto & l2g = pr.l2g[c.rank]; int nl = l2g.size();
  if (pr.np > 1)
    {
      Array<int> cnt(nl); for (int k = 0; k < nl; k++) cnt[k] = int(pr.procs[l2g[k]].size()) - 1;
      Table<int> dp(cnt);
      for (int k = 0; k < nl; k++) { int i = 0; for (int q : pr.procs[l2g[k]]) if (q != c.rank) dp[k][i++] = q; }
      c.pd = make_shared<ParallelDofs>(NgMPI_Comm(NG_MPI_COMM_WORLD), std::move(dp), pr.bs, false);
    }
  c.A = BuildLocalMatrix(pr, c);
  c.freeDofs = make_shared<BitArray>(nl); c.freeDofs->Set();
  for (int k = 0; k < nl; k++) if (pr.dir[l2g[k]]) c.freeDofs->Clear(k);
}

struct Handle : public amg::NGsAMGMatrixHandle
{
  shared_ptr<BaseMatrix> A; shared_ptr<BitArray> f;
  Handle (shared_ptr<BaseMatrix> a, shared_ptr<BitArray> b) : A(a), f(b) { }
  shared_ptr<BaseMatrix> getMatrix () const override { return A; }
  shared_ptr<BitArray> getFreeDofs () const override { return f; }
  shared_ptr<BitArray> getFreeScalRows () const override { return f; }
};
struct Settings : public amg::AMGSolverSettings
{
  Flags fl; vector<int> dl; vector<double> vc; vector<NodalP2Triple> tr;
  void set (string const &, int const &) override { }
  void set (string const &, double const &) override { }
  void setBool (string const &, bool const &) override { }
  void set (string const &, string const &) override { }
  void set (string const &, vector<string> const &) override { }
  void set (string const &, vector<int> const &) override { }
  void set (string const &, vector<double> const &) override { }
  void set (string const &, vector<float> const &) override { }
  void setBool (string const &, vector<bool> const &) override { }
  void setDirichletList (vector<int> & d) override { dl = d; }
  vector<int> & getDirichletList () override { return dl; }
  void setVertexCoordinates (vector<double> & v) override { vc = v; }
  vector<double> & getVertexCoordinates () override { return vc; }
  vector<double> const & getVertexCoordinates () const override { return vc; }
  void setNodalP2Connectivity (vector<NodalP2Triple> & t) override { tr = t; }
  vector<NodalP2Triple> & getNodalP2Connectivity () override { return tr; }
  vector<NodalP2Triple> const & getNodalP2Connectivity () const override { return tr; }
  Flags const & getFlags () const override { return fl; }
  bool checkValidity () const override { return true; }
  string getSolverType () const override { return ""; }
  string getAMGType () const override { return ""; }
};

void BuildPC (const Params & p, const Problem & pr, RankCtx & c)
{
  if (pr.mesh) { BuildMeshPC(p, pr, c); return; }
  static const char * nm[4] = { "", "h1_scal", "h1_2d", "h1_3d" };
  Handle h(c.A, c.freeDofs); Settings s; s.fl = MakeFlags(p);
  c.pc = amg::AMGRegister::createAMGSolver(nm[pr.bs], h, s);
  c.prec = c.pc;
  c.pc->InitLevel(c.freeDofs);
  c.pc->FinalizeLevel(c.A);
}

// ------------------------------------------------------------------ observation
static vector<string> blobs, blobsOut;
const vector<string> & ShareBlobs (const string & mine)
{
  sim::OutOfBandBarrier();
  if ((int)blobs.size() <= sim::MyRank()) blobs.resize(64);
  blobs[sim::MyRank()] = mine;
  sim::OutOfBandBarrier();
  return blobs;
}

template<class T> static void put (string & s, const T & v) { s.append((const char*)&v, sizeof(T)); }
template<class T> static void putv (string & s, const vector<T> & v) { put<int>(s, v.size()); s.append((const char*)v.data(), sizeof(T) * v.size()); }
struct Rd { const char * p; template<class T> T get () { T v; memcpy(&v, p, sizeof(T)); p += sizeof(T); return v; } template<class T> vector<T> getv () { int n = get<int>(); vector<T> v(n); if (n) memcpy(v.data(), p, sizeof(T) * n); p += sizeof(T) * n; return v; } };

shared_ptr<Numbering> NumberImpl (bool here, int nd, int bs, shared_ptr<ParallelDofs> pd, function<bool(int)> isMaster, long ndglob)
{
  string s;
  put<char>(s, here);
  if (here)
    {
      put<int>(s, nd); put<int>(s, bs); put<long>(s, ndglob);
      auto comm = pd ? sim::CommWorld(NG_MPI_Comm(pd->GetCommunicator()).value) : vector<int>{sim::MyRank()};
      putv(s, comm);
      for (int d = 0; d < nd; d++)
        {
          vector<int> v; if (pd) for (int q : pd->GetDistantProcs(d)) v.push_back(q < 0 || q >= (int)comm.size() ? -1 : comm[q]);
          putv(s, v); put<char>(s, isMaster(d));
        }
      vector<vector<int>> ex(comm.size());
      for (size_t q = 0; q < comm.size(); q++) { vector<int> v; if (pd) for (auto d : pd->GetExchangeDofs(q)) v.push_back(d); putv(s, v); }
    }
  auto & all = ShareBlobs(s);
  static shared_ptr<Numbering> out;
  if (sim::MyRank() == 0)
    {
      auto N = make_shared<Numbering>(); int np = 0;
      np = all.size() ? 0 : 0; np = sim::NumRanks();
      N->np = np; N->here.assign(np, 0); N->l2g.resize(np); N->master.resize(np); N->ndglob.assign(np, 0);
      vector<vector<vector<int>>> dps(np); vector<vector<vector<int>>> ex(np, vector<vector<int>>(np)); vector<vector<int>> comms(np);
      vector<int> off(np + 1, 0); vector<int> nds(np, 0); int bsAll = -1;
      auto err = [&](const string & e) { if (N->error.empty()) N->error = e; };
      for (int r = 0; r < np; r++)
        {
          Rd rd{all[r].data()}; N->here[r] = rd.get<char>();
          if (N->here[r])
            {
              nds[r] = rd.get<int>(); int b = rd.get<int>(); if (bsAll == -1) bsAll = b; else if (b != bsAll) err("block size differs between ranks");
              N->ndglob[r] = rd.get<long>(); comms[r] = rd.getv<int>();
              dps[r].resize(nds[r]); N->master[r].resize(nds[r]);
              for (int d = 0; d < nds[r]; d++) { dps[r][d] = rd.getv<int>(); N->master[r][d] = rd.get<char>(); }
              for (int q : comms[r]) ex[r][q] = rd.getv<int>();
            }
          off[r+1] = off[r] + nds[r];
        }
      N->bs = max(1, bsAll);
      vector<int> first; bool have = false;
      for (int r = 0; r < np; r++) if (N->here[r])
        {
          if (!have) { first = comms[r]; have = true; } else if (comms[r] != first) err("ranks use different communicators for one set of DOFs");
          if (find(comms[r].begin(), comms[r].end(), r) == comms[r].end()) err("rank not in the communicator of its DOFs");
        }
      for (int r : first) if (!N->here[r]) err("rank " + S(r) + " is in the communicator of a set of DOFs it does not know");
      vector<int> uf(off[np]); iota(uf.begin(), uf.end(), 0);
      function<int(int)> f = [&](int a) { while (uf[a] != a) { uf[a] = uf[uf[a]]; a = uf[a]; } return a; };
      for (int r = 0; r < np; r++) if (N->here[r])
        for (int d = 0; d < nds[r]; d++)
          {
            auto & v = dps[r][d];
            for (size_t k = 0; k < v.size(); k++) { if (v[k] < 0) { err("distant rank out of range"); continue; } if (v[k] == r) err("rank " + S(r) + " lists itself as distant rank"); if (find(v.begin(), v.begin() + k, v[k]) != v.begin() + k) err("distant rank listed twice"); if (!N->here[v[k]]) err("DOF shared with a rank that is not there"); }
          }
      if (N->error.empty())
      for (int r = 0; r < np; r++) if (N->here[r])
        for (int q = r + 1; q < np; q++) if (N->here[q])
          {
            if (ex[r][q].size() != ex[q][r].size()) { err("ranks " + S(r) + " and " + S(q) + " disagree on the number of shared DOFs: " + S(ex[r][q].size()) + " and " + S(ex[q][r].size())); continue; }
            for (size_t k = 0; k < ex[r][q].size(); k++) { int a = f(off[r] + ex[r][q][k]), b = f(off[q] + ex[q][r][k]); uf[max(a,b)] = min(a,b); }
          }
      vector<int> glob(off[np], -1); int ng = 0;
      vector<vector<pair<int,int>>> members;
      for (int r = 0; r < np; r++) { N->l2g[r].resize(nds[r]); for (int d = 0; d < nds[r]; d++) { int c = f(off[r] + d); if (glob[c] == -1) { glob[c] = ng++; members.push_back({}); } N->l2g[r][d] = glob[c]; members[glob[c]].push_back({r, d}); } }
      N->nglob = ng; N->count.resize(ng);
      for (int g = 0; g < ng && N->error.empty(); g++)
        {
          vector<int> rs; int nm = 0; for (auto & m : members[g]) { rs.push_back(m.first); nm += N->master[m.first][m.second]; }
          N->count[g] = rs.size();
          for (size_t k = 1; k < rs.size(); k++) if (rs[k] == rs[k-1]) err("two DOFs of rank " + S(rs[k]) + " are identified with each other");
          if (nm != 1) err("a DOF shared by " + S(rs.size()) + " rank(s) has " + S(nm) + " master(s)");
          for (auto & m : members[g])
            {
              vector<int> v = dps[m.first][m.second]; v.push_back(m.first); sort(v.begin(), v.end());
              if (v != rs) err("rank " + S(m.first) + " does not agree with the other ranks about who shares DOF " + S(m.second));
            }
        }
      if (N->error.empty())
        for (int r = 0; r < np; r++) if (N->here[r] && N->ndglob[r] != size_t(ng)) err("rank " + S(r) + " reports " + S(N->ndglob[r]) + " global DOFs, there are " + S(ng));
      out = N;
    }
  sim::OutOfBandBarrier();
  auto res = out;
  return res;
}

shared_ptr<Numbering> Number (const amg::UniversalDofs & ud, bool here)
{
  if (!here) return NumberImpl(false, 0, 0, nullptr, nullptr, 0);
  return NumberImpl(true, ud.GetND(), ud.GetBS(), ud.GetParallelDofs(), [&](int d) { return ud.IsMasterDof(d); }, ud.GetNDGlob());
}
shared_ptr<Numbering> NumberPD (shared_ptr<ParallelDofs> pd, int nd, int bs, bool here)
{
  if (!here) return NumberImpl(false, 0, 0, nullptr, nullptr, 0);
  return NumberImpl(true, nd, bs, pd, [&](int d) { return pd ? pd->IsMasterDof(d) : true; }, pd ? pd->GetNDofGlobal() : nd);
}

Gathered GatherVec (const Numbering & num, const BaseVector * v, double tol)
{
  string s;
  if (v) { auto f = v->FVDouble(); s.assign((const char*)f.Data(), sizeof(double) * f.Size()); }
  auto & all = ShareBlobs(s);
  Gathered g; g.v.assign(size_t(num.nglob) * num.bs, 0.0); vector<char> have(num.nglob, 0);
  double mx = 0;
  for (int r = 0; r < num.np; r++) if (num.here[r])
    {
      const double * x = (const double*)all[r].data();
      if (all[r].size() != sizeof(double) * num.l2g[r].size() * num.bs) { g.error = "vector on rank " + S(r) + " has wrong size"; continue; }
      for (size_t d = 0; d < num.l2g[r].size(); d++) for (int c = 0; c < num.bs; c++)
        {
          double y = x[d * num.bs + c]; size_t k = size_t(num.l2g[r][d]) * num.bs + c;
          if (!(fabs(y) <= 1e200)) { if (g.error.empty()) g.error = "value is not finite"; }
          if (!(fabs(y) <= mx)) mx = fabs(y);
          if (have[num.l2g[r][d]] && c >= 0 && have[num.l2g[r][d]] == 2) { double df = fabs(y - g.v[k]); if (!(df <= g.maxdiff)) g.maxdiff = df; }
          else g.v[k] = y;
          if (c == num.bs - 1) have[num.l2g[r][d]] = 2;
        }
    }
  if (g.error.empty() && !(g.maxdiff <= tol * (mx > 0 ? mx : 1))) g.error = "copies of a shared value differ by " + S(g.maxdiff) + " (max " + S(mx) + ")";
  sim::OutOfBandBarrier();
  return g;
}

void ScatterVec (const Numbering & num, const vector<double> & g, BaseVector * v, bool distributed)
{
  if (!v) return;
  auto f = v->FVDouble(); int r = sim::MyRank();
  for (size_t d = 0; d < num.l2g[r].size(); d++) for (int c = 0; c < num.bs; c++)
    f[d * num.bs + c] = (distributed && !num.master[r][d]) ? 0.0 : g[size_t(num.l2g[r][d]) * num.bs + c];
  v->SetParallelStatus(distributed ? DISTRIBUTED : CUMULATED);
}

uint64_t HashVec (const BaseVector & v) { auto f = v.FVDouble(); return sim::hashBytes(f.Data(), sizeof(double) * f.Size()); }

shared_ptr<BaseMatrix> Unwrap (shared_ptr<BaseMatrix> m) { if (auto p = dynamic_pointer_cast<ParallelMatrix>(m)) return p->GetMatrix(); return m; }

bool LocalTriplets (const BaseMatrix * m, vector<int> & R, vector<int> & C, vector<double> & V)
{
  auto x = m->CreateRowVector(); auto y = m->CreateColVector();
  auto fx = x.FVDouble(); 
  fx = 0.0;
  for (size_t j = 0; j < fx.Size(); j++)
    {
      fx[j] = 1.0; m->Mult(x, y); fx[j] = 0.0;
      auto fy = y.FVDouble();
      for (size_t i = 0; i < fy.Size(); i++) if (fy[i] != 0.0) { R.push_back(i); C.push_back(j); V.push_back(fy[i]); }
    }
  return true;
}

uint64_t HashMatrix (const BaseMatrix * m)
{
  if (!m) return 77;
  vector<int> r, c; vector<double> v; LocalTriplets(m, r, c, v);
  uint64_t h = sim::hashBytes(r.data(), 4 * r.size()); sim::hashMix(h, sim::hashBytes(c.data(), 4 * c.size())); sim::hashMix(h, sim::hashBytes(v.data(), 8 * v.size()));
  return h;
}

Dense GlobalMatrix (const BaseMatrix * m, const Numbering & rn, const Numbering & cn, bool here, bool sum, string & error)
{
  string s; 
  if (here && m) { vector<int> r, c; vector<double> v; LocalTriplets(m, r, c, v); put<char>(s, 1); putv(s, r); putv(s, c); putv(s, v); } else put<char>(s, 0);
  auto & all = ShareBlobs(s);
  Dense D(rn.nglob * rn.bs, cn.nglob * cn.bs);
  auto rowOf = [&](int r, int i) { return rn.l2g[r][i / rn.bs] * rn.bs + i % rn.bs; };
  auto colOf = [&](int r, int i) { return cn.l2g[r][i / cn.bs] * cn.bs + i % cn.bs; };
  vector<Dense> per; vector<int> who;
  for (int r = 0; r < rn.np; r++)
    {
      Rd rd{all[r].data()}; if (!rd.get<char>()) continue;
      auto R = rd.getv<int>(); auto C = rd.getv<int>(); auto V = rd.getv<double>();
      if (sum) for (size_t k = 0; k < R.size(); k++) D(rowOf(r, R[k]), colOf(r, C[k])) += V[k];
      else
        {
          Dense L(D.h, D.w); for (size_t k = 0; k < R.size(); k++) L(rowOf(r, R[k]), colOf(r, C[k])) += V[k];
          per.push_back(L); who.push_back(r);
        }
    }
  if (!sum)
    {
      vector<int> from(rn.nglob, -1);
      for (size_t k = 0; k < per.size(); k++)
        for (int g : rn.l2g[who[k]])
          {
            for (int c = 0; c < rn.bs; c++) for (int j = 0; j < D.w; j++)
              {
                double x = per[k](g*rn.bs+c, j);
                if (from[g] == -1) D(g*rn.bs+c, j) = x;
                else if (!(fabs(x - D(g*rn.bs+c, j)) <= 1e-9 * max(1.0, fabs(x))) && error.empty()) error = "ranks " + S(who[from[g]]) + " and " + S(who[k]) + " have different rows for a shared DOF";
              }
            if (from[g] == -1) from[g] = k;
          }
    }
  sim::OutOfBandBarrier();
  return D;
}

Dense ProbeOperator (const Numbering & rn, const Numbering & cn, function<unique_ptr<BaseVector>()> mkin, function<unique_ptr<BaseVector>()> mkout,
                     bool inDist, function<void(const BaseVector *, BaseVector *)> op, string & error)
{
  int r = sim::MyRank();
  unique_ptr<BaseVector> in = cn.here[r] ? mkin() : nullptr, out = rn.here[r] ? mkout() : nullptr;
  vector<double> cols; vector<char> stat; size_t nl = 0;
  if (in) ScatterVec(cn, vector<double>(size_t(cn.nglob) * cn.bs, 0.0), in.get(), inDist);
  vector<vector<int>> loc(size_t(cn.nglob) * cn.bs);
  if (in) for (size_t d = 0; d < cn.l2g[r].size(); d++) for (int c = 0; c < cn.bs; c++) if (!inDist || cn.master[r][d]) loc[size_t(cn.l2g[r][d]) * cn.bs + c].push_back(int(d) * cn.bs + c);
  for (int j = 0; j < cn.nglob * cn.bs; j++)
    {
      if (in) { auto f = in->FVDouble(); f = 0.0; for (int i : loc[j]) f[i] = 1.0; in->SetParallelStatus(inDist ? DISTRIBUTED : CUMULATED); }
      if (out) { auto f = out->FVDouble(); f = 0.125; out->SetParallelStatus(DISTRIBUTED); }
      op(in.get(), out.get());
      if (out) { auto f = out->FVDouble(); nl = f.Size(); cols.insert(cols.end(), f.Data(), f.Data() + nl); stat.push_back(out->GetParallelStatus() == CUMULATED ? 1 : out->GetParallelStatus() == DISTRIBUTED ? 2 : 0); }
    }
  string s; put<char>(s, out != nullptr); if (out) { put<int>(s, nl); putv(s, stat); putv(s, cols); }
  auto & all = ShareBlobs(s);
  Dense D(rn.nglob * rn.bs, cn.nglob * cn.bs); double mx = 0; string er;
  vector<char> seen(rn.nglob, 0);
  // with a single rank in the communicator vectors have no parallel status
  int nhere = 0; for (char h : rn.here) nhere += h;
  struct Col { int n; vector<char> st; vector<double> v; }; vector<Col> cs(rn.np);
  for (int q = 0; q < rn.np; q++) if (rn.here[q])
    {
      Rd rd{all[q].data()}; if (!rd.get<char>()) { er = "rank " + S(q) + " has no vector"; continue; }
      cs[q].n = rd.get<int>(); cs[q].st = rd.getv<char>(); cs[q].v = rd.getv<double>();
      if (cs[q].n != int(rn.l2g[q].size()) * rn.bs) er = "rank " + S(q) + " has a vector of size " + S(cs[q].n) + " for " + S(rn.l2g[q].size()) + " DOFs";
      for (double x : cs[q].v) { if (!isfinite(x)) er = "value is not finite"; else mx = max(mx, fabs(x)); }
    }
  if (er.empty())
    for (int j = 0; j < D.w && er.empty(); j++)
      {
        int st = -1;
        for (int q = 0; q < rn.np; q++) if (rn.here[q]) { int t = cs[q].st[j]; if (t == 0) t = 1; if (st == -1) st = t; else if (st != t && nhere > 1) er = "ranks disagree on the parallel status of a vector"; }
        vector<char> have(rn.nglob, 0);
        for (int q = 0; q < rn.np; q++) if (rn.here[q])
          for (size_t d = 0; d < rn.l2g[q].size(); d++) for (int c = 0; c < rn.bs; c++)
            {
              int g = rn.l2g[q][d]; double x = cs[q].v[size_t(j) * cs[q].n + d * rn.bs + c]; double & t = D(g * rn.bs + c, j);
              if (st == 2) t += x;
              else if (have[g] == 2) { if (!(fabs(t - x) <= 1e-8 * mx)) er = "copies of a shared value differ: " + S(t) + " and " + S(x) + " (rank " + S(q) + ", max " + S(mx) + ", row " + S(g) + ", column " + S(j) + ")"; }
              else t = x;
              if (c == rn.bs - 1) have[g] = 2;
            }
      }
  if (error.empty()) error = er;
  sim::OutOfBandBarrier();
  return D;
}

shared_ptr<vector<LevelView>> ProbeHierarchy (amg::AMGMatrix & am, int what)
{
  auto m = am.GetMap(); int nl = m->GetNLevels();
  auto there = [&](int l) { if (l >= nl) return false; auto v = m->CreateVector(l); return v != nullptr; };
  string s; put<int>(s, nl); int L = 0;
  { auto & all = ShareBlobs(s); for (int r = 0; r < sim::NumRanks(); r++) { Rd rd{all[r].data()}; L = max(L, rd.get<int>()); } sim::OutOfBandBarrier(); }
  auto H = make_shared<vector<LevelView>>(L);
  for (int l = 0; l < L; l++) { bool h = there(l); (*H)[l].num = h ? Number(m->GetUDofs(l), true) : NumberImpl(false, 0, 0, nullptr, nullptr, 0); }
  auto mk = [m](int l) { return [m, l]() { return m->CreateVector(l); }; };
  for (int l = 0; l < L; l++)
    {
      auto & v = (*H)[l]; if (v.num->error.size()) continue;
      if ((what & HV_A))
        {
          auto A = l < nl ? am.GetMatrix(l) : nullptr;
          if (!there(l)) A = nullptr;
          { string h(1, A ? '1' : '0'); auto & all = ShareBlobs(h); bool any = false; for (int r = 0; r < sim::NumRanks(); r++) any |= all[r] == "1"; sim::OutOfBandBarrier(); v.hasA = any; }
          if (!v.hasA) goto noA;
          auto loc = A; bool par = A && dynamic_pointer_cast<ParallelMatrix>(A);
          v.A = ProbeOperator(*v.num, *v.num, mk(l), mk(l), false, [&](const BaseVector * in, BaseVector * out) { if (A && in) { A->Mult(*in, *out); if (!par && !dynamic_pointer_cast<amg::HybridBaseMatrix<double>>(A)) out->SetParallelStatus(DISTRIBUTED); } }, v.errA);
        }
      noA:
      if (l + 1 < L && (*H)[l+1].num->error.empty())
        {
          auto & w = (*H)[l+1];
          auto C2F = [&](const BaseVector * in, BaseVector * out) { if (out) m->TransferC2F(l, out, in); };
          auto F2C = [&](const BaseVector * in, BaseVector * out) { if (in) m->TransferF2C(l, in, out); };
          if (what & HV_P) { v.hasP = true; v.P = ProbeOperator(*v.num, *w.num, mk(l+1), mk(l), false, C2F, v.errP); }
          if (what & HV_R) { v.hasR = true; v.R = ProbeOperator(*w.num, *v.num, mk(l), mk(l+1), true, F2C, v.errR); }
        }
    }
  return H;
}

// ------------------------------------------------------------------ scenario generation
Params GenAlg (uint64_t seed, bool thorough, Rng & r)
{
  Params p;
  p["mode"] = "alg";
  static const vector<int> nps = {1, 2, 2, 3, 3, 4, 4, 5, 6, 7}, npsT = {1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 10, 12};
  int np = r.pick(thorough ? npsT : nps);
  p["np"] = S(np);
  p["a.seed"] = S(r.below(1000000)); p["a.pseed"] = S(r.below(1000000));
  p["a.graph"] = r.pick(vector<string>{"grid2", "grid2", "tri2", "grid3", "path", "star", "tree", "rgg", "rgg"});
  p["a.weights"] = r.pick(vector<string>{"one", "rand", "rand", "jump", "aniso", "wild"});
  p["a.n"] = S(r.range(8, thorough ? 260 : 150));
  p["a.part"] = r.pick(vector<string>{"blob", "blob", "strip", "rand", "randel", "skew", "empty"});
  p["a.idle0"] = "1";   // rank 0 holds no DOFs, as in NGSolve
  p["a.bs"] = r.pick(vector<string>{"1", "1", "1", "1", "2", "3"});
  if (r.flip(0.3)) p["a.block"] = "spd";
  int k = r.below(3);
  p["a.dir"] = k == 0 ? "0" : S(r.uni() * 0.3);
  if (k == 0 || r.flip(0.3)) { p["a.mass"] = S(pow(10.0, r.uni() * 4 - 3)); p["a.massfrac"] = r.flip(0.5) ? "1" : "0.2"; }
  if (r.flip(0.3)) p["a.jump"] = "2";
  return p;
}

void GenFaults (Params & p, Rng & r, bool heavy)
{
  p["sim.seed"] = S(r.below(1000000000));
  auto on = [&](const char * k, double prob, vector<double> v) { if (r.flip(prob)) p[string("sim.p.") + k] = S(r.pick(v)); };
  on("preempt", 0.8, {0.05, 0.3, 0.7}); on("msg_delay", 0.8, {0.1, 0.5, 0.9}); on("rendezvous_send", 0.7, {0.1, 0.5, 1.0});
  on("rank_stall", 0.5, {0.002, 0.02}); on("any_source_order", 0.7, {0.5}); on("collective_loose", 0.7, {0.5, 1.0});
  on("spurious_or_reordered_wakeup", 0.6, {0.2, 0.5}); on("task_reorder", 0.7, {0.5, 1.0}); on("late_send_copy", 0.6, {0.3, 1.0});
  if (r.flip(0.4)) p["sim.victim"] = S(r.below(PI(p, "np", 1)));
  if (r.flip(0.15)) p["sim.strict"] = "1";
  if (r.flip(0.15)) p["sim.tasks"] = S(r.pick(vector<int>{2, 3, 4}));
  p["sim.fill"] = r.flip(0.7) ? S(r.range(1, 254)) : "0";
}
}
