#include "session.hpp"
namespace harness
{
Config FaultFree (const Params & p) { return MakeConfig(p, false); }
RunResult Sim (const Params & p, Outcome & o, bool fuzz, function<void(int)> f)
{
  Config cfg = MakeConfig(p, fuzz && !PI(p, "sim.off", 0));
  RunResult r = sim::Run(cfg, f);
  o.Add(r);
  return r;
}
double maxAbs (const vector<double> & a) { double m = 0; for (double x : a) { if (!(fabs(x) <= m)) m = fabs(x); } return m; }
double relDiff (const vector<double> & a, const vector<double> & b)
{
  if (a.size() != b.size()) return 1e300;
  double d = 0, m = max(maxAbs(a), maxAbs(b));
  for (size_t k = 0; k < a.size(); k++) { double t = fabs(a[k] - b[k]); if (!(t <= d)) d = t; }
  if (d == 0) return 0;
  return d / max(m, 1e-300);
}

void Session::BuildProblem (const Problem & apr)
{
  pr = &apr;
  if (pr->mesh)
    {
      BuildMeshProblem(p, *pr, c);
      num = NumberPD(c.pd, c.fes->GetNDof(), pr->bs, true);
      MeshSession(p, *pr, *this);
      return;
    }
  BuildLocal(*pr, c);
  num = NumberPD(c.pd, pr->l2g[rank].size(), pr->bs, true);
  vert.assign(num->nglob, -1);
  for (int q = 0; q < num->np; q++) for (size_t d = 0; d < num->l2g[q].size(); d++) vert[num->l2g[q][d]] = pr->l2g[q][d];
  int bs = pr->bs, n = N();
  fr.assign(n, 1); kernOk.assign(n, 1);
  A = Dense(n, n);
  for (int i = 0; i < n; i++)
    {
      int vi = vert[i / bs] * bs + i % bs;
      if (pr->dir[vert[i / bs]]) fr[i] = 0;
      for (int j = 0; j < n; j++) A(i, j) = pr->A(vi, vert[j / bs] * bs + j % bs);
    }
  for (int k = 0; k < bs; k++) { vector<double> v(n, 0.0); for (int i = k; i < n; i += bs) v[i] = 1; kern.push_back(v); }
}

static bool allowedRefusal (const string & m) { return m.find("Failed to construct any coarse levels") != string::npos; }

bool Session::BuildPrecond () { return Attempt([&] { BuildPC(p, *pr, c); }); }
bool Session::Attempt (function<void()> f)
{
  string what;
  try { f(); }
  catch (const std::exception & e) { what = string("E") + e.what(); }
  auto & all = ShareBlobs(what);
  int nt = 0; for (int r = 0; r < sim::NumRanks(); r++) nt += all[r].size() > 0;
  string first; for (int r = 0; r < sim::NumRanks() && first.empty(); r++) first = all[r];
  sim::OutOfBandBarrier();
  if (nt)
    {
      refused = true; refusal = first.substr(1);
      if (rank == 0)
        {
          if (nt < sim::NumRanks()) sim::Report("partial-failure", "the setup failed on " + S(nt) + " of " + S(sim::NumRanks()) + " ranks: " + refusal);
          else if (!allowedRefusal(refusal)) sim::Report("exception", "setup: " + refusal);
        }
      return false;
    }
  am = c.pc->GetAMGMatrix();
  return true;
}

Problem Perturb (const Problem & pr, const Params & p)
{
  Problem q = pr; int k = PI(p, "hist.k", 0); if (!k || pr.mesh) return q;
  Rng r(PI(p, "a.seed", 1) * 13 + k); int bs = pr.bs;
  q.A = Dense(pr.A.h, pr.A.w);
  for (auto & e : q.els)
    {
      double f = pow(10.0, r.uni() - 0.5); for (auto & x : e.m) x *= f;
      int m = e.v.size() * bs; for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) q.A(e.v[i/bs] * bs + i % bs, e.v[j/bs] * bs + j % bs) += e.m[i * m + j];
    }
  return q;
}
bool Session::Resetup (const Problem & apr, const Params & ap)
{
  return Attempt([&] {
    if (pr->mesh) { MeshReassemble(ap, apr, c); return; }
    c.A = BuildLocalMatrix(apr, c);
    c.pc->InitLevel(c.freeDofs); c.pc->FinalizeLevel(c.A);
  });
}

// ------------------------------------------------------------------ oracles
void OracleDist (Session & s, vector<LevelView> & H)
{
  if (s.rank) return;
  for (size_t l = 0; l < H.size(); l++)
    {
      Require(H[l].num->error.empty(), "dof-distribution", "level " + S(l) + ": " + H[l].num->error);
      if (l && H[l].num->error.empty()) Require(Singular(s.p) ? H[l].num->nglob <= H[l-1].num->nglob : H[l].num->nglob * H[l].num->bs <= H[l-1].num->nglob * H[l-1].num->bs, "level-grows", "level " + S(l) + " has more DOFs than level " + S(l-1));
    }
}
static double pscale (const Dense & P) { return max(1e-300, P.maxabs()); }
void OracleAdjoint (Session & s, vector<LevelView> & H)
{
  if (s.rank) return;
  for (size_t l = 0; l + 1 < H.size(); l++)
    {
      auto & v = H[l]; if (!v.hasP || !v.hasR) continue;
      Require(v.errP.empty(), "prolongation", "level " + S(l) + ": " + v.errP);
      Require(v.errR.empty(), "restriction", "level " + S(l) + ": " + v.errR);
      if (v.errP.size() || v.errR.size()) continue;
      double d = Sub(v.P, Trans(v.R)).maxabs();
      Require(d <= 1e-10 * pscale(v.P), "not-adjoint", "level " + S(l) + ": restriction and transposed prolongation differ by " + S(d));
    }
}
// coarse operators can be singular by construction: vertices without rotations on the finest level, with rotations on the coarse ones
bool Singular (const Params & p) { return P(p, "mode", "alg") == "mesh" && P(p, "m.pde", "h1") == "elast"; }
// smallest eigenvalue after scaling the diagonal to one
static double scaledMin (const Dense & A, double & big)
{
  Dense t = A; for (int i = 0; i < t.h; i++) if (!(A(i, i) > 0)) { big = 1; return 0; }
  for (int i = 0; i < t.h; i++) for (int j = 0; j < t.h; j++) t(i, j) = 0.5 * (A(i, j) + A(j, i)) / sqrt(A(i, i) * A(j, j));
  auto ev = EigSym(t); big = ev.size() ? ev.back() : 1; return ev.size() ? ev[0] : 1;
}
// decades that are lost inverting the pivots of a block factorisation: NGSolve inverts blocks by cofactors
static double blockLoss (const Dense & A, int bs)
{
  if (bs % 3 == 0) bs = 3;
  if (bs == 1) return 0;
  Dense X(A.h, A.h); for (int i = 0; i < A.h; i++) X(i, i) = 1;
  if (!CholSolve(A, X)) return 99;
  double worst = 0;
  for (int k = 0; k + bs <= A.h; k += bs)
    for (auto * M : { &A, (const Dense*)&X })   // first and last pivot (the latter is the inverse of a block of the inverse)
      {
        Dense B(bs, bs); for (int i = 0; i < bs; i++) for (int j = 0; j < bs; j++) B(i, j) = 0.5 * ((*M)(k+i, k+j) + (*M)(k+j, k+i));
        auto ev = EigSym(B); if (!(ev[0] > 0)) return 99;
        double loss = 0; for (double e : ev) loss += M == &A ? log10(ev.back() / e) : log10(e / ev[0]);
        worst = max(worst, loss);
      }
  return worst;
}
bool SingularCoarse (Session & s, vector<LevelView> * H0)
{
  if (!Singular(s.p)) return false;
  shared_ptr<vector<LevelView>> hp; if (!H0) hp = ProbeHierarchy(*s.am, HV_A);
  auto & H = H0 ? *H0 : *hp;
  long bad = 0;   // decades lost
  if (s.rank == 0 && H.size() > 1 && H.back().hasA && H.back().errA.empty() && H.back().A.h)
    {
      double b; double a = scaledMin(H.back().A, b); bad = a > 1e-9 * b ? long(ceil(log10(b / a))) : 99;
      if (bad < 99) { double l = blockLoss(H.back().A, H.back().num->bs); bad = l > 11 ? 98 : max(bad, long(ceil(l))); }
    }
  bad = MaxRank(bad); s.amp = bad >= 98 ? 0 : 1e-14 * pow(10.0, double(bad)); s.singular = bad == 99;
  return bad >= 98;
}
void OracleGalerkin (Session & s, vector<LevelView> & H)
{
  if (s.rank) return;
  // rows of constrained DOFs do not take part
  for (size_t l = 0; l < H.size(); l++)
    {
      auto & v = H[l]; if (!v.hasA || !v.hasP) continue;
      Require(v.errA.empty(), "level-operator", "level " + S(l) + ": " + v.errA);
    }
  if (H.size() && H[0].hasA && H[0].errA.empty() && s.A.h == H[0].A.h)
    {
      double d = Sub(H[0].A, s.A).maxabs();
      Require(d <= 1e-11 * s.A.maxabs(), "finest-operator", "operator on the finest level differs from the matrix by " + S(d));
    }
  for (size_t l = 0; l + 1 < H.size(); l++)
    {
      auto & v = H[l]; auto & w = H[l+1];
      if (!v.hasP || !v.hasA || !w.hasA || v.errA.size() || w.errA.size() || v.errP.size()) continue;
      Dense G = Mul(Trans(v.P), Mul(v.A, v.P));
      double sc = 0; { Dense pa = v.P; for (auto & x : pa.a) x = fabs(x); Dense aa = v.A; for (auto & x : aa.a) x = fabs(x); sc = Mul(Trans(pa), Mul(aa, pa)).maxabs(); }
      Dense D = Sub(w.A, G); double d = D.maxabs();
      // displacement-only elasticity: directions in which a diagonal block of the coarsest matrix is singular are filled up ("regularize_cmats")
      if (l + 2 == H.size() && Singular(s.p) && d > 1e-10 * sc)
        {
          int bs = max(1, w.num->bs);
          for (int b = 0; b + bs <= D.h; b += bs)
            {
              Dense db(bs, bs), gb(bs, bs); for (int i = 0; i < bs; i++) for (int j = 0; j < bs; j++) { db(i, j) = D(b+i, b+j); gb(i, j) = G(b+i, b+j); D(b+i, b+j) = 0; }
              double dm = db.maxabs(); if (dm <= 1e-10 * sc) continue;
              auto ev = EigSym(db); Require(ev[0] >= -1e-8 * dm, "not-galerkin", "level " + S(l+1) + ": regularisation makes the operator smaller: " + S(ev[0]));
              double x = Mul(db, gb).maxabs(); Require(x <= 1e-5 * dm * max(1.0, gb.maxabs()), "not-galerkin", "level " + S(l+1) + ": the operator is changed where it is not singular: " + S(dm) + ", " + S(gb.maxabs()) + " -> " + S(x));
            }
          d = D.maxabs();
        }
      Require(d <= 1e-10 * max(sc, 1e-300), "not-galerkin", "level " + S(l+1) + ": operator and Galerkin projection differ by " + S(d) + " (scale " + S(sc) + ")");
      double as = Sub(w.A, Trans(w.A)).maxabs();
      Require(as <= 1e-10 * max(sc, 1e-300), "not-symmetric", "level " + S(l+1) + ": operator is not symmetric: " + S(as));
    }
}
void OracleDirichletP (Session & s, vector<LevelView> & H)
{
  if (s.rank || H.empty() || !H[0].hasP || H[0].errP.size()) return;
  double mx = pscale(H[0].P), worst = 0; int wi = -1;
  for (int i = 0; i < H[0].P.h; i++) if (!s.fr[i]) for (int j = 0; j < H[0].P.w; j++) if (!(fabs(H[0].P(i,j)) <= worst)) { worst = fabs(H[0].P(i,j)); wi = i; }
  Require(worst <= 1e-12 * mx, "constrained-dof", "prolongation is not zero at a constrained DOF: " + S(worst) + " at " + S(wi));
}
void OracleKernel (Session & s, vector<LevelView> & H, Outcome & o)
{
  if (s.rank) return;
  size_t nl = H.size(); int nk = s.kern.size();
  vector<vector<double>> K = s.kern; vector<char> ok = s.kernOk;
  bool scalar = P(s.p, "mode", "alg") != "mesh" || P(s.p, "m.pde", "h1") == "h1";   // constants: known on all levels
  string pt = P(s.p, "f.ngs_amg_prol_type", "s:semi_aux_smoothed"); bool exact = pt == "s:piecewise" || pt == "s:aux_smoothed";   // built from the energy of the mesh alone
  double om = max(1.0, PD({{"x", P(s.p, "f.ngs_amg_sp_omega", "n:1").substr(2)}}, "x", 1));
  for (size_t l = 0; l + 1 < nl; l++)
    {
      auto & v = H[l]; if (!v.hasP || v.errP.size() || !v.hasA || v.errA.size() || v.P.w == 0) return;
      int m = v.P.h, w = v.P.w, bs = v.num->bs, cbs = H[l+1].num->bs; if (int(ok.size()) != m) return;
      // how much the operator makes of the vector, relative to the diagonal block
      vector<double> def(m, 0.0), ref(nk, 0.0);
      for (int k = 0; k < nk; k++) for (int i = 0; i < m; i++) if (ok[i]) ref[k] = max(ref[k], fabs(K[k][i]));
      for (int b = 0; b < m; b += bs)
        for (int k = 0; k < nk; k++)
          {
            Dense D(bs, bs), q(bs, 1); double sc = 0; bool rel = true;
            for (int i = 0; i < bs; i++) { for (int j = 0; j < bs; j++) D(i, j) = v.A(b+i, b+j); for (int j = 0; j < m; j++) if (v.A(b+i, j)) { q(i, 0) += v.A(b+i, j) * K[k][j]; sc += fabs(v.A(b+i, j) * K[k][j]); if (!isfinite(K[k][j])) rel = false; } }
            double qm = q.maxabs(), t = qm; if (bs == 1) t = sc > 0 ? qm / D(0, 0) : 0; else t = qm <= 1e-12 * sc ? 0 : 1e300;
            if (!rel) t = 1e300;
            if (exact && rel) t = 0;
            for (int i = 0; i < bs; i++) def[b+i] = max(def[b+i], t / max(ref[k], 1e-300));
          }
      vector<char> empty(m, 1);
      for (int i = 0; i < m; i++) for (int j = 0; j < w && empty[i]; j++) if (v.P(i, j)) empty[i] = 0;
      for (int b = 0; b < m; b += bs) { bool e = true; for (int i = 0; i < bs; i++) e = e && empty[b+i]; for (int i = 0; i < bs; i++) empty[b+i] = e; }
      vector<int> rows; for (int i = 0; i < m; i++) if (ok[i] && !empty[i] && def[i] < (scalar && bs == 1 ? 1e100 : 1e-12)) rows.push_back(i);
      vector<vector<double>> Kc(nk, vector<double>(w, 0.0)); vector<char> okc(w, 1);
      if (scalar) for (int k = 0; k < nk; k++) for (int j = k % cbs; j < w; j += cbs) Kc[k][j] = 1;
      else
        {   // coarse values from a least squares fit: the vertices of coarse levels have no known position
          Dense PP(w, w), rhs(w, nk); double mx = 0; okc.assign(w, 0);
          for (int i : rows) for (int j = 0; j < w; j++) if (double x = v.P(i, j)) { for (int j2 = 0; j2 < w; j2++) PP(j, j2) += x * v.P(i, j2); for (int k = 0; k < nk; k++) rhs(j, k) += x * K[k][i]; }
          mx = PP.maxabs(); 
          Dense V(w, w); auto ev = EigSym(PP, &V); Dense X(w, nk);
          for (int e = 0; e < w; e++) if (ev[e] > 1e-10 * mx) for (int k = 0; k < nk; k++) { double t = 0; for (int j = 0; j < w; j++) t += V(j, e) * rhs(j, k); t /= ev[e]; for (int j = 0; j < w; j++) X(j, k) += t * V(j, e); }
          // determined: orthogonal to the null space
          for (int j = 0; j < w; j++) { double t = 0; for (int e = 0; e < w; e++) if (!(ev[e] > 1e-10 * mx)) t += V(j, e) * V(j, e); okc[j] = t < 1e-12; }
          for (int k = 0; k < nk; k++) for (int j = 0; j < w; j++) Kc[k][j] = okc[j] ? X(j, k) : NAN;
          for (int k = 0; k < nk; k++) for (int i : rows)
            {
              double t = 0; for (int j = 0; j < w; j++) t += v.P(i, j) * X(j, k);
              double d = fabs(t - K[k][i]); o.stat["max_kernel_defect"] = max(o.stat["max_kernel_defect"], d / max(ref[k], 1e-300)); 
              Require(d <= 1e-6 * ref[k], "kernel-lost", "level " + S(l) + ": vector " + S(k) + " is not in the range of the prolongation at DOF " + S(i) + ": off by " + S(d) + " of " + S(ref[k]));
            }
          o.stat["kernel_rows"] += rows.size(); o.stat["kernel_rows_level_" + S(l)] += rows.size(); o.stat["rows_level_" + S(l)] += m; K = Kc; ok = okc;
          continue;
        }
      for (int k = 0; k < nk; k++) for (int i : rows)
        {
          double t = 0, a = 0; for (int j = 0; j < w; j++) { t += v.P(i, j) * Kc[k][j]; a += fabs(v.P(i, j) * Kc[k][j]); }
          double d = fabs(t - K[k][i]), tol = 1e-9 * max(1.0, a) + om * def[i] * (1 + 1e-6);
          if (def[i] < 1e-12) o.stat["max_kernel_defect"] = max(o.stat["max_kernel_defect"], d);
          Require(d <= tol, "kernel-lost", "level " + S(l) + ": interpolating constant " + S(k) + " gives " + S(t) + " instead of " + S(K[k][i]) + " at DOF " + S(i) + " (allowed " + S(tol) + ")");
        }
      o.stat["kernel_rows"] += rows.size(); o.stat["kernel_rows_level_" + S(l)] += rows.size(); o.stat["rows_level_" + S(l)] += m; K = Kc; ok = okc;
    }
}

Dense ProbePC (Session & s, const BaseMatrix & pc, string & err)
{
  auto mk = [&] { auto v = s.am->GetMap()->CreateVector(0); return v; };
  return ProbeOperator(*s.num, *s.num, mk, mk, true, [&](const BaseVector * in, BaseVector * out) { pc.Mult(*in, *out); out->Cumulate(); }, err);
}

void OracleSPD (Session & s, const Dense & B, bool contraction, Outcome & o)
{
  if (s.rank) return;
  int n = B.h; double sc = max(1e-300, B.maxabs());
  vector<int> f; double dirv = 0;
  for (int i = 0; i < n; i++) if (s.fr[i]) f.push_back(i); else for (int j = 0; j < n; j++) { if (!(fabs(B(i,j)) <= dirv)) dirv = fabs(B(i,j)); if (!(fabs(B(j,i)) <= dirv)) dirv = fabs(B(j,i)); }
  Require(dirv <= 1e-11 * sc, "constrained-dof", "the preconditioner touches constrained DOFs: " + S(dirv) + " (max " + S(sc) + ")");
  int m = f.size(); Dense b(m, m), a(m, m);
  for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { b(i,j) = B(f[i], f[j]); a(i,j) = s.A(f[i], f[j]); }
  double as = Sub(b, Trans(b)).maxabs();
  o.stat["asym"] = max(o.stat["asym"], as / sc);
  Require(as <= (1e-8 + 100 * s.amp) * sc, "not-symmetric", "preconditioner is not symmetric: " + S(as) + " (max " + S(sc) + ")");
  for (int i = 0; i < m; i++) for (int j = 0; j < i; j++) b(i,j) = b(j,i) = 0.5 * (b(i,j) + b(j,i));
  auto ev = EigSym(b);
  if (m) { bool fin = isfinite(ev[0]); Require(fin && ev[0] > 1e-14 * ev[m-1], "not-positive", "preconditioner is not positive definite, smallest eigenvalue " + S(ev[0]) + ", largest " + S(ev[m-1])); 
    // eigenvalues of B A
    Dense binv = b; Dense id(m, m); for (int i = 0; i < m; i++) id(i,i) = 1;
    vector<double> lam;
    if (fin && ev[0] > 1e-14 * ev[m-1] && CholSolve(b, id) && EigGen(a, id, lam))
      {
        double cond = lam[m-1] / lam[0];
        o.info["lam"] = S(lam[0]) + " " + S(lam[m-1]); 
        char bb[32]; snprintf(bb, 32, "cond<%g", pow(10.0, ceil(log10(max(1.0, cond))))); o.stat[bb] += 1;
        Require(lam[0] > 0, "not-positive", "preconditioned operator has the eigenvalue " + S(lam[0]));
        if (contraction) Require(lam[m-1] <= 1 + 1e-6 + 1000 * s.amp, "not-contracting", "the preconditioned operator has the eigenvalue " + S(lam[m-1]) + ", one application can increase the error in energy norm");
      }
  }
}
}
