// Further oracles: smoothers, hybrid matrices, concentrated vectors, the multigrid cycle.
#include "session.hpp"
#include <dcc_map.hpp>
namespace harness
{
// every rank's copies get random parts that sum up to the value
void ScatterSplit (const Numbering & num, const vector<double> & g, BaseVector * v, uint64_t seed)
{
  if (!v) return;
  auto f = v->FVDouble(); int r = sim::MyRank();
  vector<vector<int>> holders(num.nglob);
  for (int q = 0; q < num.np; q++) if (num.here[q]) for (int d : num.l2g[q]) holders[d].push_back(q);
  for (size_t d = 0; d < num.l2g[r].size(); d++)
    {
      int gd = num.l2g[r][d]; auto & h = holders[gd];
      for (int c = 0; c < num.bs; c++)
        {
          double val = g[size_t(gd) * num.bs + c]; Rng q(seed * 1000003 + gd * 17 + c); double rest = val, mine = 0;
          for (size_t k = 0; k < h.size(); k++) { double part = (k + 1 == h.size()) ? rest : (q.uni() - 0.5) * (q.flip(0.3) ? 0 : 1); rest -= part; if (h[k] == r) mine = part; }
          f[d * num.bs + c] = mine;
        }
    }
  v->SetParallelStatus(DISTRIBUTED);
}
// value of a vector of any status, checks the copies
vector<double> ValueOf (const Numbering & num, const BaseVector * v, string & err)
{
  string s; 
  if (v) { auto f = v->FVDouble(); char st = v->GetParallelStatus() == DISTRIBUTED ? 2 : 1; s.push_back(st); s.append((const char*)f.Data(), sizeof(double) * f.Size()); }
  auto & all = ShareBlobs(s);
  vector<double> g(size_t(num.nglob) * num.bs, 0.0); vector<char> have(num.nglob, 0); double mx = 0, md = 0; int status = -1;
  for (int r = 0; r < num.np; r++) if (num.here[r])
    {
      if (all[r].empty()) { err = "rank " + S(r) + " has no vector"; continue; }
      int st = all[r][0]; vector<double> xs((all[r].size() - 1) / 8); memcpy(xs.data(), all[r].data() + 1, xs.size() * 8);
      if (xs.size() != num.l2g[r].size() * num.bs) { err = "vector on rank " + S(r) + " has a wrong size"; continue; }
      if (num.l2g[r].size()) { if (status == -1) status = st; else if (status != st) err = "ranks disagree on the parallel status of a vector"; }
      for (size_t d = 0; d < num.l2g[r].size(); d++)
        {
          for (int c = 0; c < num.bs; c++)
            {
              double y = xs[d * num.bs + c]; double & t = g[size_t(num.l2g[r][d]) * num.bs + c];
              if (!isfinite(y)) err = "value is not finite"; else mx = max(mx, fabs(y));
              if (st == 2) t += y; else if (!have[num.l2g[r][d]]) t = y; else { double df = fabs(t - y); if (!(df <= md)) md = df; }
            }
          if (st != 2) have[num.l2g[r][d]] = 1;
        }
    }
  if (err.empty() && !(md <= 1e-9 * max(mx, 1e-300))) err = "copies of a shared value differ by " + S(md) + " (max " + S(mx) + ")";
  sim::OutOfBandBarrier();
  return g;
}
bool AnyRank (bool b) { string h(1, b ? '1' : '0'); auto & all = ShareBlobs(h); bool any = false; for (int r = 0; r < sim::NumRanks(); r++) any |= all[r] == "1"; sim::OutOfBandBarrier(); return any; }
long MaxRank (long b) { string h((char*)&b, sizeof b); auto & all = ShareBlobs(h); long m = -(1l << 60); for (int r = 0; r < sim::NumRanks(); r++) { long x; memcpy(&x, all[r].data(), 8); m = max(m, x); } sim::OutOfBandBarrier(); return m; }

static vector<double> mv (const Dense & A, const vector<double> & x) { vector<double> y(A.h, 0.0); for (int i = 0; i < A.h; i++) for (int j = 0; j < A.w; j++) y[i] += A(i, j) * x[j]; return y; }
static vector<double> axpy (double a, const vector<double> & x, const vector<double> & y) { vector<double> z(y); for (size_t k = 0; k < z.size(); k++) z[k] += a * x[k]; return z; }
static double diffTo (const vector<double> & a, const vector<double> & b, double scale) { double d = 0; for (size_t k = 0; k < a.size(); k++) { double t = fabs(a[k] - b[k]); if (!(t <= d)) d = t; } return d / max(scale, 1e-300); }

// ------------------------------------------------------------------ smoothers
Dense ProbeSmoother (Session & s, LevelView & v, int l, bool back, string & err)
{
  auto m = s.am->GetMap();
  auto sm = l < int(s.am->GetSmoothers().Size()) ? s.am->GetSmoother(l) : nullptr;
  auto mk = [&] { return m->CreateVector(l); };
  unique_ptr<BaseVector> res = v.num->here[s.rank] ? mk() : nullptr;
  return ProbeOperator(*v.num, *v.num, mk, mk, true, [&](const BaseVector * in, BaseVector * out)
    {
      if (!sm || !in) return;
      auto & r = *res; r.FVDouble() = in->FVDouble(); r.SetParallelStatus(DISTRIBUTED);
      out->FVDouble() = 0.0; out->SetParallelStatus(CUMULATED);
      if (back) sm->SmoothBack(*out, *in, r, true, true, true); else sm->Smooth(*out, *in, r, true, true, true);
      out->Cumulate();
    }, err);
}

void OracleSmoother (Session & s, LevelView & v, int l, uint64_t seed, Outcome & o)
{
  auto m = s.am->GetMap();
  auto sm = v.num->here[s.rank] && l < int(s.am->GetSmoothers().Size()) ? s.am->GetSmoother(l) : nullptr;
  if (!AnyRank(sm != nullptr)) return;
  string L = "level " + S(l) + ": ";
  string e1, e2; Dense Mf = ProbeSmoother(s, v, l, false, e1), Mb = ProbeSmoother(s, v, l, true, e2);
  if (e1.size() || e2.size() || v.errA.size()) { if (s.rank == 0) { Require(false, "smoother", L + e1 + e2 + v.errA); } return; }
  const Dense & A = v.A; int n = A.h; double ms = max(Mf.maxabs(), 1e-300);
  // which DOFs does it act on
  vector<int> f; for (int i = 0; i < n; i++) { bool z = true; for (int j = 0; j < n && z; j++) if (Mf(i, j) != 0 || Mf(j, i) != 0) z = false; if (!z) f.push_back(i); }
  if (s.rank == 0)
    {
      if (l == 0)
        {
          double w = 0; for (int i = 0; i < n; i++) if (!s.fr[i]) for (int j = 0; j < n; j++) w = max(w, max(fabs(Mf(i, j)), fabs(Mf(j, i))));
          Require(w == 0, "constrained-dof", L + "the smoother touches constrained DOFs");
        }
      double as = Sub(Mb, Trans(Mf)).maxabs();
      Require(as <= 1e-9 * ms, "not-adjoint", L + "forward and backward smoother are not adjoint to each other: " + S(as) + " (max " + S(ms) + ")");
      int k = f.size(); Dense T(k, k); Dense MA(k, k), Mr(k, k), Ar(k, k);
      for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { Mr(i, j) = Mf(f[i], f[j]); Ar(i, j) = A(f[i], f[j]); }
      MA = Mul(Trans(Mr), Mul(Ar, Mr));
      for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) T(i, j) = Mr(i, j) + Mr(j, i) - 0.5 * (MA(i, j) + MA(j, i));
      // damped block-Jacobi need not contract (it does for diagonally dominant matrices only); and the diagonal of the hybrid smoother is enlarged
      // by a bound that is one for scalar entries and for blocks which are multiples of the identity only
      bool jac = P(s.p, "f.ngs_amg_sm_type", "") == "s:jacobi";
      bool bound = v.num->bs == 1 || PI(s.p, "np", 1) <= 2 || (P(s.p, "mode", "alg") == "alg" && P(s.p, "a.block", "id") != "spd");
      if (k && !jac && bound) { auto ev = EigSym(T); Require(isfinite(ev[0]) && ev[0] >= -1e-8 * max(fabs(ev[k-1]), 1e-300), "smoother-diverges", L + "the smoother can increase the error in energy norm: " + S(ev[0]) + " (largest " + S(ev[k-1]) + ")"); }
      o.stat["smoothers"] += 1;
    }
  // all calling conventions do the same thing
  Rng q(seed);
  auto rnd = [&](bool onlyF) { vector<double> g(n, 0.0); if (onlyF) for (int i : f) g[i] = q.uni() - 0.5; else for (auto & t : g) t = q.uni() - 0.5; return g; };
  for (int c = 0; c < 16; c++)
    {
      bool ru = c & 1, ur = c & 2, xz = c & 4, back = c & 8; 
      vector<double> x0 = rnd(false), b = rnd(false); if (xz) x0.assign(n, 0.0);
      vector<double> r0 = axpy(-1, mv(A, x0), b);
      uint64_t sp = q.next();
      unique_ptr<BaseVector> x, bb, r;
      if (v.num->here[s.rank]) { x = m->CreateVector(l); bb = m->CreateVector(l); r = m->CreateVector(l); }
      ScatterVec(*v.num, x0, x.get(), false);
      ScatterSplit(*v.num, b, bb.get(), sp);
      if (ru) { ScatterSplit(*v.num, r0, r.get(), sp + 1); }
      else ScatterSplit(*v.num, rnd(false), r.get(), sp + 2);
      if (sm) { if (back) sm->SmoothBack(*x, *bb, *r, ru, ur, xz); else sm->Smooth(*x, *bb, *r, ru, ur, xz); }
      string ex, er; vector<double> x1 = ValueOf(*v.num, x.get(), ex), r1; if (ur) r1 = ValueOf(*v.num, r.get(), er);
      if (s.rank == 0)
        {
          string how = L + string(back ? "backward" : "forward") + (ru ? ", residual given" : "") + (ur ? ", residual updated" : "") + (xz ? ", zero start" : "") + ": ";
          Require(ex.empty(), "smoother", how + ex);
          auto want = axpy(1, mv(back ? Mb : Mf, r0), x0);
          double sc = max(maxAbs(want), max(maxAbs(x0), maxAbs(mv(Mf, b))));
          double d = diffTo(x1, want, sc); if (ex.empty()) Require(d <= 1e-8, "smoother-variants", how + "result differs from that of the other calling conventions by " + S(d));
          if (ur)
            {
              Require(er.empty(), "smoother", how + er);
              auto rw = axpy(-1, mv(A, x1), b); double rs = max(max(maxAbs(b), maxAbs(mv(A, x1))), A.maxabs() * maxAbs(x1));
              double e = diffTo(r1, rw, rs); if (er.empty() && ex.empty()) Require(e <= 1e-9, "smoother-residual", how + "the residual returned is not the residual of the result: " + S(e));
            }
          if (l == 0) for (int i = 0; i < n; i++) if (!s.fr[i]) Require(x1[i] == x0[i], "constrained-dof", how + "a constrained value was changed");
          o.stat["smoother_calls"] += 1;
        }
    }
}

// ------------------------------------------------------------------ hybrid matrices
void OracleHybrid (Session & s, const Numbering & num, shared_ptr<BaseMatrix> mat, const Dense & A, const string & what, uint64_t seed, Outcome & o)
{
  auto hy = dynamic_pointer_cast<amg::HybridBaseMatrix<double>>(mat);
  if (!AnyRank(hy != nullptr)) return;
  bool here = num.here[s.rank]; int n = A.h;
  string err; Dense M = GlobalMatrix(here && hy ? hy->GetM().get() : nullptr, num, num, here, true, err), G = GlobalMatrix(here && hy ? hy->GetG().get() : nullptr, num, num, here, true, err);
  // who is master of what, according to the map of the matrix
  string ms; if (here && hy) { auto b = hy->GetDCCMap().GetMasterDOFs(); for (size_t d = 0; d < num.l2g[s.rank].size(); d++) ms.push_back(!b || b->Test(d)); }
  vector<int> owner(num.nglob, -1); string oe;
  { auto & all = ShareBlobs(ms); for (int r = 0; r < num.np; r++) if (num.here[r]) for (size_t d = 0; d < num.l2g[r].size() && d < all[r].size(); d++) if (all[r][d]) { if (owner[num.l2g[r][d]] != -1) oe = "two owners"; owner[num.l2g[r][d]] = r; } sim::OutOfBandBarrier(); }
  for (int x : owner) if (x < 0) oe = "a DOF without owner";
  // entries of M: block of the owner
  bool anyG = AnyRank(here && hy && hy->HasGLocal());
  bool mism = AnyRank(here && hy && (hy->HasGGlobal() != anyG) && false);
  (void)mism;
  double sc = max(A.maxabs(), 1e-300);
  if (s.rank == 0)
    {
      Require(oe.empty(), "ownership", what + oe);
      Dense D(M); for (size_t k = 0; k < D.a.size(); k++) D.a[k] += G.a[k];
      double d = Sub(D, A).maxabs(); Require(d <= 1e-10 * sc, "hybrid-split", what + "the two parts of the matrix do not add up to the matrix: " + S(d) + " (max " + S(sc) + ")");
      if (oe.empty())
        {
          double w1 = 0, w2 = 0;
          for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
            { bool same = owner[i / num.bs] == owner[j / num.bs]; if (same) w1 = max(w1, fabs(M(i, j) - A(i, j))); else w2 = max(w2, fabs(M(i, j))); }
          Require(w1 <= 1e-10 * sc, "hybrid-block", what + "the owned diagonal block differs from that of the global matrix: " + S(w1));
          Require(w2 <= 1e-10 * sc, "hybrid-block", what + "the local part couples values of different owners: " + S(w2));
        }
    }
  // products, for all states of the vectors
  Rng q(seed);
  for (int c = 0; c < 8; c++)
    {
      bool xd = q.flip(0.5), yd = q.flip(0.5); int op = c % 4; double a = q.uni() * 4 - 2;
      vector<double> x0(n), y0(n); for (auto & t : x0) t = q.uni() - 0.5; for (auto & t : y0) t = q.uni() - 0.5; uint64_t sp = q.next();
      AutoVector ax, ay; BaseVector * x = nullptr, * y = nullptr;
      if (here && hy) { ax.AssignPointer(hy->CreateColVector()); ay.AssignPointer(hy->CreateRowVector()); x = &*ax; y = &*ay; }
      if (xd) ScatterSplit(num, x0, x, sp); else ScatterVec(num, x0, x, false);
      if (yd) ScatterSplit(num, y0, y, sp + 1); else ScatterVec(num, y0, y, false);
      if (x) switch (op) { case 0: mat->Mult(*x, *y); break; case 1: mat->MultAdd(a, *x, *y); break; case 2: mat->MultTrans(*x, *y); break; default: mat->MultTransAdd(a, *x, *y); }
      string e1, e2; auto y1 = ValueOf(num, y, e1), x1 = ValueOf(num, x, e2);
      if (s.rank == 0)
        {
          static const char * nm[] = {"Mult", "MultAdd", "MultTrans", "MultTransAdd"};
          string how = what + nm[op] + (xd ? ", distributed input" : ", cumulated input") + (yd ? ", distributed output: " : ", cumulated output: ");
          Require(e1.empty() && e2.empty(), "hybrid-product", how + e1 + e2);
          auto w = mv(op < 2 ? A : Trans(A), x0); if (op == 1 || op == 3) w = axpy(1, y0, axpy(a - 1, w, w));
          double d = diffTo(y1, w, max(sc, 1.0)); if (e1.empty()) Require(d <= 1e-9, "hybrid-product", how + "differs from the product with the global matrix by " + S(d));
          if (e2.empty()) Require(diffTo(x1, x0, 1) <= 1e-9, "hybrid-product", how + "the input was changed");
          o.stat["products"] += 1;
        }
    }
}

// ------------------------------------------------------------------ concentrated vectors
void OracleDCC (Session & s, const Numbering & num, amg::DCCMap<double> * map, function<unique_ptr<BaseVector>()> mk, const string & what, uint64_t seed, Outcome & o)
{
  bool here = num.here[s.rank] && map;
  if (!AnyRank(here)) return;
  Rng q(seed); int n = num.nglob * num.bs;
  auto md = here ? map->GetMasterDOFs() : nullptr;
  for (int rep = 0; rep < 2; rep++)
    {
      vector<double> g(n); for (auto & t : g) t = q.uni() - 0.5; uint64_t sp = q.next();
      unique_ptr<BaseVector> v; if (here) v = mk();
      ScatterSplit(num, g, v.get(), sp);
      if (here) { map->StartDIS2CO(*v); map->ApplyDIS2CO(*v); map->FinishDIS2CO(); }
      // now: owners hold everything, the others nothing
      string bad; int owned = 0;
      if (here) { auto f = v->FVDouble(); for (size_t d = 0; d < num.l2g[s.rank].size(); d++) { bool m = !md || md->Test(d); owned += m; for (int c = 0; c < num.bs; c++) { double y = f[d * num.bs + c], w = m ? g[size_t(num.l2g[s.rank][d]) * num.bs + c] : 0.0; if (!(fabs(y - w) <= 1e-12)) bad = (m ? "the owner has not got the sum of all parts" : "a copy was not cleared"); } } }
      if (bad.size()) sim::Report("concentrate", what + "rank " + S(s.rank) + ": " + bad);
      long tot = owned; { string h((char*)&tot, 8); auto & all = ShareBlobs(h); long t = 0; for (int r = 0; r < sim::NumRanks(); r++) { long x; memcpy(&x, all[r].data(), 8); t += x; } sim::OutOfBandBarrier(); if (s.rank == 0) Require(t == num.nglob, "ownership", what + S(t) + " owned DOFs, there are " + S(num.nglob)); }
      if (here) { auto f = v->FVDouble(); for (size_t d = 0; d < num.l2g[s.rank].size(); d++) if (md && !md->Test(d)) for (int c = 0; c < num.bs; c++) f[d * num.bs + c] = 77; 
                  map->StartCO2CU(*v); map->ApplyCO2CU(*v); map->FinishCO2CU(); 
                  string b2; for (size_t d = 0; d < num.l2g[s.rank].size(); d++) for (int c = 0; c < num.bs; c++) { double y = f[d * num.bs + c], w = g[size_t(num.l2g[s.rank][d]) * num.bs + c]; if (!(fabs(y - w) <= 1e-12)) b2 = "a copy has not got the value of the owner"; }
                  if (b2.size()) sim::Report("concentrate", what + "rank " + S(s.rank) + ": " + b2); }
      if (s.rank == 0) o.stat["concentrations"] += 1;
    }
}

// ------------------------------------------------------------------ the cycle, put together from its parts
bool ReferenceCycle (Session & s, vector<LevelView> & H, int vwb, Dense & B, string & why)
{
  int L = H.size(); vector<Dense> Mf(L), Mb(L);
  for (int l = 0; l + 1 < L; l++)
    {
      string e; Mf[l] = ProbeSmoother(s, H[l], l, false, e); Mb[l] = ProbeSmoother(s, H[l], l, true, e);
      if (e.size()) { why = e; return false; }
      if (H[l].errA.size() || H[l].errP.size() || H[l].errR.size() || !H[l].hasA) { why = "level " + S(l) + ": " + H[l].errA + H[l].errP + H[l].errR; return false; }
    }
  if (s.rank) return true;
  auto & W = H[L-1]; Dense BL(W.num->nglob * W.num->bs, W.num->nglob * W.num->bs);
  if (W.hasA)
    {
      Dense id(BL.h, BL.h); for (int i = 0; i < BL.h; i++) id(i, i) = 1;
      // constrained rows (only if the finest level is also the coarsest one) do not occur here: coarse levels have none
      if (!CholSolve(W.A, id)) { why = "#coarse operator is not positive definite"; return false; }
      BL = id;
    }
  auto add = [](Dense a, const Dense & b, double f) { for (size_t k = 0; k < a.a.size(); k++) a.a[k] += f * b.a[k]; return a; };
  // x <- x + M (I - A x)
  auto relax = [&](const Dense & X, const Dense & M, const Dense & A) { return add(add(X, M, 1), Mul(M, Mul(A, X)), -1); };
  vector<Dense> V(L); V[L-1] = BL;
  auto build = [&](vector<Dense> & T, int l, int mode)
    {
      auto & A = H[l].A; auto & P = H[l].P; Dense K = Mul(P, Mul(T[l+1], H[l].R));
      if (mode == 0) { Dense X = Mf[l]; X = relax(X, K, A); X = relax(X, Mb[l], A); T[l] = X; }
      else if (mode == 1) { Dense X = Mf[l]; X = relax(X, K, A); X = relax(X, Mb[l], A); X = relax(X, Mf[l], A); X = relax(X, K, A); X = relax(X, Mb[l], A); T[l] = X; }
      else { Dense X = V[l]; X = relax(X, K, A); X = relax(X, V[l], A); T[l] = X; }
    };
  for (int l = L - 2; l >= 0; l--) build(V, l, 0);
  if (vwb == 0) { B = V[0]; return true; }
  vector<Dense> T(L); T[L-1] = BL;
  for (int l = L - 2; l >= 0; l--) build(T, l, vwb);
  B = T[0]; return true;
}
void OracleCycle (Session & s, vector<LevelView> & H, const Dense & B, int vwb, Outcome & o)
{
  if (H.size() < 2) return;
  Dense R; string why; bool ok = ReferenceCycle(s, H, vwb, R, why);
  if (s.rank) return;
  if (!ok) { Require(why[0] == '#', "cycle", why); o.stat["cycle_skipped"] += 1; return; }
  double sc = max(R.maxabs(), 1e-300), d = Sub(B, R).maxabs();
  o.stat["cycles"] += 1;
  Require(d <= (1e-8 + 100 * s.amp) * sc, "cycle", "the preconditioner differs from the multigrid cycle put together from its levels by " + S(d / sc));
}
}
