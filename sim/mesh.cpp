// Finite element problems: meshes, partitions, spaces and forms, set up through NGSolve as a user would.
#include "session.hpp"
#include <comp.hpp>
namespace harness
{
shared_ptr<MeshModel> MakeMeshModel (const Params & p)
{
  auto mm = make_shared<MeshModel>(); auto & m = *mm;
  m.dim = PI(p, "m.dim", 2); m.np = PI(p, "np", 1);
  Rng r(PI(p, "a.seed", 1) * 77 + 5), pr(PI(p, "a.pseed", 1) * 31 + 7);
  int nx = max(1L, PI(p, "m.nx", 4)), ny = max(1L, PI(p, "m.ny", 4)), nz = max(1L, PI(p, "m.nz", 2));
  double pert = PD(p, "m.pert", 0), lx = PD(p, "m.lx", 1);
  int kx = nx + 1, ky = ny + 1, kz = m.dim == 3 ? nz + 1 : 1;
  auto id = [&](int i, int j, int k) { return (k * ky + j) * kx + i; };
  for (int k = 0; k < kz; k++) for (int j = 0; j < ky; j++) for (int i = 0; i < kx; i++)
    {
      double x = double(i) / nx, y = double(j) / ny, z = m.dim == 3 ? double(k) / nz : 0;
      auto in = [&](int a, int n) { return a > 0 && a < n; };
      if (in(i, nx)) x += pert * (r.uni() - 0.5) / nx;
      if (in(j, ny)) y += pert * (r.uni() - 0.5) / ny;
      if (m.dim == 3 && in(k, nz)) z += pert * (r.uni() - 0.5) / nz;
      m.pts.push_back(x * lx); m.pts.push_back(y); m.pts.push_back(z);
    }
  auto addEl = [&](vector<int> v) { MeshModel::El e; for (int k = 0; k < 4; k++) e.v[k] = k < (int)v.size() ? v[k] : -1; e.mat = 0; e.owner = 0; m.els.push_back(e); };
  auto addB = [&](vector<int> v, int bc) { MeshModel::Bnd b; for (int k = 0; k < 3; k++) b.v[k] = k < (int)v.size() ? v[k] : -1; b.bc = bc; b.owner = 0; m.bnds.push_back(b); };
  if (m.dim == 2)
    {
      for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++)
        {
          int a = id(i,j,0), b = id(i+1,j,0), c = id(i+1,j+1,0), d = id(i,j+1,0);
          if (r.flip(0.5)) { addEl({a,b,c}); addEl({a,c,d}); } else { addEl({a,b,d}); addEl({b,c,d}); }
        }
      for (int i = 0; i < nx; i++) { addB({id(i,0,0), id(i+1,0,0)}, 0); addB({id(i+1,ny,0), id(i,ny,0)}, 2); }
      for (int j = 0; j < ny; j++) { addB({id(nx,j,0), id(nx,j+1,0)}, 1); addB({id(0,j+1,0), id(0,j,0)}, 3); }
    }
  else
    {
      for (int k = 0; k < nz; k++) for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++)
        {
          // Kuhn: paths from corner 000 to 111
          static const int perm[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
          for (auto & q : perm)
            {
              int c[3] = {i, j, k}; vector<int> v{id(i,j,k)}; for (int s = 0; s < 3; s++) { c[q[s]]++; v.push_back(id(c[0], c[1], c[2])); }
              double a[3][3]; for (int s = 0; s < 3; s++) for (int t = 0; t < 3; t++) a[s][t] = m.pts[3*v[s+1]+t] - m.pts[3*v[0]+t];
              double det = a[0][0]*(a[1][1]*a[2][2]-a[1][2]*a[2][1]) - a[0][1]*(a[1][0]*a[2][2]-a[1][2]*a[2][0]) + a[0][2]*(a[1][0]*a[2][1]-a[1][1]*a[2][0]);
              if (det > 0) swap(v[2], v[3]);   // orientation used by Netgen
              addEl(v);
            }
        }
      // boundary faces: faces with one element, classified by their plane
      map<array<int,3>,vector<pair<int,int>>> fc;
      for (size_t e = 0; e < m.els.size(); e++) for (int f = 0; f < 4; f++) { array<int,3> a; int c = 0; for (int k = 0; k < 4; k++) if (k != f) a[c++] = m.els[e].v[k]; sort(a.begin(), a.end()); fc[a].push_back({int(e), f}); }
      for (auto & x : fc) if (x.second.size() == 1)
        {
          auto & a = x.first; int bc = 0; auto all = [&](int d, double val) { for (int v : a) if (fabs(m.pts[3*v+d] - val) > 1e-9) return false; return true; };
          bc = all(2, 0) ? 0 : all(1, 0) ? 1 : all(0, lx) ? 2 : all(1, 1) ? 3 : all(0, 0) ? 4 : 5;
          int op = m.els[x.second[0].first].v[x.second[0].second]; vector<int> v{a[0], a[1], a[2]};
          double s[2][3], w[3]; for (int t = 0; t < 3; t++) { s[0][t] = m.pts[3*v[1]+t]-m.pts[3*v[0]+t]; s[1][t] = m.pts[3*v[2]+t]-m.pts[3*v[0]+t]; w[t] = m.pts[3*op+t]-m.pts[3*v[0]+t]; }
          double det = s[0][0]*(s[1][1]*w[2]-s[1][2]*w[1]) - s[0][1]*(s[1][0]*w[2]-s[1][2]*w[0]) + s[0][2]*(s[1][0]*w[1]-s[1][1]*w[0]);
          if (det > 0) swap(v[1], v[2]);
          addB(v, bc);
        }
    }
  int nv = m.pts.size() / 3, ne = m.els.size(), nc = m.dim + 1;
  // numbering
  if (PI(p, "m.perm", 0))
    {
      vector<int> q(nv); iota(q.begin(), q.end(), 0); for (int i = nv - 1; i > 0; i--) swap(q[i], q[r.below(i+1)]);
      vector<double> np(m.pts.size()); for (int i = 0; i < nv; i++) for (int k = 0; k < 3; k++) np[3*q[i]+k] = m.pts[3*i+k]; m.pts = np;
      for (auto & e : m.els) for (int k = 0; k < nc; k++) e.v[k] = q[e.v[k]];
      for (auto & b : m.bnds) for (int k = 0; k < m.dim; k++) b.v[k] = q[b.v[k]];
      for (int i = ne - 1; i > 0; i--) swap(m.els[i], m.els[r.below(i+1)]);
    }
  auto ctr = [&](const MeshModel::El & e, int d) { double s = 0; for (int k = 0; k < nc; k++) s += m.pts[3*e.v[k]+d]; return s / nc; };
  // materials
  m.nmat = max(1L, PI(p, "m.nmat", 1));
  { vector<array<double,3>> c(m.nmat); for (auto & x : c) x = {r.uni() * lx, r.uni(), m.dim == 3 ? r.uni() : 0.0}; for (auto & e : m.els) { double best = 1e300; for (int k = 0; k < m.nmat; k++) { double d = 0; for (int t = 0; t < 3; t++) d += (ctr(e,t)-c[k][t])*(ctr(e,t)-c[k][t]); if (d < best) { best = d; e.mat = k; } } } }
  // partition of the elements onto the ranks 1 .. np-1
  string part = P(p, "a.part", "blob"); int nw = m.np - 1;
  if (nw > 0)
    {
      int use = part == "empty" ? max(1, nw - pr.range(1, max(1, nw / 2))) : nw;
      vector<int> pm(nw); iota(pm.begin(), pm.end(), 1); for (int i = nw - 1; i > 0; i--) swap(pm[i], pm[pr.below(i+1)]);
      vector<array<double,3>> c(use); for (auto & x : c) x = {pr.uni() * lx, pr.uni(), m.dim == 3 ? pr.uni() : 0.0};
      for (auto & e : m.els)
        {
          if (part == "strip") e.owner = 1 + min(nw - 1, int(ctr(e, 0) / lx * nw));
          else if (part == "rand" || part == "randel") e.owner = pr.flip(0.7) && part == "randel" ? pm[0] : pm[pr.below(nw)];
          else if (part == "skew") e.owner = pm[pr.flip(0.08) ? pr.below(nw) : nw - 1];
          else { double best = 1e300; for (int k = 0; k < use; k++) { double d = 0; for (int t = 0; t < 3; t++) d += (ctr(e,t)-c[k][t])*(ctr(e,t)-c[k][t]); if (d < best) { best = d; e.owner = pm[k]; } } }
        }
    }
  map<vector<int>,int> own; for (auto & e : m.els) for (int f = 0; f < nc; f++) { vector<int> a; for (int k = 0; k < nc; k++) if (k != f) a.push_back(e.v[k]); sort(a.begin(), a.end()); own[a] = e.owner; }
  for (auto & b : m.bnds) { vector<int> a(b.v, b.v + m.dim); sort(a.begin(), a.end()); b.owner = own[a]; }
  vector<set<int>> pr2(nv); for (auto & e : m.els) for (int k = 0; k < nc; k++) pr2[e.v[k]].insert(e.owner);
  m.procs.resize(nv); m.verts.resize(m.np);
  for (int v = 0; v < nv; v++) for (int q : pr2[v]) { m.procs[v].push_back(q); m.verts[q].push_back(v); }
  return mm;
}

typedef shared_ptr<CoefficientFunction> CF;
static CF comp (CF c, int k) { return c->Dimension() == 1 ? c : MakeComponentCoefficientFunction(c, k); }
static CF vec (vector<CF> v) { Array<CF> a; for (auto & x : v) a.Append(x); return MakeVectorialCoefficientFunction(std::move(a)); }

int MeshDofDim (const Params & p) { string pde = P(p, "m.pde", "h1"); int D = PI(p, "m.dim", 2); return pde == "h1" ? PI(p, "a.bs", 1) : pde == "elast" ? D : D + D * (D - 1) / 2; }

static vector<double> materials (const Params & p, const Problem & pr, double scale)
{
  Rng r(PI(p, "a.seed", 1) * 7 + 1), h(PI(p, "a.seed", 1) * 11 + PI(p, "hist.k", 0)); double jump = PD(p, "m.jump", 0); vector<double> v;
  for (int k = 0; k < pr.mesh->nmat; k++) { v.push_back(scale * pow(10.0, (2 * r.uni() - 1) * jump / 2)); if (PI(p, "hist.k", 0)) v.back() *= pow(10.0, h.uni() * 2 - 1); }
  return v;
}
static shared_ptr<BilinearForm> MakeForm (const Params & p, const Problem & pr, shared_ptr<FESpace> fes, double scale, vector<shared_ptr<ParameterCoefficientFunction<double>>> * mats = nullptr)
{
  string pde = P(p, "m.pde", "h1"); int D = pr.mesh->dim; bool cmp = PI(p, "m.compound", 0);
  Flags bf; if (PI(p, "m.condense", 0)) bf.SetFlag("eliminate_internal");
  auto bfa = CreateBilinearForm(fes, "a", bf);
  Array<CF> dc; auto vals = materials(p, pr, scale);
  for (double v : vals)
    if (mats) { auto c = make_shared<ParameterCoefficientFunction<double>>(v); mats->push_back(c); dc.Append(c); }
    else dc.Append(make_shared<ConstantCoefficientFunction>(v));
  CF mu = pr.mesh->nmat == 1 ? dc[0] : MakeDomainWiseCoefficientFunction(std::move(dc));
  auto U = fes->GetTrialFunction(), V = fes->GetTestFunction();
  auto add = [&](CF c) { bfa->AddIntegrator(make_shared<SymbolicBilinearFormIntegrator>(c, VOL, VOL)); };
  double mass = PD(p, "m.mass", 0), lam = PD(p, "m.lam", 0);
  CF u, v, gu, gv, w, wt;
  if (pde == "elastR" && cmp)
    {
      shared_ptr<ProxyFunction> pu = U.list[0], pv = V.list[0], pw = U.list[1], pwt = V.list[1];
      u = pu; v = pv; gu = pu->Deriv(); gv = pv->Deriv(); w = pw; wt = pwt;
    }
  else
    {
      shared_ptr<ProxyFunction> pu = U, pv = V; u = pu; v = pv; gu = pu->Deriv(); gv = pv->Deriv();
      if (pde == "elastR")
        {
          auto sub = [&](CF c, int a, int b) { vector<CF> x; for (int k = a; k < b; k++) x.push_back(comp(c, k)); return x.size() == 1 ? x[0] : vec(x); };
          int nd = MeshDofDim(p); w = sub(u, D, nd); wt = sub(v, D, nd); u = sub(u, 0, D); v = sub(v, 0, D);
          auto g = [&](CF c) { vector<CF> x; for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) x.push_back(comp(c, i * D + j)); auto z = vec(x); z->SetDimensions(Array<int>{D, D}); return z; };
          gu = g(gu); gv = g(gv);
        }
    }
  if (pde == "h1") { add(mu * InnerProduct(gu, gv)); if (mass > 0) add(make_shared<ConstantCoefficientFunction>(mass) * InnerProduct(u, v)); }
  else
    {
      auto div = [&](CF g) { CF s = comp(g, 0); for (int i = 1; i < D; i++) s = s + comp(g, i * D + i); return s; };
      if (pde == "elast")
        {
          auto sym = [&](CF g) { vector<CF> x; for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) x.push_back(i == j ? comp(g, i*D+j) : make_shared<ConstantCoefficientFunction>(0.5) * (comp(g, i*D+j) + comp(g, j*D+i))); return vec(x); };
          add(mu * InnerProduct(sym(gu), sym(gv)));
        }
      else
        {
          CF zero = make_shared<ConstantCoefficientFunction>(0), m1 = make_shared<ConstantCoefficientFunction>(-1);
          auto skew = [&](CF x) -> CF { if (D == 2) return vec({zero, m1 * comp(x, 0), comp(x, 0), zero});
            return vec({zero, m1 * comp(x, 2), comp(x, 1), comp(x, 2), zero, m1 * comp(x, 0), m1 * comp(x, 1), comp(x, 0), zero}); };
          auto flat = [&](CF g) { vector<CF> x; for (int i = 0; i < D * D; i++) x.push_back(comp(g, i)); return vec(x); };
          add(mu * InnerProduct(flat(gu) + m1 * skew(w), flat(gv) + m1 * skew(wt)));
          if (mass > 0) add(make_shared<ConstantCoefficientFunction>(mass) * InnerProduct(w, wt));
        }
      if (lam > 0) add(make_shared<ConstantCoefficientFunction>(lam) * mu * div(gu) * div(gv));
      if (mass > 0) add(make_shared<ConstantCoefficientFunction>(mass) * InnerProduct(u, v));
    }
  return bfa;
}

static void assemble (shared_ptr<BilinearForm> bfa) { LocalHeap lh(4000000, "assemble"); bfa->Assemble(lh); }

void BuildMeshProblem (const Params & p, const Problem & pr, RankCtx & c)
{
  c.ma = make_shared<MeshAccess>(MakeNetgenMesh(*pr.mesh, c.rank));
  string pde = P(p, "m.pde", "h1"); int D = pr.mesh->dim; bool cmp = PI(p, "m.compound", 0); int nd = MeshDofDim(p);
  string dir; int mask = PI(p, "m.dir", 1); for (int k = 0; k < 6; k++) if (mask & (1 << k)) dir += (dir.size() ? "|" : "") + string("b") + S(k);
  Flags ff; ff.SetFlag("order", double(PI(p, "m.order", 1))); ff.SetFlag("dirichlet", dir.size() ? dir.c_str() : "none");
  if (PI(p, "m.nodalp2", 0)) ff.SetFlag("nodalp2");
  if (nd > 1 && !cmp) ff.SetFlag("dim", double(nd));
  if (!cmp || pde == "h1") c.fes = CreateFESpace("h1ho", c.ma, ff);
  else
    {
      auto vu = CreateFESpace("VectorH1", c.ma, ff);
      if (pde == "elast") c.fes = vu;
      else
        {
          auto vw = CreateFESpace(D == 2 ? "h1ho" : "VectorH1", c.ma, ff);
          c.fes = make_shared<CompoundFESpace>(c.ma, Array<shared_ptr<FESpace>>{vu, vw}, Flags());
        }
    }
  c.fes->Update(); c.fes->FinalizeUpdate();
  c.bfa = MakeForm(p, pr, c.fes, 1.0);
  assemble(c.bfa);
  c.A = c.bfa->GetMatrixPtr();
  c.pd = pr.np > 1 ? c.fes->GetParallelDofs() : nullptr;
  c.freeDofs = c.fes->GetFreeDofs(PI(p, "m.condense", 0));
}

void BuildMeshPC (const Params & p, const Problem & pr, RankCtx & c, double scale)
{
  string pde = P(p, "m.pde", "h1"); int D = pr.mesh->dim;
  string nm = pde == "h1" ? vector<string>{"", "NgsAMG.h1_scal", "NgsAMG.h1_2d", "NgsAMG.h1_3d"}[PI(p, "a.bs", 1)] : D == 2 ? "NgsAMG.elast_2d" : "NgsAMG.elast_3d";
  auto info = GetPreconditionerClasses().GetPreconditioner(nm);
  if (!info) throw std::runtime_error("no preconditioner " + nm);
  c.mats.clear(); c.bfa = MakeForm(p, pr, c.fes, scale, &c.mats);
  Flags fl = MakeFlags(p);
  c.prec = info->creatorbf(c.bfa, fl, "pc");
  c.pc = dynamic_pointer_cast<amg::BaseAMGPC>(c.prec);
  assemble(c.bfa);
  c.A = c.bfa->GetMatrixPtr();
}

void MeshReassemble (const Params & p, const Problem & pr, RankCtx & c)
{
  auto v = materials(p, pr, 1); for (size_t k = 0; k < v.size(); k++) c.mats[k]->SetValue(v[k]);
  LocalHeap lh(4000000, "assemble"); c.bfa->ReAssemble(lh, PI(p, "hist.realloc", 0) && PI(p, "hist.k", 0) % 2);
  c.A = c.bfa->GetMatrixPtr();
}

// kernel vectors and constrained DOFs
void MeshSession (const Params & p, const Problem & pr, Session & s)
{
  auto & c = s.c; int rank = c.rank; string pde = P(p, "m.pde", "h1"); int D = pr.mesh->dim, nd = MeshDofDim(p), bs = s.num->bs;
  // per local DOF: vertex of the mesh (or -1), component of its first entry, free
  string b; auto puti = [&](int x) { b.append((char*)&x, 4); };
  vector<int> vx(c.fes->GetNDof(), -1), cp(c.fes->GetNDof(), 0);
  auto & vs = pr.mesh->verts[rank];
  for (size_t i = 0; i < vs.size(); i++) { Array<DofId> dn; c.fes->GetDofNrs(NodeId(NT_VERTEX, i), dn); for (size_t k = 0; k < dn.Size(); k++) if (IsRegularDof(dn[k])) { vx[dn[k]] = vs[i]; cp[dn[k]] = k; } }
  for (size_t d = 0; d < vx.size(); d++) { puti(vx[d]); puti(cp[d]); puti(c.freeDofs ? c.freeDofs->Test(d) : 1); }
  auto & all = ShareBlobs(b); int n = s.N();
  s.fr.assign(n, 1); s.kernOk.assign(n, 0);
  int nk = pde == "h1" ? nd : D + D * (D - 1) / 2; s.kern.assign(nk, vector<double>(n, 0.0));
  for (int q = 0; q < s.num->np; q++) for (size_t d = 0; d < s.num->l2g[q].size(); d++)
    {
      int t[3]; memcpy(t, all[q].data() + 12 * d, 12); int g = s.num->l2g[q][d];
      for (int k = 0; k < bs; k++)
        {
          int i = g * bs + k, cc = t[1] + k; s.fr[i] = t[2]; if (t[0] < 0) continue;
          s.kernOk[i] = 1; const double * x = &pr.mesh->pts[3 * t[0]];
          if (cc < (pde == "h1" ? nd : D)) s.kern[cc][i] = 1;
          if (pde != "h1")
            {
              if (D == 2) { if (cc == 0) s.kern[2][i] = -x[1]; else if (cc == 1) s.kern[2][i] = x[0]; else s.kern[2][i] = 1; }
              else for (int a = 0; a < 3; a++)   // rotation about axis a: e_a x x
                { if (cc < 3) { int e = (a + 1) % 3, f = (a + 2) % 3; if (cc == e) s.kern[3+a][i] = -x[f]; if (cc == f) s.kern[3+a][i] = x[e]; } else if (cc == 3 + a) s.kern[3+a][i] = 1; }
            }
        }
    }
  sim::OutOfBandBarrier();
  string err; s.A = GlobalMatrix(Unwrap(c.A).get(), *s.num, *s.num, true, true, err);
  if (err.size() && rank == 0) Require(false, "harness", "matrix of the problem: " + err);
}

Params GenMesh (uint64_t seed, bool thorough, Rng & r, int maxDofs)
{
  Params p; p["mode"] = "mesh";
  p["np"] = S(r.pick(thorough ? vector<int>{1, 2, 3, 3, 4, 4, 5, 6, 7, 8} : vector<int>{1, 2, 3, 3, 4, 4, 5, 6}));
  p["a.seed"] = S(r.below(1000000)); p["a.pseed"] = S(r.below(1000000));
  int D = r.flip(0.7) ? 2 : 3; p["m.dim"] = S(D);
  string pde = r.pick(vector<string>{"h1", "h1", "elast", "elast", "elastR"}); if (D == 3 && pde == "elastR") pde = "elast";
  p["m.pde"] = pde; if (pde == "h1") p["a.bs"] = S(r.pick(vector<int>{1, 1, 1, 2, 3}));
  int nd = MeshDofDim(p);
  if (pde != "h1" && r.flip(0.3)) p["m.compound"] = "1";
  int order = r.flip(0.25) ? 2 : 1; p["m.order"] = S(order);
  int nv = max(8, maxDofs / nd / (order == 2 ? 4 : 1));
  if (D == 2) { int nx = r.range(2, max(3, int(sqrt(nv) * 1.8))), ny = max(1, nv / (nx + 1) - 1); ny = max(1, min(ny, r.range(2, 12))); p["m.nx"] = S(nx); p["m.ny"] = S(ny); p["m.lx"] = S(r.flip(0.3) ? double(nx) / ny : r.pick(vector<double>{1, 1, 0.3, 4})); }
  else { int nx = r.range(1, 3), ny = r.range(1, 2), nz = max(1, min(3, nv / ((nx + 1) * (ny + 1)) - 1)); p["m.nx"] = S(nx); p["m.ny"] = S(ny); p["m.nz"] = S(nz); p["m.lx"] = S(r.pick(vector<double>{1, 1, 2})); }
  p["m.pert"] = S(r.pick(vector<double>{0, 0.3, 0.6}));
  if (r.flip(0.5)) p["m.perm"] = "1";
  if (r.flip(0.4)) { p["m.nmat"] = S(r.range(2, 4)); p["m.jump"] = S(r.pick(vector<double>{1, 3, 6})); }
  p["a.part"] = r.pick(vector<string>{"blob", "blob", "strip", "rand", "randel", "skew", "empty"});
  // linear displacements with linear rotations are integrated with too few points, which can leave a singular matrix: not without a mass
  int k = r.below(4); p["m.dir"] = S(k == 0 ? 0 : r.range(1, (1 << (2 * D)) - 1));
  if (k == 0 || r.flip(0.3) || pde == "elastR") p["m.mass"] = S(pow(10.0, r.uni() * 3 - 2));
  if (r.flip(0.15)) { p["f.ngs_amg_on_dofs"] = "s:select"; p["f.ngs_amg_subset"] = "s:free"; }
  if (r.flip(0.1)) p["m.condense"] = "1";
  if (pde != "h1" && r.flip(0.3)) p["m.lam"] = S(r.pick(vector<double>{0.3, 1, 10}));
  return p;
}
}
