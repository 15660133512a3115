#include "harness.hpp"
namespace harness
{
static Params gen (uint64_t seed, bool th) { Rng r(seed * 77 + 1); Params p = GenAlg(seed, th, r); GenFaults(p, r); return p; }
static void run (const Params & p, Outcome & o)
{
  Problem pr = MakeProblem(p);
  Config cfg = MakeConfig(p, false);
  RunResult r = sim::Run(cfg, [&](int rank) {
        RankCtx c; c.rank = rank;
        BuildLocal(pr, c);
        BuildPC(p, pr, c);
        auto am = c.pc->GetAMGMatrix(); auto m = am->GetMap();
        string s;
        for (int l = 0; l < m->GetNLevels(); l++)
          {
            auto v = m->CreateVector(l);
            s += "L" + S(l) + (v ? " nd " + S(v->Size()) : " none");
            if (l < m->GetNLevels())
              {
                auto A = l < int(m->GetNSteps()) ? const_cast<amg::BaseSmoother&>(*am->GetSmoother(l)).GetAMatrix() : nullptr;
                vector<int> R, C; vector<double> V;
                if (A) { auto lm = Unwrap(A); LocalTriplets(lm.get(), R, C, V); int bad = 0; for (auto v : V) if (!isfinite(v)) bad++; s += " nnz " + S(V.size()) + " bad " + S(bad); }
              }
            s += "; ";
          }
        if (am->GetCINV()) s += " cinv ";
        if (auto cm = am->GetMatrix(9999)) { vector<int> R, C; vector<double> V; LocalTriplets(Unwrap(cm).get(), R, C, V); int bad = 0; for (auto v : V) if (!isfinite(v)) bad++; s += " cmat nnz " + S(V.size()) + " bad " + S(bad);
          Dense D(cm->Height(), cm->Width()); if (R.size()) { int H = 0; for (auto x : R) H = max(H, x + 1); D = Dense(H, H); for (size_t i = 0; i < R.size(); i++) D(R[i], C[i]) += V[i]; for (double e : EigSym(D)) s += " " + S(e); } }
        o.info["rank" + S(rank)] = s;
        auto shared = ShareBlobs(s);
        if (getenv("DBG_PRINT")) for (int r = 0; r < pr.np; r++) { if (r == rank) { cout << "=== rank " << r << endl; for (int l = 0; l < (int)m->GetNSteps(); l++) { m->GetStep(l)->PrintTo(cout, ""); 
           if (auto cd = dynamic_pointer_cast<amg::ConcDMS>(m->GetStep(l))) for (int k = 0; k < 4; k++) if (auto pm = k < cd->GetNSteps() ? dynamic_pointer_cast<amg::ProlMap<double>>(cd->GetStep(k)) : nullptr) cout << *pm->GetProl() << endl; } } sim::OutOfBandBarrier(); }
        if (getenv("DBG_PRINT")) { auto in = m->CreateVector(1); auto out = m->CreateVector(0); for (int j = 0; j < 4; j++) { if (in) { in->FVDouble() = 0; if (in->Size() > j) in->FVDouble()[j] = 1; in->SetParallelStatus(CUMULATED); } m->TransferC2F(0, out.get(), in.get()); string t; auto f = out->FVDouble(); for (int i = 0; i < f.Size(); i++) if (f[i]) t += " " + S(i) + ":" + S(f[i]); o.info["col" + S(j) + "r" + S(rank)] = t; } }
        { auto H = ProbeHierarchy(*am, HV_P | HV_A | HV_R);
          if (rank == 0) for (size_t l = 0; l < H->size(); l++) { auto & v = (*H)[l]; string t = "n " + S(v.num->nglob) + " " + v.num->error + " eP " + v.errP + " eR " + v.errR + " eA " + v.errA;
            if (v.hasP) { t += " zero P rows:"; int z = 0; for (int i = 0; i < v.P.h; i++) { double m = 0; for (int j = 0; j < v.P.w; j++) m = max(m, fabs(v.P(i,j))); if (m == 0) z++; } t += S(z); t += " colnorms:"; for (int j = 0; j < v.P.w; j++) { double m = 0; int c = 0; for (int i = 0; i < v.P.h; i++) { m += v.P(i,j)*v.P(i,j); c += v.P(i,j) != 0; } if (m < 0.1) t += " " + S(j) + ":" + S(sqrt(m)) + "/" + S(c); } t += " P-R' " + S(Sub(v.P, Trans(v.R)).maxabs()); if (l + 1 < H->size()) t += " gal " + S(Sub(Mul(v.R, Mul(v.A, v.P)), (*H)[l+1].A).maxabs()); 
              t += " sym " + S(Sub(v.A, Trans(v.A)).maxabs()); auto ev = EigSym(v.A); t += " eig " + S(ev[0]) + " " + S(ev[1]) + " " + S(ev.back());
            }
            if (getenv("DBG_P") && v.hasP) { t += " P:"; for (int i = 0; i < v.P.h; i++) { t += "\n " + S(i) + ":"; for (int j = 0; j < v.P.w; j++) if (v.P(i,j) != 0) t += " " + S(j) + "=" + S(v.P(i,j)); } t += "\n A:"; for (int i = 0; i < v.A.h; i += v.num->bs) { t += "\n " + S(i) + ":"; for (int j = 0; j < v.A.w; j += v.num->bs) if (v.A(i,j) != 0) t += " " + S(j) + "=" + S(v.A(i,j)); } }
            o.info["H" + S((int)l)] = t; }
            if (rank == 0 && getenv("DBG_COL")) { int c = atoi(getenv("DBG_COL")); auto & v = (*H)[0]; string t; vector<int> gv(v.num->nglob); for (int q = 0; q < v.num->np; q++) for (size_t d = 0; d < v.num->l2g[q].size(); d++) gv[v.num->l2g[q][d]] = pr.l2g[q][d];
                 vector<int> ag; for (int i = 0; i < v.P.h; i++) if (v.P(i, c) != 0) ag.push_back(i);
                 for (int i : ag) { t += "\n  vert " + S(gv[i]) + " P " + S(v.P(i,c)) + " dir " + S(int(pr.dir[gv[i]])) + " ranks"; for (int q : pr.procs[gv[i]]) t += " " + S(q); t += " nbs"; for (int j = 0; j < pr.n; j++) if (j != gv[i]) { double x = pr.A(gv[i]*pr.bs, j*pr.bs); bool conn = false; for (auto & e : pr.els) { bool a = false, b = false; for (int u : e.v) { a |= u == gv[i]; b |= u == j; } conn |= a && b; } if (conn) { t += " " + S(j) + ":" + S(x) + "("; for (int q : pr.procs[j]) t += S(q); t += pr.dir[j] ? "D)" : ")"; } } }
                 o.info["COL"] = t; }
            if (rank == 0) { auto & v = (*H)[0]; string t; for (int q = 0; q < v.num->np; q++) { t += " | " + S(q) + ":"; for (size_t d = 0; d < v.num->l2g[q].size(); d++) if (v.num->count[v.num->l2g[q][d]] > 1) t += " " + S(int(d)) + "=" + S(v.num->l2g[q][d]) + "f" + S(int(!pr.dir[pr.l2g[q][d]])); } o.info["shared"] = t; } }
        // one cycle with checks
        auto num = NumberPD(c.pd, pr.l2g[rank].size(), pr.bs, true);
        vector<double> g(num->nglob * num->bs); Rng q(5); for (auto & t : g) t = q.uni() - 0.5;
        vector<shared_ptr<BaseVector>> xs, bs, rs;
        for (int l = 0; l < m->GetNLevels(); l++) { xs.push_back(m->CreateVector(l)); bs.push_back(m->CreateVector(l)); rs.push_back(m->CreateVector(l)); }
        ScatterVec(*num, g, bs[0].get(), true);
        auto fin = [](BaseVector & v) { for (auto e : v.FVDouble()) if (!isfinite(e)) return 0; return 1; };
        for (int l = 0; l + 1 < m->GetNLevels(); l++)
          {
            xs[l]->FVDouble() = 0; xs[l]->SetParallelStatus(CUMULATED); rs[l]->FVDouble() = bs[l]->FVDouble(); rs[l]->SetParallelStatus(bs[l]->GetParallelStatus());
            am->GetSmoother(l)->Smooth(*xs[l], *bs[l], *rs[l], true, true, true);
            o.info["c" + S(rank)] += " smooth" + S(l) + " " + S(fin(*xs[l])) + S(fin(*rs[l]));
            rs[l]->Distribute();
            m->TransferF2C(l, rs[l].get(), bs[l+1].get());
            if (bs[l+1]) o.info["c" + S(rank)] += " r" + S(fin(*bs[l+1]));
          }
      });
  o.Add(r);
}
static RegisterCheck c00("DBG", gen, run);
}
