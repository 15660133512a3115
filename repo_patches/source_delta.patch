From 0e3fbebeda052661ce304ff6e7deb8add6615e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 01/20] fix: keep send buffers of sparse matrices alive until
 all of their messages have completed

The width header lived in an array that was reallocated by the next send, and the
requests of the header, row offsets and column indices were freed without ever being
waited for, so the matrix could be deleted while they were still being sent.
---
 src/base/distributed/mpiwrap_extension.hpp | 42 +++++++++++-----------
 src/base/linalg/hybrid_matrix.cpp          |  4 +--
 2 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/base/distributed/mpiwrap_extension.hpp b/src/base/distributed/mpiwrap_extension.hpp
index cf87fa6..e0769ea 100644
--- a/src/base/distributed/mpiwrap_extension.hpp
+++ b/src/base/distributed/mpiwrap_extension.hpp
@@ -3,6 +3,8 @@
 
 #include <base.hpp>
 
+#include <deque>
+
 namespace amg
 {
 
@@ -125,37 +127,36 @@ Bcast(tab.AsArray(), root);
 
 private:
   INLINE Timer<TTracing, TTiming>& thack_isend_spm () const { static Timer t("ISend SPM"); return t; }
-  mutable Array<size_t> hacky_w_buffer;
+  // widths of matrices being sent; std::deque because entries must not move while a send is pending
+  mutable std::deque<size_t> hacky_w_buffer;
 public:
   void cleanup_hacky_w_buffer ()
-  { hacky_w_buffer = Array<size_t>(0); }
+  { hacky_w_buffer.clear(); }
+
+  /**
+   *  Appends the requests of all messages to "reqs". The matrix, as well as this communicator object,
+   *  must stay alive and unchanged until all of them have completed.
+   */
   template<typename T, typename T2 = decltype(GetMPIType<T>())>
-  NG_MPI_Request ISend (const ngla::SparseMatrixTM<T> & spm, int dest, int tag) const {
+  void ISend (const ngla::SparseMatrixTM<T> & spm, int dest, int tag, Array<NG_MPI_Request> & reqs) const {
 #ifdef PARALLEL
     if (!valid_comm)
-      { return NG_MPI_REQUEST_NULL; }
+      { return; }
     RegionTimer rt(thack_isend_spm());
-    size_t H = spm.Height(); // size_t W = spm.Width();
-    // if (H != W) throw Exception("cant rly deal with H!=W ISend"); // need to send W, need temporary mem
-    hacky_w_buffer.Append(spm.Width());
-    auto& W = hacky_w_buffer.Last();
-    NG_MPI_Request req = ISend (W, dest, tag);
-    NG_MPI_Request_free(&req);
-    req = ISend (spm.GetFirstArray(), dest, tag);
+    size_t H = spm.Height();
+    hacky_w_buffer.push_back(spm.Width());
+    auto& W = hacky_w_buffer.back();
+    reqs.Append(ISend (W, dest, tag));
+    reqs.Append(ISend (spm.GetFirstArray(), dest, tag));
     size_t nzes = spm.GetFirstArray().Last();
     if ( (H > 0) && (W > 0) ) {
-NG_MPI_Request_free(&req);
 int* cp = spm.GetRowIndices(0).Data();
 FlatArray<int> cols(nzes, cp);
-req = ISend (cols, dest, tag);
-NG_MPI_Request_free(&req);
+reqs.Append(ISend (cols, dest, tag));
 T* vp = spm.GetRowValues(0).Data();
 FlatArray<T> vals(nzes, vp);
-req = ISend (vals, dest, tag);
+reqs.Append(ISend (vals, dest, tag));
     }
-    return req;
-#else
-  return 0;
 #endif
   }
 
@@ -168,8 +169,9 @@ public:
     if (!valid_comm)
       { return; }
     RegionTimer rt(thack_send_spm());
-    NG_MPI_Request req = ISend(spm, dest, tag); // well this is just lazy ...
-    NG_MPI_Wait(&req, NG_MPI_STATUS_IGNORE);
+    Array<NG_MPI_Request> reqs;
+    ISend(spm, dest, tag, reqs); // well this is just lazy ...
+    MyMPI_WaitAll(reqs);
 #endif
   }
 
diff --git a/src/base/linalg/hybrid_matrix.cpp b/src/base/linalg/hybrid_matrix.cpp
index 692f923..dd45584 100644
--- a/src/base/linalg/hybrid_matrix.cpp
+++ b/src/base/linalg/hybrid_matrix.cpp
@@ -52,7 +52,7 @@ DecomposeSparseMatrixHybrid (shared_ptr<SparseMatrix<TM>> anA,
 
   typedef SparseMatrixTM<TM> TSPMAT_TM;
   Array<TSPMAT_TM*> send_add_diag_mats(nexp);
-  Array<NG_MPI_Request> rsdmat (nexp);
+  Array<NG_MPI_Request> rsdmat;
   { // create & send diag-blocks for M to masters
     auto SPM_DIAG = [&] (auto dofs) LAMBDA_INLINE
     {
@@ -96,7 +96,7 @@ DecomposeSparseMatrixHybrid (shared_ptr<SparseMatrix<TM>> anA,
     for (auto kp : Range(nexp))
     {
       send_add_diag_mats[kp] = SPM_DIAG(dCCMap.GetGDOFs(kp));
-      rsdmat[kp] = comm.ISend(*send_add_diag_mats[kp], ex_procs[kp], NG_MPI_TAG_AMG);
+      comm.ISend(*send_add_diag_mats[kp], ex_procs[kp], NG_MPI_TAG_AMG, rsdmat);
     }
   } // create & send diag-blocks for M to masters
 
-- 
2.43.0


From 646cf05b6e2f49e4bc449ee343f5a453ee80b457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 02/20] fix: set up the vertex to equivalence class map of
 pairwise aggregation on ranks without shared vertices

ConcatenateProper and the pairing and joining iterations use the map on every rank of a
truly parallel communicator, but it was left empty where there is only one class.
---
 src/base/coarsening/spw_agg_impl.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/base/coarsening/spw_agg_impl.hpp b/src/base/coarsening/spw_agg_impl.hpp
index 5ead0f1..f223833 100644
--- a/src/base/coarsening/spw_agg_impl.hpp
+++ b/src/base/coarsening/spw_agg_impl.hpp
@@ -72,11 +72,13 @@ public:
       // we are the first map - construct cv_to_eqc. for other maps, concatenate it!
       auto vMap = GetMap<NT_VERTEX>();
 
+      // also needed on ranks that do not share any vertices, ConcatenateProper and the
+      // pairing/joining iterations access it on all ranks of a truly parallel communicator
+      cv_to_eqc.SetSize(GetMappedNN<NT_VERTEX>());
+      cv_to_eqc = 0;
+
       if ( eqc_h->GetNEQCS() > 1 )
       {
-        cv_to_eqc.SetSize(GetMappedNN<NT_VERTEX>());
-        cv_to_eqc = 0;
-
         // works as long as we only go up/down in hierarchy
         pbtm->template ApplyEQ<NT_VERTEX>(Range(1ul, eqc_h->GetNEQCS()), [&](auto eqc, auto fVNr)
         {
@@ -91,10 +93,6 @@ public:
           }
         }, false);
       }
-      else
-      {
-        cv_to_eqc.SetSize0();
-      }
     }
 
     /** crs edge connectivity and edges **/
-- 
2.43.0


From 3ab4cf2f8dad727c5939d511d8b0ac1bbbe3ac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:12 +0000
Subject: [PATCH 03/20] fix: do not smooth the prolongation of a vertex through
 edges of weight zero only

---
 src/base/factory/vertex_factory_impl.hpp | 43 +++++++++++++-----------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/base/factory/vertex_factory_impl.hpp b/src/base/factory/vertex_factory_impl.hpp
index 5723141..7722b84 100644
--- a/src/base/factory/vertex_factory_impl.hpp
+++ b/src/base/factory/vertex_factory_impl.hpp
@@ -1916,16 +1916,32 @@ SemiAuxSProlMap (shared_ptr<ProlMap<TM>> pw_step,
   // cout << "FM: " << endl << FM << endl;
   // cout << "fecon: " << endl << fecon << endl;
 
+  /** Judge connection to coarse neibs by sum of fine connections. **/
+  Array<double> dg_wt(FNV); dg_wt = 0;
+  FM.template Apply<NT_EDGE>([&](auto & edge) LAMBDA_INLINE {
+    auto approx_wt = ENERGY::GetApproxWeight(fedata[edge.id]);
+    dg_wt[edge.v[0]] = max2(dg_wt[edge.v[0]], approx_wt);
+    dg_wt[edge.v[1]] = max2(dg_wt[edge.v[1]], approx_wt);
+  }, false );
+  FM.template AllreduceNodalData<NT_VERTEX>(dg_wt, [](auto & tab){return std::move(max_table(tab)); }, false);
+
+  /** An edge of weight (almost) zero does not connect a vertex to its agglomerate. Smoothing the prolongation
+      through such edges only can leave the coarse vertex with an empty column. **/
+  constexpr double MIN_CONN_FRAC = 1e-10;
+  auto is_connected_to = [&](auto fvnr, auto cvnr) {
+    auto ovs = fecon.GetRowIndices(fvnr);
+    auto eis = fecon.GetRowValues(fvnr);
+    for (auto j : Range(ovs.Size()))
+      if ( (vmap[ovs[j]] == cvnr) && (ENERGY::GetApproxWeight(fedata[int(eis[j])]) > MIN_CONN_FRAC * dg_wt[fvnr]) )
+        { return true; }
+    return false;
+  };
+
   auto get_cols_classic = [&](auto eqc, auto fvnr) {
     if (eqc != 0) // might still have non-hierarchic neibs on other side!
       { return false; }
-    auto ovs = fecon.GetRowIndices(fvnr);
-    int nniscv = 0; // number neibs in same cv
     auto cvnr = vmap[fvnr];
-    for (auto v : ovs)
-      if (vmap[v] == cvnr)
-        { nniscv++; }
-    if (nniscv == 0) { // no neib that maps to same coarse vertex - use pwprol!
+    if (!is_connected_to(fvnr, cvnr)) { // no neib that maps to same coarse vertex - use pwprol!
       cols.SetSize(1);
       cols[0] = cvnr;
       return true;
@@ -1950,15 +1966,6 @@ SemiAuxSProlMap (shared_ptr<ProlMap<TM>> pw_step,
     return is_ok;
   }; // get_cols_classic
 
-  /** Judge connection to coarse neibs by sum of fine connections. **/
-  Array<double> dg_wt(FNV); dg_wt = 0;
-  FM.template Apply<NT_EDGE>([&](auto & edge) LAMBDA_INLINE {
-    auto approx_wt = ENERGY::GetApproxWeight(fedata[edge.id]);
-    dg_wt[edge.v[0]] = max2(dg_wt[edge.v[0]], approx_wt);
-    dg_wt[edge.v[1]] = max2(dg_wt[edge.v[1]], approx_wt);
-  }, false );
-  FM.template AllreduceNodalData<NT_VERTEX>(dg_wt, [](auto & tab){return std::move(max_table(tab)); }, false);
-
   Array<IVec<2,double>> trow;
   Array<int> tcv;
   auto get_cols_aux = [&](auto EQ, auto V) {
@@ -1968,11 +1975,7 @@ SemiAuxSProlMap (shared_ptr<ProlMap<TM>> pw_step,
       { return; }
     trow.SetSize0(); tcv.SetSize0();
     auto ovs = fecon.GetRowIndices(V);
-    int nniscv = 0; // number neibs in same cv
-    for (auto v : ovs)
-    if (vmap[v] == CV)
-      { nniscv++; }
-    if (nniscv == 0) { // no neib that maps to same coarse vertex - use pwprol!
+    if (!is_connected_to(V, CV)) { // no neib that maps to same coarse vertex - use pwprol!
       cols.SetSize(1);
       cols[0] = CV;
       return;
-- 
2.43.0


From 64d2aa72a9efa3206f610639bbe6f3dc73544188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 04/20] fix: refuse to set up a preconditioner without coarse
 levels instead of dereferencing a null pointer

---
 src/base/factory/base_factory.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/base/factory/base_factory.cpp b/src/base/factory/base_factory.cpp
index aaa27f7..bb14493 100644
--- a/src/base/factory/base_factory.cpp
+++ b/src/base/factory/base_factory.cpp
@@ -254,8 +254,9 @@ SetUpLevels (Array<shared_ptr<BaseAMGFactory::AMGLevel>> & amg_levels, shared_pt
       { logger->PrintLog(cout); }
   }
 
-  // if (dof_map->GetNSteps() == 0)
-  //   { throw Exception("Failed to construct any coarse levels!"); }
+  // without any coarse level there are no level-DOFs to set up the preconditioner with (same decision on all ranks)
+  if (dof_map->GetNSteps() == 0)
+    { throw Exception("Failed to construct any coarse levels!"); }
 
   if (options->check_kvecs)
     { CheckKVecs(amg_levels, dof_map); }
-- 
2.43.0


From 6837fa1da55604ab367a878e2ee577398aca2656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 05/20] fix: do not smooth the level 0 prolongation with the
 not yet embedded matrix on a single rank

---
 src/base/factory/base_factory.cpp        |  2 +-
 src/base/factory/vertex_factory_impl.hpp | 13 +++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/base/factory/base_factory.cpp b/src/base/factory/base_factory.cpp
index bb14493..2716029 100644
--- a/src/base/factory/base_factory.cpp
+++ b/src/base/factory/base_factory.cpp
@@ -392,7 +392,7 @@ shared_ptr<BaseDOFMapStep> BaseAMGFactory::DoStep (shared_ptr<AMGLevel> & f_lev,
     // we need to redistrubte if possible
     state.need_rd |= (goal_meas < c_meas);
     state.need_rd |= meas_fac > O.rd_crs_thresh;
-    prol_map = BuildCoarseDOFMap(state.crs_map, f_cap, state.curr_cap, f_lev->embed_map);
+    prol_map = BuildCoarseDOFMap(state.crs_map, f_cap, state.curr_cap, f_lev->embed_done ? nullptr : f_lev->embed_map);
 
     if (O.enable_redist && TryContractStep(state)) {
       // contract map constructed successfully
diff --git a/src/base/factory/vertex_factory_impl.hpp b/src/base/factory/vertex_factory_impl.hpp
index 7722b84..4685aad 100644
--- a/src/base/factory/vertex_factory_impl.hpp
+++ b/src/base/factory/vertex_factory_impl.hpp
@@ -1885,9 +1885,14 @@ SemiAuxSProlMap (shared_ptr<ProlMap<TM>> pw_step,
 
   /** "fmat" can be the pre-embedded matrix. In that case we can't use it for smoothing. **/
   bool have_fmat = (fmat != nullptr);
-  /** if "fmat" has no pardofs, it is not the original finest level matrix, so fine to use! !**/
-  if ( have_fmat && (fmat->GetParallelDofs() != nullptr) )
-    { have_fmat &= (fmat->GetParallelDofs() == fpds); }
+  /** if "fmat" has no pardofs, it is not the original finest level matrix, unless there are no pardofs at all! **/
+  if ( have_fmat )
+  {
+    if (fmat->GetParallelDofs() != nullptr)
+      { have_fmat &= (fmat->GetParallelDofs() == fpds); }
+    else
+      { have_fmat &= (embMap == nullptr); }
+  }
 
   // cout << " have fmat " << have_fmat << " " << (fmat != nullptr) << endl; //" " << (fmat->GetParallelDofs() == fpds) << endl;
   // cout << " pds " << fmat->GetParallelDofs() << fpds << endl;
@@ -2357,7 +2362,7 @@ SemiAuxSProlMap (shared_ptr<ProlMap<TM>> pw_step,
 
     fmat = actualFmat;
 
-    if ( fmat == nullptr )
+    if ( !have_fmat && (embMap != nullptr) )
     {
       shared_ptr<BaseMatrix> mat = embMap->AssembleMatrix(fcap->mat);
 
-- 
2.43.0


From 9a7affcfab3ff1e4de6675d0625d2007e01fe2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 06/20] hook (NGSAMG_DST): one background communication thread
 per simulated rank

---
 src/base/smoothers/hybrid_base_smoother.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/base/smoothers/hybrid_base_smoother.cpp b/src/base/smoothers/hybrid_base_smoother.cpp
index ad87541..616c613 100644
--- a/src/base/smoothers/hybrid_base_smoother.cpp
+++ b/src/base/smoothers/hybrid_base_smoother.cpp
@@ -68,7 +68,12 @@ if (!end_thread && !thread_done) {
 
 
 shared_ptr<BackgroundMPIThread> GetGlobMPIThread () {
+#ifdef NGSAMG_DST
+  // deterministic simulation: all ranks live in one process, each of them has its own thread
+  static thread_local shared_ptr<BackgroundMPIThread> glob_gt;
+#else
   static shared_ptr<BackgroundMPIThread> glob_gt;
+#endif
   if (glob_gt == nullptr)
     { glob_gt = make_shared<BackgroundMPIThread>(); }
   return glob_gt;
-- 
2.43.0


From 91635d067c1662f030ba4524700ab6736a249fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 07/20] fix: free the internal state of the level setup, it
 kept coarse levels and their MPI communicators forever

---
 src/base/factory/base_factory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/base/factory/base_factory.cpp b/src/base/factory/base_factory.cpp
index 2716029..9c671eb 100644
--- a/src/base/factory/base_factory.cpp
+++ b/src/base/factory/base_factory.cpp
@@ -235,7 +235,8 @@ SetUpLevels (Array<shared_ptr<BaseAMGFactory::AMGLevel>> & amg_levels, shared_pt
   amg_levels.SetAllocSize(O.max_n_levels);
   auto & finest_level = amg_levels[0];
 
-  auto state = NewState(amg_levels[0]);
+  // keeps the objects of all levels (and their communicators) alive, must not outlive the setup
+  std::unique_ptr<State> state(NewState(amg_levels[0]));
 
   RSU(amg_levels, dof_map, *state);
 
-- 
2.43.0


From 22a5217d3d71dfa786234914cc3d16337cd50b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 08/20] fix: release the persistent MPI requests of a DCCMap

---
 src/base/linalg/dcc_map.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/base/linalg/dcc_map.cpp b/src/base/linalg/dcc_map.cpp
index bb46e3a..5c7886c 100644
--- a/src/base/linalg/dcc_map.cpp
+++ b/src/base/linalg/dcc_map.cpp
@@ -70,6 +70,15 @@ DCCMap<TSCAL> :: ~DCCMap ()
 {
   // MyMPI_WaitAll(g_reqs);
   // MyMPI_WaitAll(m_reqs);
+
+#ifdef PARALLEL
+  // persistent requests (AllocMPIStuff) are only released explicitly
+  for (auto reqs : { &m_send, &m_recv, &g_send, &g_recv })
+  {
+    for (auto & req : *reqs)
+      { NG_MPI_Request_free(&req); }
+  }
+#endif
 }
 
 
-- 
2.43.0


From 69679a26b077f94ecb3478d452d5882343eccf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:02 +0000
Subject: [PATCH 09/20] fix: MIS coarsening does not start agglomerates around
 dirichlet vertices next to hanging vertices

---
 src/base/coarsening/mis_agg_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/coarsening/mis_agg_impl.hpp b/src/base/coarsening/mis_agg_impl.hpp
index 5df1e3c..9e5d58d 100644
--- a/src/base/coarsening/mis_agg_impl.hpp
+++ b/src/base/coarsening/mis_agg_impl.hpp
@@ -758,7 +758,7 @@ INLINE void MISAgglomerator<ENERGY, TMESH, ROBUST> :: FormAgglomerates_impl (Arr
         } else { // neib is not in an agg - force start a new one at neib and add this vertex (which must be OK!)
           auto N_eqc = M.template GetEQCOfNode<NT_VERTEX>(N);
           // if ( (eqc_h.IsMasterOfEQC(N_eqc)) && (eqa_to_eqb(eqc, N_eqc) ) ) { // only if it is OK eqc-wise
-          if ( is_mine(N) && eqa_to_eqb(eqc, N_eqc) ) { // have to check if neib is active!
+          if ( (!marked.Test(N)) && is_mine(N) && eqa_to_eqb(eqc, N_eqc) ) { // have to check if neib is active (not a dirichlet vertex)!
             init_agglomerate(N, N_eqc, true); // have to force new agg even if we dont really want to ...
             auto new_agg_id = v_to_agg[N];
             if (!marked.Test(v)) { // might already have been added by init_agg, but probably not
-- 
2.43.0


From fdb2e5546e2303d9264025aee592a033ae27fa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:13 +0000
Subject: [PATCH 10/20] fix: notify the background communication thread under
 its lock when it is told to end

---
 src/base/smoothers/hybrid_base_smoother.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/base/smoothers/hybrid_base_smoother.cpp b/src/base/smoothers/hybrid_base_smoother.cpp
index 616c613..455794c 100644
--- a/src/base/smoothers/hybrid_base_smoother.cpp
+++ b/src/base/smoothers/hybrid_base_smoother.cpp
@@ -26,7 +26,15 @@ public:
     t = make_unique<std::thread>([this](){ this->thread_fpf(); });
   } // BackgroundMPIThread (..)
 
-  ~BackgroundMPIThread () { thread_ready = true; end_thread = true; cv.notify_one(); t->join(); }
+  ~BackgroundMPIThread ()
+  {
+    { // without the lock, the thread can miss the notification and never end
+      std::lock_guard<std::mutex> lk(glob_mut);
+      thread_ready = true; end_thread = true;
+      cv.notify_one();
+    }
+    t->join();
+  }
 
   void thread_fpf () {
 #ifdef USE_TAU
-- 
2.43.0


From d1a7cf7fd72af2568f9c12674129c052e9e5af98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:48 +0000
Subject: [PATCH 11/20] fix: prolongation smoothing must not remove all
 vertices of an agglomerate from it

---
 src/base/factory/vertex_factory_impl.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/base/factory/vertex_factory_impl.hpp b/src/base/factory/vertex_factory_impl.hpp
index 4685aad..4d64bf9 100644
--- a/src/base/factory/vertex_factory_impl.hpp
+++ b/src/base/factory/vertex_factory_impl.hpp
@@ -2145,6 +2145,20 @@ SemiAuxSProlMap (shared_ptr<ProlMap<TM>> pw_step,
       }
     }
 
+    /** If the matrix does not couple the vertex to the rest of its agglomerate (the entries can cancel out),
+        smoothing removes the vertex from its agglomerate altogether. When that happens to all of its members,
+        the column of the coarse vertex is empty. **/
+    constexpr double MIN_OWN_FRAC = 1e-10;
+    auto const &own_pwp = pwprol(fvnr, vmap[fvnr]);
+    auto &own_val = rvs[find_in_sorted_array(vmap[fvnr], ris)];
+    TM const own_sq = Trans(own_val) * own_val;
+    TM const pwp_sq = Trans(own_pwp) * own_pwp;
+    if ( calc_trace(own_sq) <= sqr(MIN_OWN_FRAC) * calc_trace(pwp_sq) )
+    {
+      rvs = 0;
+      own_val = own_pwp;
+    }
+
   }; // fill_sprol_classic
 
   TM Qij(0), Qji(0), QM(0);
-- 
2.43.0


From 7a40e7b6719871c545c4dfaa9035d9df3dcf224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:59 +0000
Subject: [PATCH 12/20] fix: orphan joining of pairwise aggregation must not
 merge vertices of incomparable equivalence classes

---
 src/base/coarsening/spw_agg_impl.hpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/base/coarsening/spw_agg_impl.hpp b/src/base/coarsening/spw_agg_impl.hpp
index f223833..12946a9 100644
--- a/src/base/coarsening/spw_agg_impl.hpp
+++ b/src/base/coarsening/spw_agg_impl.hpp
@@ -1277,11 +1277,25 @@ JoiningIteration (AGG_DATA       const &aggData,
   // int numJoined = 0;
   int NCV = 0;
 
+  // the class of every new agglomerate, it can grow when orphans join
+  Array<int> aggEQC;
+
+  if ( eqc_h.IsTrulyParallel() )
+  {
+    aggEQC.SetSize(FM.template GetNN<NT_VERTEX>());
+    aggEQC = 0;
+  }
+
   // map aggregated to 0..#real aggs
   for (auto k : Range(FM.template GetNN<NT_VERTEX>()))
   {
     if (isAggregated.Test(k))
     {
+      if ( eqc_h.IsTrulyParallel() )
+      {
+        aggEQC[NCV] = v2eq[k];
+      }
+
       vmap[k] = NCV++;
     }
   }
@@ -1324,7 +1338,7 @@ JoiningIteration (AGG_DATA       const &aggData,
     {
       auto const eqV = v2eq[v];
 
-      return FindNeighborToJoin<ENERGY>(
+      auto const joined = FindNeighborToJoin<ENERGY>(
               v,
               aggData,
               cfg,
@@ -1335,12 +1349,20 @@ JoiningIteration (AGG_DATA       const &aggData,
                   return false;
                 }
 
-                auto const eqNeib = v2eq[neib];
+                // NOT v2eq[neib] - orphans of other classes can already have joined
+                auto const eqNeib = aggEQC[vmap[neib]];
 
                 return eqc_h.IsMasterOfEQC(eqNeib) &&
                        ( eqc_h.IsLEQ(eqV, eqNeib) || eqc_h.IsLEQ(eqNeib, eqV) );
               },
               lh);
+
+      if ( ( joined != -1 ) && eqc_h.IsLEQ(aggEQC[vmap[joined]], eqV) )
+      {
+        aggEQC[vmap[joined]] = eqV;
+      }
+
+      return joined;
     });
   }
   else
-- 
2.43.0


From a0d85588dbfa5ab397c115fcd1edb5ed117c6815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:50 +0000
Subject: [PATCH 13/20] fix: pass the options of hybrid smoothers to the base
 class in the right order

---
 src/base/smoothers/gssmoother.cpp      | 2 +-
 src/base/smoothers/hybrid_smoother.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/smoothers/gssmoother.cpp b/src/base/smoothers/gssmoother.cpp
index 4386934..7e1abc2 100644
--- a/src/base/smoothers/gssmoother.cpp
+++ b/src/base/smoothers/gssmoother.cpp
@@ -609,7 +609,7 @@ HybridGSSmoother (shared_ptr<BaseMatrix> _A,
                   bool _in_thread,
                   bool _symm_loc,
                   int _nsteps_loc)
-  : HybridSmoother<TM>(_A, _overlap, _in_thread, _nsteps_loc)
+  : HybridSmoother<TM>(_A, _nsteps_loc, _in_thread, _overlap)
   , subset(_subset)
   , pinv(_pinv)
   , symm_loc(_symm_loc)
diff --git a/src/base/smoothers/hybrid_smoother.cpp b/src/base/smoothers/hybrid_smoother.cpp
index 1b9cc4b..ceb1b0c 100644
--- a/src/base/smoothers/hybrid_smoother.cpp
+++ b/src/base/smoothers/hybrid_smoother.cpp
@@ -236,7 +236,7 @@ HybridDISmoother (shared_ptr<BaseMatrix> _A,
                   shared_ptr<BitArray> _freedofs,
                   bool overlap,
                   bool NG_MPI_thread)
-  : HybridSmoother<TM>(_A, overlap, NG_MPI_thread, 1)
+  : HybridSmoother<TM>(_A, 1, NG_MPI_thread, overlap)
 {
   Array<TM> mod_diag = this->CalcModDiag(nullptr);
 
-- 
2.43.0


From 8ab3db691c6c52c93430fa4eebe57e53aef3a406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:41 +0000
Subject: [PATCH 14/20] fix: regularise rotations of 2d elasticity only where
 the whole diagonal entry is zero

A zero contribution of one proc to a shared coarse vertex was taken for a zero
diagonal entry, and the contribution of the master was overwritten with one.
---
 src/elasticity/elasticity_pc_impl.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/elasticity/elasticity_pc_impl.hpp b/src/elasticity/elasticity_pc_impl.hpp
index e35c700..b958624 100644
--- a/src/elasticity/elasticity_pc_impl.hpp
+++ b/src/elasticity/elasticity_pc_impl.hpp
@@ -712,12 +712,13 @@ template<> void VertexAMGPC<ElasticityAMGFactory<2>> :: RegularizeMatrix (shared
 {
   auto& A = static_cast<ElasticityAMGFactory<2>::TSPM_TM&>(*mat);
   if ( (pardofs != nullptr) && (pardofs->GetDistantProcs().Size() != 0) ) {
-    Array<int> is_zero(A.Height());
+    // a zero contribution of a single proc does not make the diagonal entry zero
+    Array<double> diag_rr(A.Height());
     for(auto k : Range(A.Height()))
-{ is_zero[k] = (fabs(A(k,k)(2,2)) < 1e-10 ) ?  1 : 0; }
-    AllReduceDofData(is_zero, NG_MPI_SUM, pardofs);
+{ diag_rr[k] = A(k,k)(2,2); }
+    MyAllReduceDofData(*pardofs, diag_rr, [](auto & a, const auto & b) LAMBDA_INLINE { a+= b; });
     for(auto k : Range(A.Height()))
-if ( (pardofs->IsMasterDof(k)) && (is_zero[k] != 0) )
+if ( (pardofs->IsMasterDof(k)) && (fabs(diag_rr[k]) < 1e-10) )
   { A(k,k)(2,2) = 1; }
   }
   else {
-- 
2.43.0


From c8945079c70513a83063cb590ee76cdf10cfdcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:59 +0000
Subject: [PATCH 15/20] fix: contraction of ranks: classes of the contracted
 mesh closed under intersection, edges counted in all of them

---
 src/base/coarsening/grid_contract.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/base/coarsening/grid_contract.cpp b/src/base/coarsening/grid_contract.cpp
index 62afe49..a6d6267 100644
--- a/src/base/coarsening/grid_contract.cpp
+++ b/src/base/coarsening/grid_contract.cpp
@@ -647,13 +647,16 @@ auto ces = mg_btms[k]->template GetCNodes<NT_EDGE>(eq);
 ii_pos[meq] = eqes.Size();
 // ccounts[ceq][0] += recv_etab[k][eq].Size();
       ccounts[ceq][0] += eqes.Size();
-      ccounts[ceq][1] = ci_get[ceq];
-      ccounts[ceq][2] = annoy_count[ceq][0];
 cc_pos[meq] = ces.Size() - ci_have[meq] - annoy_have[meq];
 ccounts[ceq][3] += ces.Size() - ci_have[meq] - annoy_have[meq];
-      ccounts[ceq][4] = annoy_count[ceq][1];
     }
   }
+  // EQCs no fine EQC maps to can still get annoying edges
+  for (auto ceq : Range(cneqcs)) {
+    ccounts[ceq][1] = ci_get[ceq];
+    ccounts[ceq][2] = annoy_count[ceq][0];
+    ccounts[ceq][4] = annoy_count[ceq][1];
+  }
 
   // cout << "ccounts: " << endl << ccounts << endl;
 
@@ -1049,12 +1052,12 @@ ceqcs_table[k][j] = ceqcs[k][j];
 ceq2[k][j] = ceqcs[k][j];
     }
   }
-  this->c_eqc_h = make_shared<EQCHierarchy>(std::move(ceqcs_table), c_comm, false, eqc_h.IsRankZeroIdle());
+  this->c_eqc_h = make_shared<EQCHierarchy>(std::move(ceqcs_table), c_comm, true, eqc_h.IsRankZeroIdle());
   
   // EQCHierarchy re-sorts the DP-table!!
   auto & ctab = c_eqc_h->GetDPTable(); 
-  Array<int> remap(ctab.Size());
-  for (auto k : Range(ctab.Size())) {
+  Array<int> remap(ceq2.Size());
+  for (auto k : Range(ceq2.Size())) {
     auto set = ceq2[k];
     bool found = false;
     int l = -1;
-- 
2.43.0


From f252024bbc6894e792fd5f9dbbfdeb0d557486cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:09 +0000
Subject: [PATCH 16/20] fix: pairwise aggregation: off-process weight of
 vertices that another rank is master of was never initialised, but used in
 thresholds

---
 src/base/coarsening/agglomerator_impl.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/base/coarsening/agglomerator_impl.hpp b/src/base/coarsening/agglomerator_impl.hpp
index 52a8d65..7c1464d 100644
--- a/src/base/coarsening/agglomerator_impl.hpp
+++ b/src/base/coarsening/agglomerator_impl.hpp
@@ -171,10 +171,11 @@ InitializeAggData(AgglomerationData<TMESH, ENERGY, TMU, TWEIGHT> &aggData)
   // stash trace
   if ( eqc_h.IsTrulyParallel() )
   {
+    // also for vertices with another master, the weights of connections to them are needed
     FM.template Apply<NT_VERTEX>([&](auto vi)
     {
       offProcTrace[vi] = calc_trace(baseDiags[vi]);
-    }, true);
+    }, false);
 
     // reduce diagonals
     FM.template AllreduceNodalData<NT_VERTEX>(baseDiags, [&](auto tab_in) LAMBDA_INLINE { return sum_table(tab_in); });
@@ -183,7 +184,7 @@ InitializeAggData(AgglomerationData<TMESH, ENERGY, TMU, TWEIGHT> &aggData)
     FM.template Apply<NT_VERTEX>([&](auto vi)
     {
       offProcTrace[vi] = ( calc_trace(baseDiags[vi]) - offProcTrace[vi] ) / BS;
-    }, true);
+    }, false);
   }
 
   // L2 contribution (add AFTER reduction above)
-- 
2.43.0


From 26cccbc2d5cbd524c9ceb357f45582bdcdfacc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:53 +0000
Subject: [PATCH 17/20] fix: block smoother: its matrix counted rows of
 overlapping blocks several times (wrong residuals, unsymmetric preconditioner
 with smoothing blocks of high order spaces)

---
 src/base/smoothers/loc_block_gssmoother.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/base/smoothers/loc_block_gssmoother.cpp b/src/base/smoothers/loc_block_gssmoother.cpp
index 811939a..822146b 100644
--- a/src/base/smoothers/loc_block_gssmoother.cpp
+++ b/src/base/smoothers/loc_block_gssmoother.cpp
@@ -15,7 +15,7 @@ namespace amg
   BSmoother2<TM> :: BSmoother2 (shared_ptr<SparseMatrix<TM>> _spmat,  Table<int> && _blocks,
 				bool _parallel, bool _use_sl2, bool _pinv, bool _blocks_no,
 				FlatArray<TM> md)
-    : BaseSmoother(nullptr, nullptr), parallel(_parallel), use_sl2(_use_sl2), pinv(_pinv), blocks_no(_blocks_no)
+    : BaseSmoother(_spmat, nullptr), parallel(_parallel), use_sl2(_use_sl2), pinv(_pinv), blocks_no(_blocks_no)
   {
     static Timer t("BSmoother2"); RegionTimer rt(t);
 
@@ -30,7 +30,7 @@ namespace amg
   BSmoother2<TM> :: BSmoother2 (shared_ptr<SparseMatrix<TM>> _spmat,  FlatArray<Table<int>> _block_array,
 				bool _parallel, bool _use_sl2, bool _pinv, bool _blocks_no,
 				FlatArray<TM> md)
-    : BaseSmoother(nullptr, nullptr), parallel(_parallel), use_sl2(_use_sl2), pinv(_pinv), blocks_no(_blocks_no)
+    : BaseSmoother(_spmat, nullptr), parallel(_parallel), use_sl2(_use_sl2), pinv(_pinv), blocks_no(_blocks_no)
   {
     static Timer t("BSmoother2"); RegionTimer rt(t);
 
@@ -317,7 +317,8 @@ namespace amg
   template<class TM>
   shared_ptr<BaseMatrix> BSmoother2<TM> :: GetAMatrix () const
   {
-    return make_shared<BSmoother2SysMat<TM>>(const_pointer_cast<BSmoother2<TM>>(dynamic_pointer_cast<const BSmoother2<TM>>(shared_from_this())));
+    // the blocks hold rows of overlapping blocks more than once and rows that are in no block not at all
+    return sysmat;
   } // BSmoother2::GetAMatrix
 
 INLINE void printEvals (FlatMatrix<double> M, LocalHeap & lh, std::string const &prefix = "", ostream &os = std::cout)
-- 
2.43.0


From 6b96407795d6430f998dad51f581194f50177a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:59 +0000
Subject: [PATCH 18/20] fix: writing the setup log to a file with level extra
 or debug hung on several ranks (collective summary was only entered by rank
 0)

---
 src/base/factory/base_factory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/base/factory/base_factory.cpp b/src/base/factory/base_factory.cpp
index 9c671eb..e436d18 100644
--- a/src/base/factory/base_factory.cpp
+++ b/src/base/factory/base_factory.cpp
@@ -192,6 +192,8 @@ void BaseAMGFactory::Logger::PrintLog (ostream & out)
 
 void BaseAMGFactory::Logger::PrintToFile (string file_name)
 {
+  if (!ready) // collective
+    { Finalize(); }
   if (comm.Rank() == 0) {
     ofstream out(file_name, ios::out);
     PrintLog(out);
-- 
2.43.0


From 08bfd27c76a5050704b63330ecd54769e5559450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:36 +0000
Subject: [PATCH 19/20] fix: a preconditioner could not be set up a second time
 (the setup log was dropped with the first setup and dereferenced in the
 second), e.g. after assembling a bilinear form again

---
 src/base/factory/base_factory.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/base/factory/base_factory.cpp b/src/base/factory/base_factory.cpp
index e436d18..7a80116 100644
--- a/src/base/factory/base_factory.cpp
+++ b/src/base/factory/base_factory.cpp
@@ -208,7 +208,6 @@ void BaseAMGFactory::Logger::PrintToFile (string file_name)
 BaseAMGFactory::BaseAMGFactory (shared_ptr<Options> _opts)
   : options(_opts)
 {
-  logger = make_shared<Logger>(options->log_level);
 } // BaseAMGFactory(..)
 
 
@@ -226,6 +225,9 @@ SetUpLevels (Array<shared_ptr<BaseAMGFactory::AMGLevel>> & amg_levels, shared_pt
 
   const auto & O(*options);
 
+  // a new one for every setup, it is dropped again at the end
+  logger = make_shared<Logger>(O.log_level);
+
   if ( options->log_level > Options::LOG_LEVEL::BASIC)
   {
     if ( amg_levels[0]->cap->uDofs.GetCommunicator().Rank() == 0 )
-- 
2.43.0


From 5d2f87d0d39ca3adea9e665d5219518a93c6a71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:52 +0000
Subject: [PATCH 20/20] fix: values for single levels of mis_ecw_geom were
 thrown away when the other name of the option was read

---
 src/base/factory/vertex_factory_impl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/base/factory/vertex_factory_impl.hpp b/src/base/factory/vertex_factory_impl.hpp
index 4d64bf9..9fb0c55 100644
--- a/src/base/factory/vertex_factory_impl.hpp
+++ b/src/base/factory/vertex_factory_impl.hpp
@@ -128,7 +128,9 @@ public:
 
     improve_avgs.SetFromFlags(flags, prefix + "improve_avgs");
 
-    ecw_geom.SetFromFlags(flags, prefix + "ecw_geom");
+    // another name for "mis_ecw_geom", must not reset the values for single levels set by that
+    if ( flags.AnyFlagDefined(prefix + "ecw_geom") || flags.NumListFlagDefined(prefix + "ecw_geom_spec") )
+      { ecw_geom.SetFromFlags(flags, prefix + "ecw_geom"); }
 
     sp_improve_its.SetFromFlags(flags, prefix + "sp_improve_its");
     sp_use_roots.SetFromFlags(flags, prefix + "sp_use_roots");
-- 
2.43.0

