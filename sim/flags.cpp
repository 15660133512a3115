// Swarm over the options of the preconditioner.
#include "harness.hpp"
namespace harness
{
// what: bit 0 hierarchy/redistribution, bit 1 coarsening algorithm, bit 2 prolongation, bit 3 smoothers, bit 4 cycles
void GenFlags (Params & p, Rng & r, int what)
{
  int np = PI(p, "np", 1), n = PI(p, "a.n", 60), bs = PI(p, "a.bs", 1);
  auto num = [&](const string & k, double v) { p["f.ngs_amg_" + k] = "n:" + S(v); };
  auto str = [&](const string & k, const string & v) { p["f.ngs_amg_" + k] = "s:" + v; };
  auto flag = [&](const string & k, bool v) { p["f.ngs_amg_" + k] = v ? "b:1" : "b:0"; };
  str("log_level", "none");
  if (what & FL_LEVELS)
    {
      int k = r.below(4);
      if (k) num("max_coarse_size", r.pick(vector<int>{1, 2, 3, 5, 10, 20}));
      if (r.flip(0.2)) num("max_levels", r.range(2, 5));
      if (r.flip(0.3)) num("min_coarse_size", r.pick(vector<int>{0, 1, 2, 3, 8}));
      if (r.flip(0.1)) flag("keep_grid_maps", true);
      if (r.flip(0.5)) { num("aaf", r.pick(vector<double>{0.1, 0.25, 0.5})); num("first_aaf", r.pick(vector<double>{0.1, 0.3, 0.5})); }
      if (r.flip(0.2)) flag("enable_multistep", r.flip(0.5));
      if (r.flip(0.2)) flag("enable_dyn_crs", r.flip(0.5));
      if (np > 1 && r.flip(0.85))
        {
          num("rd_seq_nv", r.pick(vector<int>{0, 1, 3, 8, 20}));
          num("rd_min_nv_gl", r.pick(vector<int>{1, 2, 5, 10, 20}));
          num("rd_min_nv_thresh", r.pick(vector<int>{1, 2, 5, 10, 30}));
          if (r.flip(0.5)) num("rd_loc_gl", r.pick(vector<double>{0.05, 0.3, 0.8}));
          if (r.flip(0.5)) num("rd_loc_thresh", r.pick(vector<double>{0.01, 0.2, 0.5}));
          if (r.flip(0.5)) num("rd_pfac", r.pick(vector<double>{0.25, 0.5, 0.75}));
          if (r.flip(0.3)) num("rd_crs_thresh", r.pick(vector<double>{0.5, 0.9, 1.0}));
          if (r.flip(0.3)) { num("rdaf", r.pick(vector<double>{0.05, 0.2, 0.5})); num("first_rdaf", r.pick(vector<double>{0.05, 0.2, 0.5})); }
        }
    }
  if (what & FL_CRS)
    {
      if (r.flip(0.5)) str("crs_alg", r.flip(0.6) ? "spw" : "mis");
      if (r.flip(0.15)) flag("crs_robust", false);
      if (r.flip(0.15)) num("edge_thresh", r.pick(vector<double>{0.01, 0.05, 0.2}));
      if (r.flip(0.15)) num("spw_rounds", r.range(1, 4));
      if (r.flip(0.1)) flag("spw_orphan_treatment", r.flip(0.5));
      if (r.flip(0.1)) flag("ecw_stab_hack", r.flip(0.5));
      if (r.flip(0.1)) flag("spw_pick_robust", r.flip(0.5));
      if (r.flip(0.1)) flag("spw_neib_boost", r.flip(0.5));
      if (r.flip(0.1)) flag("spw_cbs", r.flip(0.5));
      if (r.flip(0.1)) str("spw_pick_avg", r.pick(vector<string>{"min", "geom", "harm", "alg", "max"}));
      if (r.flip(0.1)) str("mis_minmax_avg", r.pick(vector<string>{"min", "geom", "harm", "alg", "max"}));
      if (r.flip(0.1)) flag("mis_neib_boost", r.flip(0.5));
      if (r.flip(0.1)) flag("mis_lazy_neib_boost", r.flip(0.5));
      if (r.flip(0.1)) flag("mis_ecw_minmax", r.flip(0.5));
      if (r.flip(0.1)) flag("mis_ecw_geom", r.flip(0.5));
      if (r.flip(0.1)) flag("mis_dist2", r.flip(0.5));
    }
  if (what & FL_PROL)
    {
      if (r.flip(0.6)) str("prol_type", r.pick(vector<string>{"piecewise", "aux_smoothed", "semi_aux_smoothed", "semi_aux_smoothed"}));
      if (r.flip(0.3)) num("sp_max_per_row", r.range(1, 5));
      if (r.flip(0.2)) num("sp_max_per_row_classic", r.range(2, 8));
      if (r.flip(0.2)) num("sp_min_frac", r.pick(vector<double>{0.05, 0.15, 0.3}));
      if (r.flip(0.2)) num("sp_omega", r.pick(vector<double>{0.5, 0.66, 1.0}));
    }
  if (what & FL_SMOOTH)
    {
      str("sm_type", r.pick(vector<string>{"gs", "gs", "gs", np > 1 ? "gs" : "jacobi"}));
      bool mesh = P(p, "mode", "alg") == "mesh", bgs = r.flip(0.25), fesb = r.flip(0.4);
      if (bgs) { str("sm_type", "bgs"); if (mesh && (fesb || PI(p, "m.order", 1) > 1)) flag("sm_use_fes_blocks", true); }   // blocks made of agglomerates do not contain DOFs of higher order
      if (r.flip(0.3)) flag("sm_symm", r.flip(0.7));
      if (r.flip(0.3)) flag("sm_symm_loc", r.flip(0.7));
      if (r.flip(0.3)) num("sm_steps", r.range(1, 3));
      if (r.flip(0.3)) num("sm_steps_loc", r.range(1, 3));
      if (r.flip(0.5)) { bool ov = r.flip(0.7); flag("sm_NG_MPI_overlap", ov); flag("sm_NG_MPI_thread", ov && r.flip(0.5)); }
      if (r.flip(0.3)) flag("sm_shm", r.flip(0.7));
      if (r.flip(0.3)) flag("sm_sl2", r.flip(0.7));
    }
  if (what & FL_CYCLE)
    {
      if (r.flip(0.5)) str("mg_cycle", r.pick(vector<string>{"V", "W", "BS"}));
      if (r.flip(0.3)) str("clev", r.pick(vector<string>{"inv", "sm", "none"}));
      if (r.flip(0.2)) flag("sync", r.flip(0.5));
    }
  // options rarely used
  bool elast = P(p, "mode", "alg") == "mesh" && P(p, "m.pde", "h1") != "h1";
  if (what & FL_LEVELS)
    {
      if (r.flip(0.05)) flag("enable_redist", false);
      if (r.flip(0.05)) num("rdaf_scale", r.pick(vector<double>{0.5, 2}));
      if (r.flip(0.05)) num("aafaaf_scale", r.pick(vector<double>{0.5, 2}));
    }
  if (what & FL_CRS)
    {
      if (r.flip(0.05)) num("spw_diag_stab_boost", r.pick(vector<double>{0, 0.2, 1}));
      if (r.flip(0.05)) flag("spw_big_soc_robust", r.flip(0.7));
      if (r.flip(0.05)) flag("spw_big_soc_bdiag", r.flip(0.7));
      if (r.flip(0.05)) flag("ecw_geom", r.flip(0.7));
      if (r.flip(0.05)) flag("use_aux_mat", true);
      if (r.flip(0.05)) flag("improve_avgs", true);
      if (!elast && r.flip(0.05)) str("energy", "triv");
      if (r.flip(0.05) && P(p, "f.ngs_amg_sm_type", "s:gs") == "s:gs") p["wish.vert_thresh"] = S(r.pick(vector<double>{0.3, 0.9}));
    }
  if (what & FL_PROL)
    {
      if (r.flip(0.05)) flag("sp_needs_cmap", true);
      if (r.flip(0.05)) flag("sp_use_roots", r.flip(0.5));
      if (r.flip(0.05)) flag("sp_use_asb", true);
      if (elast && r.flip(0.1)) num("rot_scale", r.pick(vector<double>{0.5, 2}));
    }
  if (what & FL_CYCLE)
    {
      if (r.flip(0.05)) flag("regularize_cmats", true);
      if (r.flip(0.1)) str("cinv_type_loc", "sparsecholesky");
    }
  if (p.count("wish.vert_thresh") && P(p, "f.ngs_amg_sm_type", "s:gs") == "s:gs") num("vert_thresh", PD(p, "wish.vert_thresh"));
  p.erase("wish.vert_thresh");
  (void)n; (void)bs;
}
}
