#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json; run it after editing."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.abspath(__file__))
B = "src/base/"
PC = [B + "precond/amg_pc.cpp", B + "precond/amg_pc_vertex_impl.hpp"]
FAC = [B + "factory/base_factory.cpp", B + "factory/nodal_factory_impl.hpp", B + "factory/vertex_factory_impl.hpp"]
MPI = [B + "linalg/dcc_map.cpp", B + "distributed/eqchierarchy.cpp", B + "mesh/base_mesh_impl.hpp", B + "coarsening/grid_contract.cpp", B + "coarsening/dof_contract.cpp"]
DISTQ = "every message order, delay, send mode and interleaving of ranks and threads, for every matrix, mesh partition and option set drawn"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, note, technique="deterministic simulation of all ranks in one process, seeded schedule and fault search"):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None), _note=note, _tech=technique))

prop("C01", "The result does not depend on timing",
     "For a given distributed problem and option set, setting up the preconditioner and applying it gives the same hierarchy sizes and the same result up to rounding, whatever the order, delay or buffering of messages and the interleaving of processes and threads. All copies of a shared value of the result agree. Whether a setup is refused does not depend on timing either.",
     ["schedules", "inputs", "configurations"], DISTQ + "; two perturbed executions are compared with an unperturbed one",
     "The tests run each problem once per rank count under the one schedule the MPI library happens to produce and only look at iteration counts.",
     FAC + MPI + [B + "smoothers/hybrid_smoother.cpp", B + "solve/amg_matrix.cpp"],
     [("coarsening and redistribution decided from exchanged data", "src/base/factory, src/base/coarsening"), ("nonblocking exchange with waits", "src/base/distributed, src/base/mesh"), ("hybrid smoothers with overlapped communication", "src/base/smoothers")],
     ["result vector of an application, collected from all ranks", "number of DOFs on each level"],
     "Compares one fault-free run with two runs under different seeds of the scheduler; agreement to 1e-9 relative.")
prop("C02", "Setup, application and teardown always make progress",
     "Setting up, applying and destroying a preconditioner ends on all ranks after finitely many steps, also when every send waits for its receiver, messages are delayed or a rank is stalled; no rank crashes, no communication error occurs and no schedule deadlocks. If a problem is refused, all ranks refuse it.",
     ["schedules", "fault_sequences", "inputs", "configurations"], DISTQ + ", including strictly synchronous sends",
     "MPI libraries buffer small messages and the tests use a handful of small meshes, so missing receives, mismatched collectives and wait cycles stay invisible.",
     PC + FAC + MPI + [B + "distributed/mpiwrap_extension.hpp", B + "smoothers/hybrid_smoother_utils.hpp"],
     [("collectives entered by all members of a communicator", "src/base/factory, src/base/mesh"), ("background communication thread with lock and condition", "src/base/smoothers"), ("refusal decided globally", "src/base/factory/base_factory.cpp")],
     ["termination of every rank", "simulated MPI: mismatches, truncation, invalid handles"],
     "The simulator detects deadlock exactly (no runnable actor), livelock by a step bound, and every misuse of the simulated MPI.")
prop("C03", "Communication resources are used correctly and released",
     "Memory handed to a pending send or receive is neither changed nor freed before the operation completes, every message sent is received, and after the preconditioner is destroyed no request, communicator or message is left behind, so that it can be set up and destroyed any number of times.",
     ["schedules", "histories", "configurations"], DISTQ + "; histories of one to three set-ups and destructions, with send buffers read as late as the standard allows",
     "MPI libraries copy small messages at once, so early reuse of a buffer and leaks go unnoticed in tests.",
     MPI + [B + "mesh/base_mesh.cpp", B + "factory/base_factory.cpp", B + "distributed/mpiwrap_extension.hpp", B + "precond/amg_pc.cpp"],
     [("waits before buffers go out of scope", "src/base/distributed, src/base/mesh"), ("ownership of communicators and requests", "src/base/distributed/eqchierarchy.cpp, src/base/linalg/dcc_map.cpp")],
     ["simulated MPI: buffer contents at completion, tables of live requests and communicators at the end"],
     "Buffers of pending operations are checked at completion; handles are counted at the end of a run.")
prop("C04", "The preconditioner is symmetric, positive and does not amplify errors",
     "For every symmetric positive definite problem the preconditioner is a symmetric positive definite operator on the unconstrained unknowns and zero on the constrained ones, and one application as a stationary iteration does not increase the error in the energy norm. This holds for every partition, option set and schedule.",
     ["inputs", "configurations", "schedules"], "every problem, partition, option set and schedule drawn; the operator is determined completely by applying it to all unit vectors",
     "The tests run a Krylov solver for one right-hand side and would not notice a slightly non-symmetric or indefinite preconditioner.",
     [B + "solve/amg_matrix.cpp", B + "smoothers/hybrid_smoother.cpp", B + "smoothers/gssmoother.cpp", B + "smoothers/block_gssmoother.cpp"] + PC + FAC,
     [("cycle with forward and backward smoothing", "src/base/solve/amg_matrix.cpp"), ("Galerkin coarse operators", "src/base/factory"), ("modified diagonals of the hybrid smoothers", "src/base/smoothers")],
     ["operator applied to all unit vectors"],
     "Dense eigenvalue computation on the probed operator: symmetry 1e-8, positivity, largest eigenvalue of BA at most 1 + 1e-6.")
prop("C05", "Applying the preconditioner is a repeatable linear map",
     "Applying the preconditioner is linear and repeatable, leaves its input value unchanged, and accepts distributed and cumulated vectors with the same result; the plain, adding and transposed variants agree. Other preconditioners set up, applied or destroyed in the meantime have no influence.",
     ["inputs", "histories", "schedules", "configurations"], "all calling variants and vector states over histories with a second preconditioner for the same matrix",
     "Tests apply one preconditioner through one solver, with one state of the vectors.",
     [B + "solve/amg_matrix.cpp", B + "precond/amg_pc.cpp", B + "smoothers/hybrid_base_smoother.cpp", B + "linalg/hybrid_matrix.cpp"],
     [("status handling of vectors", "src/base/solve/amg_matrix.cpp"), ("work vectors of levels", "src/base/solve/amg_matrix.cpp")],
     ["result and input vectors of every application"],
     "All variants are compared with the combination of two reference applications.")
prop("C06", "Distribution of unknowns is consistent on every level",
     "On every level the ranks agree who shares which unknown and in which order, every unknown has exactly one owner, global numbers identify unknowns uniquely on all ranks, and no coarse level is larger than the finer one. Concentrating a distributed vector on the owners and spreading it again preserves the values.",
     ["inputs", "configurations", "schedules"], DISTQ + ", with redistribution onto fewer ranks, empty ranks and many shared vertices",
     "An inconsistency only shows for particular partitions and redistributions, often as a slightly slower solver.",
     MPI + [B + "coarsening/dof_map.cpp", B + "coarsening/agglomerate_map.cpp", B + "distributed/universal_dofs.cpp"],
     [("equivalence classes of shared vertices", "src/base/distributed/eqchierarchy.cpp"), ("coarse numbering derived class by class", "src/base/coarsening"), ("contraction of ranks", "src/base/distributed")],
     ["DOF exchange tables of every level", "global enumeration", "concentrated vectors"],
     "Tables of all ranks are compared out of band, and values are sent through the library's own maps.")
prop("C07", "Grid transfer is adjoint, full rank and respects constraints",
     "On every level restriction is the adjoint of prolongation, also through redistributed levels and across several levels, and adding a prolongated vector agrees with prolongating first, for vectors in any state. Every coarse unknown has an effect on the finer level, and constrained unknowns receive nothing.",
     ["inputs", "configurations", "schedules"], DISTQ,
     "The tests never look at transfer operators; a broken one shows as slower convergence for some partitions only.",
     [B + "coarsening/dof_map.cpp", B + "coarsening/dof_contract.cpp", B + "factory/vertex_factory_impl.hpp", B + "coarsening/mis_agg_impl.hpp", B + "coarsening/spw_agg_impl.hpp"],
     [("prolongation from agglomerates, smoothed", "src/base/factory/vertex_factory_impl.hpp"), ("contraction maps", "src/base/coarsening/dof_contract.cpp")],
     ["transfer operators probed on all unit vectors of all levels"],
     "Dense matrices of transfer are probed and compared; rank through the spectrum of P'P.")
prop("C09", "Coarse operators are Galerkin projections",
     "On every level the operator is the Galerkin projection of the finer one by the transfer actually used, symmetric and positive definite, and on the finest level it is the matrix of the problem. This holds through concatenated, redistributed and discarded levels.",
     ["inputs", "configurations", "schedules"], DISTQ,
     "A wrong coarse operator still gives a convergent preconditioner most of the time, which is all the tests look at.",
     [B + "factory/nodal_factory_impl.hpp", B + "coarsening/dof_map.cpp", B + "coarsening/dof_contract.cpp", B + "linalg/utils_sparseMM.cpp", B + "linalg/hybrid_matrix.cpp"],
     [("triple products", "src/base/coarsening/dof_map.cpp"), ("assembly of gathered matrices", "src/base/coarsening/dof_contract.cpp")],
     ["operators of all levels assembled from all ranks", "probed prolongations"],
     "Dense comparison, 1e-10 relative to |P'||A||P|.")
prop("C10", "The hybrid matrix equals the matrix it was made from",
     "Splitting a distributed matrix into owned blocks and couplings loses and duplicates nothing, the owned part holds the complete diagonal blocks of the owners, and products agree with the original matrix for vectors in any state.",
     ["inputs", "schedules"], DISTQ + ", for the finest matrix and all coarse ones",
     "Tests use these matrices only inside of smoothers, where an error only slows down convergence.",
     [B + "linalg/hybrid_matrix.cpp", B + "linalg/dcc_map.cpp"],
     [("exchange of off-diagonal entries with the owners", "src/base/linalg/hybrid_matrix.cpp")],
     ["entries of both parts on all ranks", "products with random vectors"],
     "Entries and products are compared with the dense matrix.")
prop("C11", "Smoothers are consistent, adjoint and do not diverge",
     "On every level forward and backward smoothing are adjoint to each other, do not increase the error in energy norm and leave constrained values untouched. Every calling variant gives the same new iterate, and a residual that is announced as updated is the residual of it.",
     ["inputs", "configurations", "schedules"], DISTQ + ", all combinations of residual given, residual updated, zero start and direction, with overlapped and threaded communication",
     "Variants differ in code paths per configuration and rank count; a wrong residual or lost adjointness leaves the solver convergent in the test problems.",
     [B + "smoothers/base_smoother.cpp", B + "smoothers/hybrid_base_smoother.cpp", B + "smoothers/hybrid_smoother.cpp", B + "smoothers/gssmoother.cpp", B + "smoothers/block_gssmoother.cpp", B + "smoothers/hybrid_smoother_utils.hpp"],
     [("staged local smoothing with overlapped exchange", "src/base/smoothers/hybrid_base_smoother.cpp"), ("diagonal enlarged by off-process couplings", "src/base/smoothers/hybrid_smoother_utils.hpp")],
     ["iterates and residuals of smoothers on all levels"],
     "Smoothers are probed as dense operators; calling variants are compared with the affine map they define.")
prop("C12", "The application equals the multigrid cycle of its parts",
     "Applying the preconditioner performs exactly the chosen cycle (V, W or Brandt-Serebryanyi type) made of its own smoothers, transfers and level operators with the exact inverse on the coarsest level, for every option set, number of levels and schedule.",
     ["configurations", "schedules", "inputs"], DISTQ,
     "Tests only see iteration counts, which hardly change if a part of the cycle is skipped or repeated on some level or rank.",
     [B + "solve/amg_matrix.cpp", B + "precond/amg_pc.cpp"],
     [("recursion over levels", "src/base/solve/amg_matrix.cpp"), ("coarse solver on the ranks that are left", "src/base/precond/amg_pc.cpp")],
     ["operator applied to all unit vectors, probed parts of it"],
     "A reference cycle is computed from probed dense parts and compared, 1e-8 relative.")
exec(open(ROOT + "/props_more.py").read()) if os.path.exists(ROOT + "/props_more.py") else None
NA = []
exec(open(ROOT + "/props_na.py").read()) if os.path.exists(ROOT + "/props_na.py") else None
def main():
    import sys; sys.path.insert(0, ROOT + "/sim")
    from checkdefs import CHECKS
    P.sort(key=lambda p: p["id"])
    with open(ROOT + "/properties.jsonl", "w") as f:
        for p in P: f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    for p in P:
        for f in p["anchors"]["files"]:
            if not os.path.exists("/repo/" + f): print("no such file", p["id"], f)
        assert len(p["title"]) <= 80, p["title"]
    hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True).stdout
    hooks = [l.split()[0] for l in hook.splitlines() if l.split(" ", 1)[1].startswith("hook")]
    na = {x["property"] for x in NA}
    m = dict(version=1, setup_cmd="python3 sim/build.py",
             hooks=dict(guard="NGSAMG_DST", enable="sim/gen.py compiles the library's sources from /repo's working tree with -DNGSAMG_DST into build/, together with the simulator", source_commits=hooks),
             checks=[dict(property=p["id"], quick_cmd="python3 check.py quick " + p["id"], thorough_cmd="python3 check.py thorough " + p["id"], technique=p["_tech"], level="exploration", level_note=p["_note"]) for p in P if p["id"] in CHECKS],
             not_applicable=NA)
    json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1); open(ROOT + "/MANIFEST.json", "a").write("\n")
    for p in P:
        if p["id"] not in CHECKS and p["id"] not in na: print("property without check:", p["id"])
    for c in CHECKS:
        if c not in {p["id"] for p in P}: print("check without property:", c)
main()
