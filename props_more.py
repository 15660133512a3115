
prop("C16", "Nothing depends on what memory contained before",
     "Setup and application give bitwise the same hierarchy and the same result whatever bytes freshly allocated memory and unused stack contain, under the same schedule: no decision, matrix or vector entry is computed from a value the program never set.",
     ["inputs", "configurations", "schedules"], DISTQ + "; every scenario is executed twice with the same schedule and faults, with memory from the allocators and dead stack filled with different bytes",
     "Fresh memory happens to be zero in short test runs, so a forgotten initialisation shows on long-running processes only.",
     PC + FAC + MPI + [B + "coarsening/spw_agg_impl.hpp", B + "smoothers/hybrid_smoother_utils.hpp", B + "utils/SpecOpt.hpp"],
     [("work arrays and members initialised before use", "src/base/coarsening, src/base/smoothers"), ("options with defaults", "src/base/utils/SpecOpt.hpp")],
     ["result vector of an application, number of DOFs on each level"],
     "Two executions under identical schedules, memory filled with different bytes; the results have to agree bitwise.")

prop("C08", "Coarse spaces contain the near-kernel",
     "On every level interpolating the near-kernel of the problem (constants for scalar and block problems, rigid body modes for elasticity) from the coarser level reproduces it at every interpolated unknown, up to the amount the operator of the level itself does not annihilate there; prolongations built from the mesh energy alone reproduce it everywhere. This holds for every partition, redistribution, option set and schedule.",
     ["inputs", "configurations", "schedules"], "every problem, partition, prolongation and coarsening option set and schedule drawn, all levels; prolongation and operators are determined completely by applying them to unit vectors",
     "Losing the near-kernel on some rows makes the solver slower, which iteration limits of the tests tolerate on small meshes.",
     FAC + [B + "mesh/base_mesh.cpp", "src/h1/h1_energy_impl.hpp", "src/elasticity/elasticity_energy_impl.hpp", "src/elasticity/elasticity_impl.hpp"],
     [("piecewise prolongation from vertex data", "src/base/factory/vertex_factory_impl.hpp PWProlMap"), ("smoothed prolongation with level matrix or auxiliary matrix", "src/base/factory/vertex_factory_impl.hpp SemiAuxSProlMap"), ("exchange of prolongation rows between ranks", "src/base/factory/vertex_factory_impl.hpp")],
     ["prolongation between any two levels", "operator of every level"],
     "Scalar problems: |row sum - 1| is at most omega |(A 1)_i| / a_ii; elasticity: least squares fit of the rigid body modes in the range of the prolongation.")

prop("C14", "Options of levels and smoothers do what they say",
     "The hierarchy has at most max_levels levels, all levels but the coarsest are larger than max_coarse_size, no coarse level is smaller than min_coarse_size and sizes strictly decrease; sm_steps and sm_symm give exactly that many (symmetric) steps of the single smoother; a list of values for levels applies to exactly these levels, so that a list of equal values is the same as one value and values of other levels have no influence on the first one.",
     ["configurations", "inputs", "schedules"], DISTQ + "; sets of options given as one value and as lists",
     "Tests use one option set per problem and cannot see that an option is ignored, since the solver converges anyway.",
     PC + FAC + [B + "utils/SpecOpt.hpp", B + "smoothers/base_smoother.hpp", B + "coarsening/agglomerator.hpp", B + "coarsening/mis_agg.hpp", B + "coarsening/spw_agg.hpp"],
     [("values for levels", "src/base/utils/SpecOpt.hpp"), ("end of coarsening", "src/base/factory/base_factory.cpp RSU"), ("steps of a smoother", "src/base/smoothers/base_smoother.hpp ProxySmoother")],
     ["number of levels and global sizes", "smoother of every level applied to unit vectors", "prolongation to the finest level", "result of an application"],
     "Several executions with equivalent options under the same schedule are compared.")

prop("C17", "Options of execution and diagnostics do not change the result",
     "Overlapping communication with computation, doing it in a thread, synchronising, the number of threads, keeping intermediate data, tests, and writing logs of any detail to the terminal or to files (whether or not the disk takes them) change neither the hierarchy nor the result of the preconditioner, and never prevent the setup.",
     ["configurations", "fault_sequences", "schedules", "inputs"], DISTQ + "; disk errors: full disk, short writes, failing opens",
     "Tests run with one log level and without overlap, on one disk that works.",
     PC + [B + "factory/base_factory.cpp", B + "smoothers/hybrid_smoother.cpp", B + "smoothers/hybrid_smoother_utils.hpp", B + "utils/utils_io.hpp"],
     [("setup log collected from all ranks", "src/base/factory/base_factory.cpp Logger"), ("diagnostics of the preconditioner", "src/base/precond/amg_pc.cpp"), ("overlapped and threaded exchange", "src/base/smoothers")],
     ["result vector of an application", "number of DOFs on each level", "termination of every rank"],
     "Two executions that differ only in such options are compared; the disk fails in half of the seeds.")

prop("C19", "Setting up again equals setting up anew",
     "Setting the same preconditioner object up again after the values of the matrix have changed (any number of times, with applications in between) gives the same hierarchy and result as a new preconditioner for the last matrix; nothing of earlier setups survives.",
     ["histories", "inputs", "configurations", "schedules"], DISTQ + "; histories of one to five changes of the matrix, including back to the first one",
     "Tests assemble once; time-dependent and nonlinear problems assemble the form again and again.",
     PC + FAC + [B + "coarsening/spw_agg_impl.hpp", B + "coarsening/mis_agg_impl.hpp"],
     [("InitLevel and FinalizeLevel of the preconditioner", "src/base/precond/amg_pc.cpp"), ("state of the factory", "src/base/factory/base_factory.cpp")],
     ["result vector of an application after the last setup", "number of DOFs on each level"],
     "A history of setups is compared with one setup of a new preconditioner.")
