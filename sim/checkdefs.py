# What each check runs and which violation classes count for it.
HYGIENE = {"request-leak", "communicator-leak", "unreceived-message", "collective-incomplete", "send-buffer-changed", "recv-buffer-touched", "datatype-leak", "group-leak"}
FATAL = {"crash", "exception", "deadlock", "livelock", "timeout", "partial-failure", "message-truncated", "message-type-mismatch", "collective-mismatch",
         "invalid-communicator", "invalid-datatype", "invalid-request", "invalid-rank", "invalid-op", "invalid-group", "aborted"}
ALG = ("each seed draws a problem (random, grid, path, star, complete or geometric graph; edge weights from constant to 12 orders of magnitude; scalar or block entries; Dirichlet vertices; mass), "
       "a partition of it onto 1 to 12 ranks with shared vertices, options of the preconditioner (swarm: every option group is on in part of the seeds only), and a fault mix "
       "(about one seed in seven without faults); ")
CHECKS = {
 "C01": dict(family="C01", n=900, rule=ALG + "non-trivial: more than one rank and more than one level"),
 "C02": dict(family="C02", n=1300, only=FATAL, rule=ALG + "sends synchronous in half of the seeds, ranks stalled in part of them; non-trivial: more than one rank"),
 "C03": dict(family="C03", n=900, hygiene=True, only=HYGIENE, rule=ALG + "one to three preconditioners set up, applied and destroyed after another; late copies of send buffers in most seeds; non-trivial: more than one rank"),
 "C04": dict(family="C04", n=1000, rule=ALG + "the preconditioner is probed column by column; non-trivial: more than four unknowns"),
 "C05": dict(family="C05", n=1000, rule=ALG + "all ways of applying it, with a second preconditioner alive; non-trivial: more than four unknowns"),
 "C06": dict(family="C06", n=1300, rule=ALG + "all levels; non-trivial: more than one level and more than one rank"),
 "C07": dict(family="C07", n=1100, rule=ALG + "all levels; non-trivial: more than one level"),
 "C09": dict(family="C09", n=1200, rule=ALG + "all levels; non-trivial: more than one level"),
 "C10": dict(family="C10", n=1100, rule=ALG + "all levels; non-trivial: more than one rank"),
 "C11": dict(family="C11", n=900, rule=ALG + "all levels; non-trivial: more than one rank"),
 "C12": dict(family="C12", n=1000, rule=ALG + "non-trivial: more than two levels"),
 "C16": dict(family="C16", n=900, rule=ALG + "the same schedule and faults twice, with memory and dead stack filled differently; non-trivial: more than one level"),
 "C08": dict(family="C08", n=1300, rule=ALG + "all levels; non-trivial: more than one level"),
 "C14": dict(family="C14", n=900, rule=ALG + "one of: bounds on levels, steps of smoothers, lists of equal values, values for the first level only; non-trivial: the option can have an effect on the hierarchy or the smoothers found"),
 "C17": dict(family="C17", n=700, rule=ALG + "the same problem a second time with other options of execution and diagnostics, disk errors in half of the seeds; non-trivial: more than one level"),
 "C19": dict(family="C19", n=700, rule=ALG + "one to three changes of the matrix with repeated setups, then a new preconditioner; non-trivial: more than one level"),
}
