"""Which simulated world decides which property, how much of it, and what is real in it."""
WORLDS = {
    "space": {"src": ["w_space.cpp"]},
}
SPACE_REAL = ["ell", "ell_stable", "ell1d", "xtensor", "OpenBLAS (one thread, fixed kernel)"]
SPACE_STUB = ["cut server", "channel between server and region", "host of the region (snapshots, restarts, mode switches)"]
SPACE_ASSUME = [
    "regions whose axes differ by more than about 1e3, or that are far smaller than the size of their coordinates, are outside what double precision lets the reference judge; such runs end early",
    "verdicts within about 1e-9 of a threshold may go either way; what is done to the region may not",
]
PROPS = {
    "C01": {"world": "space", "quick": 4000, "thorough": 60000, "real": SPACE_REAL, "stub": SPACE_STUB, "assume": SPACE_ASSUME,
            "rule": "a run is a region of random kind, dimension, size and centre fed by a cut server over a channel that loses, delays, reorders and duplicates cuts, with malformed cuts, mode switches, snapshots and restores in between; non-trivial: at least one fault was injected and at least one containment check was made"},
    "C02": {"world": "space", "quick": 4000, "thorough": 60000, "real": SPACE_REAL, "stub": SPACE_STUB, "assume": SPACE_ASSUME,
            "rule": "as C01, each accepted cut compared with the smallest covering ellipsoid computed independently in extended precision, then faults stop and a ball must be found within the number of queries the volume argument allows; non-trivial: faults and checks in the run"},
    "C03": {"world": "space", "quick": 5000, "thorough": 80000, "real": SPACE_REAL, "stub": SPACE_STUB, "assume": SPACE_ASSUME,
            "rule": "as C01 with verdicts judged by the reference and refused cuts required to leave centre and shape bit for bit; non-trivial: faults and checks in the run"},
    "C04": {"world": "space", "quick": 4000, "thorough": 60000, "real": SPACE_REAL, "stub": SPACE_STUB, "assume": SPACE_ASSUME,
            "rule": "a growing family of copies of a region receives interleaved cuts, centre resets, mode switches, moves and writes to handed-out arrays; each must answer bit for bit like a region that lived alone with the same history; non-trivial: faults and checks in the run"},
    "C20": {"world": "space", "quick": 12000, "thorough": 200000, "real": SPACE_REAL, "stub": SPACE_STUB, "assume": SPACE_ASSUME,
            "rule": "four replicas (deferred scaling, undeferred, factored, vector start) are fed the same faulty cut stream and must report the same verdicts, sizes, centres and shapes; non-trivial: faults and checks in the run"},
}
WORLDS["driver"] = {"src": ["w_driver.cpp"]}
WORLDS["resume"] = {"src": ["w_resume.cpp"]}
WORLDS["lmi"] = {"src": ["w_lmi.cpp"], "include_src": ["lsq_corr_ell.cpp"]}

DRV_REAL = ["cutting_plane_feas / _dc / _q", "bsearch and bsearch_adaptor", "half_nonnegative"]
DRV_STUB = ["oracle and region: scripted peers that record the conversation and answer in any order the seed decides"]
for _p, _n, _r in (
    ("C06", 12000, "a run scripts the oracle's answers and the region's verdicts and sizes in any order, with budgets down to zero; the recorded conversation, the region the driver leaves and the returned CInfo are compared with an executable model of the loop"),
    ("C07", 12000, "as C06 for the convex and the discrete driver, with improvements announced anywhere (just before and together with a terminal verdict too) and exact comparison of returned point, best value and conversation"),
    ("C08", 12000, "as C06 for the discrete driver with ineffective cuts and withdrawn or offered alternatives anywhere, against scripted oracles and against the real discrete profit oracle"),
    ("C09", 12000, "bisection over scripted decisions (monotone and not) in floating, integer and exact-fraction (fun::Fraction) intervals, and the adaptor over a scripted inner oracle and recording regions, with inner searches that end by budget, refusal or size"),
):
    PROPS[_p] = {"world": "driver", "quick": _n, "thorough": _n * 15, "real": DRV_REAL + (["profit_q_oracle"] if _p == "C08" else []), "stub": DRV_STUB,
                 "rule": _r + "; non-trivial: at least one scripted misbehaviour (refusal, no effect, missing alternative, exhausted budget) and at least one check"}
PROPS["C05"] = {"world": "resume", "quick": 12000, "thorough": 150000,
                "real": ["cutting_plane_feas / _dc / _q, bsearch", "ell, ell_stable, ell1d", "lmi, profit, profit_q and network oracles", "xtensor, OpenBLAS"],
                "stub": ["host that stops drivers at a budget, oracle wrapper that fails before a query reaches the oracle"],
                "rule": "a run is one search performed without interruption and again in slices: budget stops, oracle failures and snapshots of the region in between; query points, region, best value and answer must be the same bit for bit; non-trivial: at least one interruption happened"}
LMI_REAL = ["lmi_oracle", "lmi_old_oracle", "lmi0_oracle", "qmi_oracle", "lsq_oracle, mle_oracle (lsq_corr_ell.cpp)", "ldlt_ext", "profit_rb_oracle, profit_q_oracle (C16)", "xtensor, OpenBLAS"]
LMI_STUB = ["query stream: points, thresholds, best values, aborted element callbacks and foreign oracle objects interleaved by the seed"]
PROPS["C10"] = {"world": "lmi", "quick": 4000, "thorough": 120000, "real": LMI_REAL, "stub": LMI_STUB,
                "assume": ["matrices whose smallest eigenvalue is within rounding of zero may be judged either way"],
                "rule": "one long-lived oracle object gets a stream of queries, repeated, reordered, with thresholds raised and lowered and foreign objects in between; verdicts are compared with eigenvalues computed independently and every cut with feasible points of the family; non-trivial: faults and checks in the run"}
PROPS["C16"] = {"world": "lmi", "quick": 10000, "thorough": 150000, "real": LMI_REAL, "stub": LMI_STUB,
                "rule": "as C10; each answer is compared bit for bit with that of an oracle built for this query alone; non-trivial: faults and checks in the run"}
PROPS["C21"] = {"world": "lmi", "quick": 20000, "thorough": 300000, "real": ["ldlt_ext"], "stub": ["matrices and element callbacks that fail at any element"],
                "assume": ["pivots within rounding of zero may be judged either way"],
                "rule": "one engine factorises a stream of matrices (definite, with indefinite leading blocks of every size, callbacks aborted in the middle); verdict, witness, value and square root are judged by extended-precision arithmetic; non-trivial: faults and checks in the run"}
WORLDS["net"] = {"src": ["w_net.cpp"], "libs": ["-lboost_context"]}
NET_STUB = ["edge data source (fails at any read), host that edits potentials and weights, clients sharing finders, oracles, potentials and best value"]
PROPS["C14"] = {"world": "net", "quick": 12000, "thorough": 250000, "real": ["negCycleFinder", "fun::Fraction", "py::dict", "xn::grAdaptor over two boost graph types, xn::SimpleDiGraphS"], "stub": NET_STUB,
                "assume": ["distances and weights are finite; with floating-point weights that round, a cycle within 1e-9 of zero weight may be judged either way"],
                "rule": "one graph with changing weights and distances is searched by several long-lived finders, some searches dying at a read of the edge source; every answer is compared with all-pairs shortest walks in exact integers; non-trivial: faults and checks in the run"}
PROPS["C15"] = {"world": "net", "quick": 15000, "thorough": 300000, "real": ["min_cycle_ratio", "max_parametric", "negCycleFinder", "fun::Fraction"], "stub": NET_STUB,
                "assume": ["fractions do not overflow (small costs and times); doubles compared to 1e-9"],
                "rule": "one search is stopped at iteration budgets, killed at any read of the edge source, its potentials edited, and started again from what it left; the optimum comes from enumerating all cycles in exact integers; non-trivial: faults and checks in the run"}
PROPS["C11"] = {"world": "net", "quick": 8000, "thorough": 150000, "real": ["network_oracle", "cycle_ratio_oracle", "optscaling_oracle", "negCycleFinder"], "stub": NET_STUB,
                "rule": "several oracles share one set of potentials and one best value and are asked in any order, with killed queries, edited potentials, threshold updates and copies; verdicts come from all cycles enumerated, cuts are compared with feasible points found by line search up to the boundary; non-trivial: faults and checks in the run"}
WORLDS["profit"] = {"src": ["w_profit.cpp"]}
WORLDS["lowpass"] = {"src": ["w_lowpass.cpp"]}
WORLDS["oom"] = {"src": ["w_oom.cpp"], "libs": ["-lboost_context"], "include_src": ["lsq_corr_ell.cpp"]}
PROPS["C12"] = {"world": "profit", "quick": 12000, "thorough": 300000, "real": ["profit_oracle", "profit_rb_oracle", "profit_q_oracle", "xtensor, OpenBLAS"],
                "stub": ["clients that share one best value and take turns in any order", "query points, best values handed in from outside, alternatives asked for at any time"],
                "assume": ["best values from zero upwards: below zero the problem is not convex and no cut can be right", "a cut within rounding of a better point may lie on either side of it"],
                "rule": "several oracles (plain, robust, discrete) with one shared best value are asked in any order at any points, alternatives and best values from other searchers in between; every raise of the best value is compared with the profit computed independently, every cut with better points found by search; non-trivial: faults and checks in the run"}
PROPS["C13"] = {"world": "lowpass", "quick": 12000, "thorough": 300000, "real": ["lowpass_oracle", "xtensor, OpenBLAS"],
                "stub": ["query stream and best-value history", "clients that share the constraint tables, copy oracles, repeat queries"],
                "rule": "several oracles over shared constraint tables get queries that are repeated, reordered and interleaved, with best values raised and lowered by others; verdicts and cuts are compared with all constraints computed independently, repeated queries must visit all violated constraints of the group in one round; non-trivial: faults and checks in the run"}
PROPS["C18"] = {"world": "oom", "quick": 12000, "thorough": 250000,
                "real": ["ell, ell_stable, ell1d", "cutting_plane_feas / _dc / _q, bsearch_adaptor", "all matrix, profit, filter and network oracles", "xtensor"],
                "stub": ["operator new / delete of the whole process (fails at a chosen allocation, counts blocks, fills fresh memory with chosen bytes)", "host that repeats the failed step"],
                "assume": ["memory that OpenBLAS takes with malloc is not failed"],
                "rule": "a subject and an undisturbed twin get the same history; in the subject each allocation of a step fails in turn (or one chosen allocation of a whole driver call), and fresh memory of the two holds different bytes; region, best value, allocation balance and the repeated step must agree bit for bit; non-trivial: an allocation failed and a check was made"}
WORLDS["iso"] = {"src": ["w_iso.cpp"], "libs": ["-lboost_context"], "plain_src": ["iso_sched.cpp"], "include_src": ["lsq_corr_ell.cpp", "csd.cpp"],
                 "src_flags": ["-fsanitize=thread"], "world_flags": ["-fsanitize=thread"]}  # instrumentation only, the runtime is the simulator's
PROPS["C17"] = {"world": "iso", "quick": 2000, "thorough": 40000, "unit": "one unit per instrumented memory access of the sessions run alone",
                "real": ["ell, ell_stable, ell1d", "all drivers and all oracles", "negCycleFinder, min_cycle_ratio, xn::SimpleDiGraphS", "lsq_corr_ell.cpp (data generation and fitting)", "csd.cpp", "xtensor"],
                "stub": ["thread scheduler: one session runs at a time and may be preempted in front of any instrumented memory access, or sessions take turns as fibers of one thread",
                         "deaths of sessions", "locks and initialisation guards (their holder is not preempted)"],
                "assume": ["OpenBLAS and the C library are not instrumented: they are never preempted inside",
                           "memory is sequentially consistent in the simulation"],
                "rule": "two to six sessions of any kind, on shared or separate read-only problem data, each run alone in a fresh process and then all together under one seeded schedule; each must give the same numbers bit for bit, also when others die; non-trivial: at least one preemption took place"}
WORLDS["e2e"] = {"src": ["w_e2e.cpp"], "libs": ["-lboost_context"], "include_src": ["lsq_corr_ell.cpp"]}
PROPS["C19"] = {"world": "e2e", "quick": 20000, "thorough": 600000,
                "real": ["cutting_plane_feas / _dc / _q, bsearch, bsearch_adaptor", "ell, ell_stable, ell1d", "lmi, lmi_old, lmi0, qmi, profit (plain, robust, discrete), filter, correlation-fitting and network oracles", "xtensor, OpenBLAS"],
                "stub": ["channel between driver and oracle (loses queries before or after the oracle saw them, delivers old cuts again)", "host (budgets, snapshots, restarts, copies, mode switches, failing allocations)", "other searchers that improve the shared best value"],
                "assume": ["regions thinner than about 1e-6 of their length are below what doubles resolve; such runs end there, judged at that resolution"],
                "rule": "a run is one problem whose optimum is known by construction or enumeration, searched with faults on the way and then to its end; announced points and values are recomputed independently, and the end must not leave a ball of better points that the accepted cuts and the reported size have room for; non-trivial: at least one fault and one check"}
WORLDS["graph"] = {"src": ["w_graph.cpp"], "libs": ["-lboost_context"]}
PROPS["C25"] = {"world": "graph", "quick": 5000, "thorough": 80000,
                "real": ["xn::Graph, xn::DiGraphS over ranges and sets of nodes, with and without edge data", "their edge walks (boost.coroutine2)", "xn::grAdaptor, VertexView, EdgeView, AtlasView over three boost graph types", "py::dict, py::set, py::range", "negCycleFinder"],
                "stub": ["clients that take turns", "edge source (fails at any read)", "allocator (fails at a chosen allocation)"],
                "assume": ["no client walks a graph while another adds or removes edges of it", "boost's own containers are failed only where boost promises to undo (directed vector graphs)"],
                "rule": "up to three graphs are filled, walked, searched, moved, named and cleared by clients in turns; up to six edge walks are open at once, resumed in any order and abandoned anywhere; after every event everything a graph says is compared with a map of pairs; non-trivial: at least one fault and one check"}
