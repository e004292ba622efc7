"""Which workloads and monitors decide which property."""

HIST_RULE = ("a random model over all node classes (1-4 decisions, 1-3 constants, 2-16 further symbols; shapes up to 3 "
             "dimensions, dynamic arrays, empty arrays) and a random history of 4-14 steps of several moves each, proposed or "
             "propagated by hand, accepted, rejected or dropped; distinct and non-trivial: a different model or history in which some symbol changed")


def hist(kinds, n=(24000, 400000), **kw):
    return dict(name="hist", type="cpp", mode="hist", kinds=sorted(kinds), n=n, rule=HIST_RULE, **kw)


def iters(kinds, n=(24000, 800000), **kw):
    return dict(name="iter", type="cpp", mode="iter", kinds=sorted(kinds), n=n, rule=(
        "a view of a random array by slices with steps of either sign (0-4 dimensions, possibly empty), walked by several "
        "iterators doing 10-40 random operations each; 20 random slices, 4 index conversions and broadcasts, 10 lists of changes; "
        "distinct: different shape and strides of the view"), **kw)


def qm(kinds, n=(24000, 800000), **kw):
    return dict(name="qm", type="cpp", mode="qm", kinds=sorted(kinds), n=n, rule=(
        "a random sequence of coefficient operations on 0-7 variables, then a model over a contiguous or strided input with 2-10 "
        "proposed moves; distinct: different coefficients"), **kw)


def wide(kinds, n=(24000, 800000), **kw):
    return dict(name="wide", type="cpp", mode="wide", kinds=sorted(kinds), n=n, rule=(
        "sums, products, partial sums, n-ary sums and products and quadratic models over up to 60 integers, their squares, fourth powers and a changing "
        "selection of them, with 3-12 proposed moves between tiny and huge values (beyond 2^53 and beyond the largest double); distinct: different moves"), **kw)


def threads(kinds, n=(2400, 40000), **kw):
    return dict(name="threads", type="cpp", mode="threads", build="tsan", kinds=sorted(kinds), n=n, rule=(
        "a random model shared by 2-6 threads, each running its own history (3-8 steps) on states of its own, under "
        "ThreadSanitizer; distinct: different models and thread counts"), **kw)


def py(mode, n, rule, build="plain", **kw):
    return dict(name="py_" + mode + ("_asan" if build == "asan" else ""), type="py", mode=mode, build=build, n=n, rule=rule, **kw)


PM_RULE = ("a random model built through the Python interface (1-4 decisions of all six kinds, constants, 2-12 further symbols over all operators, "
           "indexing, reductions, compositions and in-place operators)")


def values(kinds, n=(32000, 800000), **kw):
    return py("values", n, PM_RULE + ", read in 2-5 states in random orders and compared with NumPy; distinct: different models and states", kinds=sorted(kinds), **kw)


def save(kinds, **kw):
    return py("save", (14000, 300000), PM_RULE + " with 0-3 partly set states, saved in one of four ways, loaded in one of three, saved and loaded again; "
              "the states alone loaded into models with the same and with other decisions; distinct: different models and set states", kinds=sorted(kinds), **kw)


def damage(kinds, **kw):
    return py("damage", (5000, 200000), PM_RULE + " saved and then damaged: truncated, bytes and blocks changed, headers and members of the archive edited, "
              "swapped and removed; distinct: different files", build="asan", kinds=sorted(kinds), **kw)


def graph(kinds, n=(16000, 400000), **kw):
    return py("graph", n, PM_RULE + ", interleaved with lock, unlock, context managers, forbidden changes, removals and comparisons of symbols; "
              "distinct: different models and steps", kinds=sorted(kinds), **kw)


def refuse(kinds, n=(30000, 800000), **kw):
    return py("refuse", n, PM_RULE + ", then invalid requests (constructors, operators, indices, states, locks, objectives and constraints), each "
              "followed by a comparison of everything observable; distinct: different models and requests", kinds=sorted(kinds), **kw)


def handles(kinds, **kw):
    return py("handles", (10000, 300000), PM_RULE + "; symbols, iterators, arrays, buffers, lock contexts and states are kept while the model is used further and while "
              "everything else is given up, under AddressSanitizer; distinct: different models and ends", build="asan", kinds=sorted(kinds), **kw)


PROPS = {
    "P01": dict(components=[hist({"inc_value"}, must_see=["mon:inc_value", "step:accepted", "step:rejected"]),
                            wide({"inc_value"}, must_see=["mon:exact_again", "seen:inexact", "seen:overflow", "step:rejected"])]),
    "P02": dict(components=[hist({"fresh_value", "oracle_value", "refused"}, n=(16000, 400000), must_see=["mon:fresh_value", "mon:oracle_value"]),
                            values({"value", "refused"}, must_see=["mon:value", "combined"])]),
    "P03": dict(components=[hist({"snapshot", "twin", "pending"}, must_see=["mon:snapshot", "mon:twin", "mon:pending", "step:dropped"])]),
    "P04": dict(components=[hist({"diff", "pending"}, must_see=["mon:diff"]), iters({"dedup"}, n=(8000, 200000), must_see=["mon:dedup"]),
                            wide({"diff"}, n=(8000, 300000), must_see=["mon:diff", "seen:inexact"])]),
    "P05": dict(components=[hist({"domain", "init", "move"}, must_see=["mon:domain", "mon:init", "mon:move", "mon:move_refused"]),
                            values({"domain", "refused"}, n=(16000, 400000), must_see=["mon:domain", "mon:state_refused", "mon:reset"])]),
    "P06": dict(components=[hist({"bounds"}, must_see=["mon:bounds", "mon:sizeinfo"]),
                            wide({"bounds"}, n=(8000, 300000), must_see=["mon:bounds", "seen:inexact"]),
                            values({"bounds"}, n=(8000, 200000), must_see=["mon:state_size"])]),
    "P07": dict(components=[hist(set(), leaks=True), iters(set(), n=(4000, 100000), leaks=True), qm(set(), n=(4000, 100000), leaks=True),
                            dict(hist(set(), n=(1600, 60000), build="memcheck"), name="hist_memcheck"),
                            dict(qm(set(), n=(800, 40000), build="memcheck"), name="qm_memcheck"),
                            dict(refuse(set(), n=(4000, 200000), build="asan"), kinds=["none"]),
                            dict(values(set(), n=(3200, 200000), build="asan"), kinds=["none"]),
                            dict(graph(set(), n=(1600, 100000), build="asan"), kinds=["none"])]),
    "P08": dict(components=[save({"roundtrip"}, must_see=["mon:roundtrip", "mon:loaded_value", "mon:decisions_only"])]),
    "P09": dict(components=[save({"states"}, must_see=["mon:states", "mon:states_only", "mon:mismatch"])]),
    "P10": dict(components=[damage({"damage"}, must_see=["mon:damaged", "mon:refused", "mon:loaded", "mon:evaluated"])]),
    "P11": dict(components=[hist({"order"}, n=(16000, 400000), must_see=["mon:order", "mon:locked", "mon:descendants"]),
                            graph({"lock", "value", "domain"}, must_see=["mon:order", "mon:forbidden", "mon:released", "mon:extra_unlock"])]),
    "P12": dict(components=[hist({"removal"}, n=(16000, 400000), must_see=["mon:removal", "seen:removed"]),
                            graph({"removal", "value"}, must_see=["mon:removal", "mon:kept", "removed"])]),
    "P13": dict(components=[hist({"lazy", "isolation"}, must_see=["mon:lazy", "mon:isolation"]),
                            values({"isolation", "value"}, n=(16000, 400000), must_see=["mon:isolation", "mon:resize", "mon:initialize"])]),
    "P14": dict(components=[threads({"inc_value", "fresh_value", "oracle_value", "snapshot", "twin", "pending", "lazy", "isolation", "domain", "diff"},
                                    must_see=["threads", "mon:inc_value"])]),
    "P15": dict(components=[hist({"energy", "feasible", "propose"}, must_see=["mon:energy", "mon:feasible_true", "mon:feasible_false", "mon:propose"]),
                            values({"energy", "feasible"}, n=(16000, 400000), must_see=["mon:energy", "mon:feasible_true", "mon:feasible_false"])]),
    "P16": dict(components=[py("gen", (80000, 2000000), "a random instance of one of the nine generators (sizes 0-7, arrays passed as lists, tuples and arrays of "
                               "eleven types and layouts), 2-6 assignments each, some just feasible, and one invalid instance; distinct: different instances",
                               kinds=["generator"], must_see=["mon:cost", "mon:feasible_true", "mon:feasible_false", "mon:unchanged", "mon:invalid"])]),
    "P17": dict(components=[hist({"accepted", "dangling"}, n=(16000, 400000), must_see=["mon:graph_after_refusal"]),
                            refuse({"accepted", "changed", "refused", "value", "domain"}, must_see=["mon:refusals"])]),
    "P18": dict(components=[handles({"handle", "buffer", "value"}, must_see=["mon:held", "mon:buffer", "mon:constant", "mon:collected", "mon:walk"])]),
    "P19": dict(components=[graph({"graph"}, must_see=["mon:graph", "mon:edges", "mon:equals", "mon:networkx", "mon:inplace", "mon:parameter"]),
                            hist({"edges"}, n=(12000, 400000), must_see=["mon:edges"]),
                            values({"graph", "value"}, n=(8000, 200000), must_see=["mon:value", "mon:inplace"])]),
    "P20": dict(components=[py("future", (20000, 500000), PM_RULE + "; 1-3 pending results (ready, late from another thread, failing before, during or after setting the "
                               "states), idle operations and one of 20 operations that need the states; distinct: different models and traces",
                               kinds=["future", "value"], must_see=["mon:hook", "mon:fetched", "mon:failed", "mon:chained", "mon:chain in the hook", "mon:idle", "mon:after"])]),
    "P21": dict(components=[iters({"iter", "slice", "convert"}, must_see=["mon:walk", "mon:slice", "mon:convert", "mon:broadcast_ok"])]),
    "P22": dict(components=[qm({"qm", "qm_value"}, must_see=["mon:coefficients", "mon:value", "seen:strided_input"]),
                            values({"qm"}, n=(16000, 400000), must_see=["mon:coefficients"]),
                            py("qmodel", (24000, 800000), "1-2 inputs of seven kinds (columns, comparisons, computed values) with 1-3 quadratic models each, given as dicts or "
                               "coordinates of various types and layouts, saved, loaded, compared and evaluated; distinct: different coefficients",
                               kinds=["qm", "qm_value"], must_see=["mon:coefficients", "mon:loaded", "mon:qm_value"])]),
}

_E = "Random exploration of the real code; what is not generated is not seen. Trusted: the reference evaluations in cpp/ref.hpp and py/pm.py, NumPy, the compiler and the sanitizers."
TECH = {
    "P01": "runtime monitor: incremental values compared with a fresh evaluation after every step of random histories, under ASan/UBSan",
    "P02": "runtime monitor: every symbol's value compared with an independent evaluation (reference and NumPy) on random models",
    "P03": "runtime monitor: snapshots around accept/reject and a twin state that never sees rejected moves, under ASan/UBSan",
    "P04": "online trace checker: replays every reported change list against the previous value",
    "P05": "runtime monitor of decision domains and of refused initial states/moves on random histories",
    "P06": "runtime monitor of advertised bounds, integrality and sizes against every observed value",
    "P07": "AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer and valgrind memcheck over random histories and API workloads",
    "P08": "runtime monitor: structure, parameters and values of loaded models compared with those of the saved ones over random models",
    "P09": "runtime monitor: loaded decision states compared with the saved ones, and refusals of mismatching models",
    "P10": "fault injection into files with AddressSanitizer/UBSan and a monitor of what is loaded",
    "P16": "runtime monitor: objective and feasibility of generated models against a direct computation of the problems",
    "P18": "AddressSanitizer/UBSan and a monitor of kept handles, arrays and buffers over random object lifetimes",
    "P19": "runtime monitor: the graph shown by the Python interface compared with a record of what was built",
    "P20": "online trace checker: calls of the result hook and the states after every operation, with late and failing results",
    "P11": "runtime monitor of order and lock state after every lock/unlock",
    "P12": "runtime monitor: removal compared with a reachability oracle",
    "P13": "runtime monitor: other states and evaluation orders compared with a fresh evaluation",
    "P14": "ThreadSanitizer and value monitors over concurrent histories on one model",
    "P15": "runtime monitor of energy, feasibility and acceptance against the symbols' values",
    "P17": "runtime monitor: the model's graph and values compared before and after refused operations",
    "P21": "runtime monitor: iterator populations, slices and conversions against index arithmetic, under UBSan",
    "P22": "runtime monitor: coefficients and values against a dictionary of coefficients",
}
NOTES = {k: _E for k in TECH}
SKIP = {}
