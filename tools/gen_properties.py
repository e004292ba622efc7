#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays editable)."""
import json, os
INC = "dwave/optimization/include/dwave-optimization/"
SRC = "dwave/optimization/src/"
PY = "dwave/optimization/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    anchors = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        anchors["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=anchors))

nodes_all = [SRC + "nodes/" + f for f in ("collections.cpp", "flow.cpp", "indexing.cpp", "manipulation.cpp",
             "mathematical.cpp", "numbers.cpp", "quadratic_model.cpp")]

prop("P01", "Incremental evaluation agrees with evaluation from scratch",
     "After any sequence of moves on the decision variables, each of which was propagated and then accepted or "
     "rejected, the value, shape and size of every symbol in the model equal those obtained by evaluating the "
     "model from scratch on the same decision values.",
     ["programs", "histories", "inputs"],
     "for every model built from the supported symbols, every initial state and every sequence of moves, "
     "acceptances and rejections",
     "The stable test suite never propagates a move: Python re-initialises states, so the incremental path of every "
     "symbol is exercised by no stable test; and no finite list of move sequences settles all histories.",
     nodes_all + [SRC + "graph.cpp", SRC + "nodes/_state.hpp"],
     [("Graph propagate/propose", SRC + "graph.cpp"), ("per-node propagate", SRC + "nodes/*.cpp")],
     ["value/shape/size of each array node after propagate, commit and revert"])

prop("P02", "Every symbol computes the operation it documents",
     "For every assignment of the decision variables, the state of every symbol equals the result of its documented "
     "operation (NumPy semantics for arithmetic, comparison, logic, reductions, indexing, reshaping, concatenation "
     "and selection, with broadcasting of scalars) applied to the states of its inputs. The state has the shape that "
     "the operation implies.",
     ["inputs", "programs", "configurations"],
     "for every composition of symbols, every shape and every assignment of values",
     "The tests evaluate each operator on a few literal arrays; they do not compose symbols, vary strides and shapes, "
     "or cover empty, scalar, negative-step and dynamically sized operands together.",
     nodes_all + [PY + "symbols.pyx", PY + "mathematical.py", PY + "_model.pyx", INC + "array.hpp"],
     [("node initialize_state", SRC + "nodes/*.cpp"), ("operator overloads and indexing", PY + "_model.pyx")],
     ["symbol.state(i) against a NumPy evaluation of the same expression"])

prop("P03", "Rejected moves leave no trace; accepted moves are permanent",
     "When a proposed move is rejected, every symbol's value, shape and size is exactly what it was before the move, "
     "no pending change is left anywhere, and all later behaviour is as if the move had never been made. When a move is "
     "accepted, the new values stay and no later rejection can undo them.",
     ["histories", "programs"],
     "for every model, every interleaving of moves, acceptances and rejections",
     "Acceptance and rejection are not reachable from the stable tests at all; they need histories of moves.",
     nodes_all + [SRC + "graph.cpp", SRC + "nodes/_state.hpp"],
     [("commit/revert", SRC + "nodes/*.cpp"), ("Graph::propose", SRC + "graph.cpp"),
      ("ArrayStateData commit/revert", SRC + "nodes/_state.hpp")],
     ["snapshots before the move and after the rejection"])

prop("P04", "Reported changes are a faithful record of what changed",
     "After a move has been propagated, the list of changes each symbol reports, applied in order to its previous "
     "value, yields exactly its new value: every old value named is the value then held, elements are added and removed only at the end, "
     "and the reported size difference is the actual one. After acceptance or rejection the list is empty.",
     ["histories", "programs", "inputs"],
     "for every model and every propagated move",
     "Change lists are internal to propagation and never observed by the stable tests.",
     nodes_all + [INC + "array.hpp", SRC + "nodes/_state.hpp"],
     [("Array::diff / size_diff", INC + "array.hpp"), ("per-node diff", SRC + "nodes/*.cpp")],
     ["diff and size_diff of every array node after propagate"])

prop("P05", "Decision variables never leave their declared domain",
     "In every reachable state each decision variable holds a legal value: binaries are 0/1, integers are whole and "
     "within their bounds, lists are permutations, sets are duplicate-free subsets within their size limits, and disjoint sets/lists partition their "
     "primary set exactly once. Default initialisation, randomised moves and explicit moves preserve this, and an explicit initial state that "
     "violates it is refused with an error.",
     ["histories", "inputs", "configurations"],
     "for every decision-variable configuration (including empty and negative ranges), every sequence of moves and "
     "every attempted initial state",
     "Tests set a handful of states and never call the random moves; legality must hold along whole move histories.",
     [SRC + "nodes/collections.cpp", SRC + "nodes/numbers.cpp", INC + "nodes/collections.hpp", INC + "nodes/numbers.hpp",
      PY + "symbols.pyx"],
     [("default_move and explicit moves", SRC + "nodes/collections.cpp, " + SRC + "nodes/numbers.cpp"),
      ("initialize_state validation", SRC + "nodes/collections.cpp, " + SRC + "nodes/numbers.cpp")],
     ["decision values after every move"])

prop("P06", "Advertised bounds, integrality and size limits are sound",
     "The minimum, maximum, integrality and logical flags that a symbol advertises hold for every value it ever takes, "
     "and its advertised minimum/maximum size (and estimated state size) covers every size it ever takes. "
     "Consumers such as indexing rely on these for safety.",
     ["inputs", "histories", "programs"],
     "for every model and every reachable state",
     "Bounds are consulted when a model is built but must hold for all later states; tests check bounds for a few symbols, not against observed values.",
     nodes_all + [SRC + "array.cpp", SRC + "nodes/constants.cpp"],
     [("min/max/integral/logical", SRC + "nodes/*.cpp"), ("sizeinfo/substitute", SRC + "array.cpp")],
     ["min(), max(), integral(), logical(), sizeinfo() against each observed state"])

prop("P07", "Accepted operations never corrupt memory or invoke undefined behaviour",
     "No sequence of operations that the library accepts - building models, initialising, moving, propagating, "
     "accepting, rejecting, reading, removing, destroying - reads or writes outside live memory, leaks, "
     "reads uninitialised values or executes undefined behaviour.",
     ["programs", "histories", "inputs"],
     "for every accepted program over the C++ and Python interfaces",
     "The tests run an uninstrumented release build, where an out-of-bounds access usually goes unnoticed.",
     [SRC + "array.cpp", SRC + "graph.cpp"] + nodes_all + [PY + "symbols.pyx", PY + "_model.pyx", PY + "states.pyx"],
     [("buffer indexing in nodes", SRC + "nodes/*.cpp"), ("node ownership", SRC + "graph.cpp")],
     ["sanitizer reports (address, undefined, leak) and library hardening assertions"])

prop("P08", "Saving and loading a model preserves it",
     "Loading a saved model yields a model with the same symbols in the same order with the same parameters, the same objective and "
     "constraints, and for every assignment of the decision variables the same value of every symbol. Saving the loaded model "
     "again describes the same model.",
     ["programs", "inputs", "configurations"],
     "for every model, every symbol type and parameterisation",
     "Tests round-trip each symbol once in a canonical configuration; parameters such as negative steps, bounds, axes and shared inputs multiply.",
     [PY + "_model.pyx", PY + "symbols.pyx", PY + "model.py"],
     [("into_file/from_file", PY + "_model.pyx"), ("_into_zipfile/_from_zipfile", PY + "symbols.pyx")],
     ["structure and states of original and reloaded models"])

prop("P09", "Saving and loading states preserves every saved assignment",
     "States saved with or without their model come back with the same number of states, the same decision values in "
     "each, and states that had not been set remain unset; limiting the number of saved states keeps exactly the first ones. Loading states into a model whose decisions do not "
     "match is refused and leaves the present states untouched.",
     ["inputs", "histories", "configurations"],
     "for every model, number of states, subset of initialised states, and save/load options",
     "Tests cover a few fixed models with all states set.",
     [PY + "states.pyx", PY + "_model.pyx", PY + "symbols.pyx"],
     [("States.from_file/into_file", PY + "states.pyx"), ("_state_into_zipfile/_state_from_zipfile", PY + "symbols.pyx")],
     ["decision states before saving and after loading"])

prop("P10", "Damaged model files are refused, never crash or load as something else",
     "Reading a truncated, corrupted or internally inconsistent model file raises an ordinary exception or loads a well-formed model; it never "
     "crashes the process or accesses invalid memory, and a model that was being read into is left as it was.",
     ["inputs", "fault_sequences"],
     "for every corruption of a saved file",
     "Tests try one bad magic string and one header mismatch.",
     [PY + "_model.pyx", PY + "symbols.pyx", PY + "states.pyx"],
     [("from_file", PY + "_model.pyx"), ("_from_zipfile", PY + "symbols.pyx")],
     ["exceptions, process exit, sanitizer reports"])

prop("P11", "Locking freezes a model and orders it; unlocking restores editing",
     "While a model is locked, no operation can add or remove symbols or dependencies, and every symbol is ordered after everything it depends on, with decisions first "
     "in creation order. Locks nest and each is released once; after the last release symbols can be added again, decision states survive and derived states are discarded.",
     ["histories", "programs"],
     "for every interleaving of locking, unlocking, symbol creation and state access",
     "Tests lock and unlock a few small models; nesting, attempts to mutate while locked and re-locking after additions need histories.",
     [PY + "_model.pyx", PY + "model.py", PY + "states.pyx", SRC + "graph.cpp"],
     [("lock/unlock", PY + "_model.pyx"), ("topological_sort", SRC + "graph.cpp"), ("_reset_intermediate_states", PY + "states.pyx")],
     ["is_locked, topological indices, num_symbols, states across lock/unlock histories"])

prop("P12", "Removing unused symbols removes exactly the unused ones",
     "Removal deletes precisely the symbols that are neither decisions, nor needed by the objective or a constraint, nor still referenced by "
     "the user (unless references are told to be ignored), and returns how many. Everything kept evaluates as before, and a handle to a "
     "removed symbol reports that it has expired.",
     ["programs", "histories"],
     "for every model, every choice of objective, constraints and held references, repeated in any order with additions",
     "Tests remove from a few tiny models; keeping exactly the right set depends on the whole graph.",
     [SRC + "graph.cpp", PY + "_model.pyx"],
     [("remove_unused_nodes", SRC + "graph.cpp"), ("expired", PY + "_model.pyx")],
     ["surviving symbols, values, expired flags"])

prop("P13", "States of a model are independent and lazily evaluated consistently",
     "Setting, resetting, evaluating or resizing one state never changes what any other state of the model reports, and the value read for a symbol does not "
     "depend on the order in which symbols or states are read. Changing or resetting a decision is seen by every symbol that depends on it and by no other symbol.",
     ["histories", "inputs"],
     "for every interleaving of set, reset, read, resize and clear over several states",
     "Tests use one or two states and read in one order.",
     [PY + "states.pyx", PY + "_model.pyx", PY + "symbols.pyx", SRC + "graph.cpp", SRC + "nodes/indexing.cpp"],
     [("recursive_initialize/recursive_reset", SRC + "graph.cpp"), ("States", PY + "states.pyx")],
     ["all states of all symbols after each operation, against a shadow model"])

prop("P14", "Different states of one model can be evaluated concurrently",
     "Threads that initialise, move, propagate, accept, reject and read different states of one shared, locked model do not race, "
     "and each obtains the values it would obtain running alone.",
     ["schedules", "histories"],
     "for every schedule of threads each owning its own state of a shared model",
     "No test uses threads.",
     [SRC + "array.cpp", SRC + "graph.cpp", SRC + "nodes/constants.cpp", SRC + "nodes/indexing.cpp"] ,
     [("const node methods with per-state data", SRC + "nodes/*.cpp"), ("cached constant statistics", SRC + "nodes/constants.cpp")],
     ["thread sanitizer reports; per-thread results against a sequential run"])

prop("P15", "Objective and feasibility reflect the model",
     "The reported objective value is the value of the symbol set to be minimised, and a state is reported feasible exactly when every added constraint evaluates to true in it. "
     "A proposed move is kept exactly when the acceptance test says so, and that test sees the fully propagated state.",
     ["inputs", "histories", "programs"],
     "for every model, set of constraints, state and move",
     "Tests check one feasible and one infeasible state.",
     [SRC + "graph.cpp", PY + "model.py", PY + "_model.pyx"],
     [("energy/feasible/propose", SRC + "graph.cpp"), ("Model.feasible / minimize / add_constraint", PY + "model.py, " + PY + "_model.pyx")],
     ["energy, feasible, objective state, accept callback"])

prop("P16", "Generated models encode the problem they are named for",
     "For every valid instance and every assignment of the decisions, a generated model's objective equals the problem's "
     "cost of that assignment and the model is feasible exactly when the assignment satisfies the problem's constraints (for routing with time windows these include the generator's limit on the number of stops of a route). Invalid instances "
     "are refused with an error and the caller's input arrays are never modified.",
     ["inputs"],
     "for every generator, instance and assignment",
     "Tests check one or two instances, mostly symmetric, with one assignment each.",
     [PY + "generators.py"],
     [("bin_packing .. traveling_salesperson", PY + "generators.py")],
     ["objective and constraint states against a direct computation"])

prop("P17", "Refused operations raise an error and change nothing",
     "When the library refuses to build a symbol (mismatched shapes, out-of-range indices, bad axes, symbols of another model, locked model ...) or to set a state, an exception is raised and the model is "
     "exactly as before: no symbol or dependency was added and every symbol still evaluates to the same values. Requests whose operands "
     "violate the documented preconditions are refused rather than accepted.",
     ["inputs", "programs", "histories"],
     "for every invalid request issued at any point in a model's construction",
     "Tests assert that a few invalid calls raise, not that the model is still intact and usable afterwards.",
     nodes_all + [PY + "symbols.pyx", PY + "_model.pyx", INC + "graph.hpp"],
     [("node constructors", SRC + "nodes/*.cpp"), ("argument checks", PY + "symbols.pyx")],
     ["successor/predecessor lists, counts and states before and after a refused request"])

prop("P18", "Handles, copies and buffers stay valid for as long as they are held",
     "A symbol, a state array or a constant's data obtained by the user stays valid and unchanged however the rest of the model is used or "
     "discarded: arrays returned are independent copies, constants keep the data they were made from alive, and symbols keep their model alive. "
     "Exposed buffers are read-only and agree in shape, strides and contents with the state.",
     ["histories", "programs"],
     "for every order of creating, dropping, resizing and collecting models, symbols, states and arrays",
     "Lifetime errors only show when objects are destroyed in particular orders under instrumentation.",
     [PY + "_model.pyx", PY + "states.pyx", PY + "symbols.pyx"],
     [("Symbol.model reference, expired_ptr", PY + "_model.pyx"), ("StateView buffers", PY + "states.pyx"), ("Constant buffers", PY + "symbols.pyx")],
     ["array contents after drops/collections; address sanitizer"])

prop("P19", "The model graph reported is the graph that was built",
     "Predecessors, successors, counts of symbols, decisions, constraints and edges, identities and the exported graph all describe the expressions the user wrote, "
     "in order and with multiplicity, and building or extending one expression never alters the meaning of another. "
     "Symbols reported equal represent the same quantity, and identity comparisons distinguish distinct symbols.",
     ["programs", "histories"],
     "for every program of symbol constructions, including in-place operators and repeated operands",
     "Tests inspect the graph of a few small models.",
     [PY + "_model.pyx", PY + "symbols.pyx", PY + "model.py", INC + "graph.hpp"],
     [("iter_predecessors/iter_successors/equals/id", PY + "_model.pyx"), ("add_predecessor", INC + "graph.hpp")],
     ["introspection results against a shadow of the constructed expressions"])

prop("P20", "Pending results are fetched once, before any state is observed or changed",
     "When states are to be filled from a pending computation, the result is retrieved exactly once, upon the first operation that observes or changes the "
     "states, and everything thereafter sees the retrieved states. Attaching a new pending computation or clearing never mixes old and new states. When the retrieval fails, the operation that needed the states raises its error.",
     ["histories", "schedules", "fault_sequences"],
     "for every order of state operations before and after a pending result, including failing retrievals",
     "Tests exercise a couple of accessors with one future.",
     [PY + "states.pyx", PY + "_model.pyx"],
     [("from_future/resolve", PY + "states.pyx")],
     ["number and time of result-hook calls, states afterwards"])

prop("P21", "Array views, slices and iterators follow the stated index arithmetic",
     "Walking, jumping or measuring distances over any array view - contiguous, strided, with negative strides, masked, empty or scalar - visits exactly the elements that its shape and "
     "strides describe, in order, and conversions between flat and multi-dimensional positions and slice clipping agree with Python's rules. "
     "Copying or comparing iterators never changes them.",
     ["inputs"],
     "for every shape, stride, slice and sequence of iterator operations",
     "The stable tests do not exercise the C++ array interface directly.",
     [INC + "array.hpp", SRC + "array.cpp", INC + "utils.hpp", SRC + "utils.cpp"],
     [("array iterator and views", INC + "array.hpp"), ("Slice.fit / shape and index helpers", SRC + "array.cpp"), ("change-list helpers", SRC + "utils.cpp")],
     ["iterator results against explicit index arithmetic"])

prop("P22", "Quadratic models hold the coefficients given and evaluate them",
     "A quadratic model reports exactly the accumulated linear, square and interaction coefficients it was given, in whatever order and "
     "orientation, also after being saved and loaded, and its value on every assignment, initial or after any move, is the polynomial with those coefficients.",
     ["inputs", "histories"],
     "for every coefficient set (duplicates, diagonal, either orientation) and every assignment and move",
     "Tests build a few small models and evaluate them once.",
     [SRC + "nodes/quadratic_model.cpp", INC + "nodes/quadratic_model.hpp", PY + "symbols.pyx"],
     [("QuadraticModel / QuadraticModelNode", SRC + "nodes/quadratic_model.cpp"), ("QuadraticModel symbol", PY + "symbols.pyx")],
     ["coefficients and values against a dense matrix"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
