#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os

C = "src/jax_act/core/controller.py"
B = "src/jax_act/core/builder.py"
V = "src/jax_act/core/viewer.py"
E = "src/jax_act/core/tensoreditor.py"
S = "src/jax_act/core/states.py"
I = "src/jax_act/core/immutable.py"
U = "src/jax_act/core/utils.py"
LC = "src/jax_act/layers/core.py"
LA = "src/jax_act/layers/act.py"
F = "src/jax_act/frameworks/flax.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    anchors = {"files": files,
               "mechanism": [{"name": n, "where": w} for n, w in mech],
               "observe_at": observe, "hook_needed": None}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": anchors})


prop("C01", "Halting probability mass never exceeds one, and halting is exact",
     "In every history of committed iterations, each batch element's cumulative probability stays within [0, 1], never decreases, and grows by exactly the depressed, clamped halting probability until the element would exceed the halting threshold 1 - epsilon, at which point it becomes exactly one. An element is reported halted exactly when its cumulative probability is above the threshold (a probability of one is always halted, also when the threshold rounds to one in the chosen dtype), and the all-halted and any-halted flags are the conjunction and disjunction of the per-element report. A halted element never becomes unhalted except by reset or an explicit edit.",
     ["histories", "inputs", "configurations"],
     "every sequence of halting-probability tensors, every epsilon in (0,1), depression constant, batch shape and floating core dtype",
     "the tests run a handful of fixed sequences on one batch shape and one epsilon; the guarantee quantifies over all sequences, over where the threshold is crossed, and over dtypes in which the threshold rounds",
     [C, U, V], [("cumulative probability update with clamping to the remaining mass", C + ":_process_probabilities"),
              ("halted test", U + ":is_halted"), ("halting flags", C + ":is_completely_halted/is_any_halted")],
     ["ACT_Controller.probabilities", "ACT_Controller.halted_batches", "is_completely_halted", "is_any_halted"],
     [("probabilities", "cumulative halting probability per batch element", S)])

prop("C02", "Accumulators hold default plus the probability-weighted sum of updates",
     "After any history, every leaf of every accumulator equals its starting value plus the sum over committed iterations of weight times update, where the weight of an iteration is the growth of that batch element's cumulative probability in it; for a fully halted element started from scratch the weights sum to one. The weight is aligned with the leading batch dimensions of the leaf and applied to all trailing dimensions, and each update leaf goes to the leaf at the same place of the accumulator of the same name. This holds for every number of accumulators, tree shape, leaf rank and supported dtype mix.",
     ["histories", "inputs", "configurations"],
     "every history of updates and halting probabilities, every accumulator tree (leaf, tuple, list, dict, nested, empty), leaf rank, batch rank and dtype",
     "the tests use one or two accumulators of convenient shapes in which left and right broadcasting or leaf order can coincide; the identity must hold for all shapes, also ones with equal dimensions",
     [C, U], [("weighted accumulation", C + ":_update_accumulator"), ("leaf pairing", U + ":merge_pytrees"), ("left broadcasting of weights", U + ":setup_left_broadcast")],
     ["ACT_Controller.accumulators", "ACT_Controller.__getitem__"])

prop("C03", "Halted elements are frozen against any further iteration",
     "Once a batch element has halted, no further iteration changes its accumulators, cumulative probability, residual or iteration count, whatever finite or non-finite update values and whatever halting probabilities are supplied for it. It stays so while other elements of the batch continue, in every leaf of every accumulator.",
     ["histories", "inputs"],
     "every history after the halting of an element, every update value including NaN and infinity, every halting probability",
     "tests iterate once or twice after halting with benign values; frozenness is quantified over all continuations and values",
     [C], [("selection of already halted elements", C + ":_update_accumulator"), ("iteration and residual selection", C + ":iterate_act, _process_probabilities")],
     ["ACT_Controller.accumulators", "probabilities", "residuals", "iterations"])

prop("C04", "Residuals and iteration counts are the ACT statistics",
     "An element's residual is zero until it halts and from then on equals the probability mass that remained just before its halting iteration, so that the mass of earlier iterations plus the residual is one. Its iteration count equals the number of committed iterations up to and including the one in which it halted, or all of them while it runs.",
     ["histories", "inputs", "configurations"],
     "every history of iterations, at every step of it, for every epsilon, depression constant and batch shape",
     "tests look at the statistics of one sample run; off-by-one and overwritten residuals only show for particular halting steps and continuations",
     [C], [("residual captured in the halting iteration", C + ":_process_probabilities"), ("iteration count", C + ":iterate_act")],
     ["ACT_Controller.residuals", "ACT_Controller.iterations"])

prop("C05", "Batch elements evolve independently of each other and of their layout",
     "The evolution of one batch element depends only on its own defaults, halting probabilities and updates: running a batch gives for each element the same result as running that element alone. Permuting the batch permutes the results, and reshaping the batch dimensions reshapes them; a non-finite value supplied for one element never reaches another.",
     ["histories", "inputs", "configurations"],
     "every joint history of a batch, every permutation and every batch shape of the same elements, including reset operations in between",
     "tests have one fixed layout; whole-batch conditions (all halted, any halted, first element) are reached only by particular combinations of elements",
     [C, U], [("elementwise selection", C + ":_process_probabilities, _update_accumulator, reset_batches"), ("left broadcast", U + ":setup_left_broadcast")],
     ["all controller properties"])

prop("C06", "Update protocol: one update per accumulator per iteration",
     "An update can be cached only for a defined accumulator and only once per iteration; committing requires an update for every accumulator, with as many leaves as it and of the same shapes, and halting probabilities of the batch shape, and empties all the slots. The flags saying that some updates are cached and that all are ready reflect the slots in every history. An operation that violates the protocol raises (unknown name or wrong halting shape: ValueError; already cached, missing or mismatched update, reset with updates pending: RuntimeError) and leaves the controller as it was.",
     ["histories", "fault_sequences"],
     "every sequence of caching, committing, resetting and protocol errors, for every number of accumulators, and every position of a missing or mismatched update",
     "tests raise each error once from one state; the protocol must hold after every history and for every subset of cached accumulators",
     [C], [("slot check", C + ":cache_update"), ("commit check and slot emptying", C + ":iterate_act"), ("pending check", C + ":reset_batches")],
     ["cache_update", "iterate_act", "reset_batches", "updates_ready_to_commit", "has_cached_updates"],
     [("updates", "pending update per accumulator, None when empty", S)])

prop("C07", "Reset restores exactly the halted elements to the defaults",
     "Resetting returns every halted element to its default in every leaf of every accumulator (also where the accumulated value is not finite), with zero probability, residual and iteration count, and leaves every unhalted element as it was. A reset element then evolves exactly as a fresh one would, and resetting with no element halted, or twice in a row, changes nothing further.",
     ["histories", "inputs", "configurations"],
     "every history with resets at any positions, every subset of halted elements, every accumulator tree and leaf rank",
     "tests reset once on one accumulator of one rank; the reset after the next reset, partial halting, trees and higher ranks are not reached",
     [C, U], [("reset by selection", C + ":reset_batches"), ("left broadcast", U + ":setup_left_broadcast")],
     ["ACT_Controller.reset_batches"], [("defaults", "reset values per accumulator", S)])

prop("C08", "Controllers, builders, viewers and editors are persistent values",
     "No operation, successful or failing, changes any observable of an object that existed before it: every operation returns a new object, the one it was called on can be used again with the same results, and histories can be forked at any point. Containers passed in by the caller are not changed, and assigning an attribute on any of these objects raises AttributeError.",
     ["histories"],
     "every history of operations over all object kinds, re-observing every earlier object after every later operation",
     "tests never look again at an earlier object after a longer history, and sharing of an inner container shows only there",
     [C, B, V, E, I, S], [("immutable attribute guard", I), ("copy before write of name tables", C + ":cache_update, iterate_act"), ("copy before write", B + ":_define"), ("copy before write", E + ":set_*")],
     ["all public properties of ACT_Controller, ControllerBuilder, ACTViewer, TensorEditor"])

prop("C09", "Halting probabilities are clamped, then depressed",
     "Halting probabilities outside [0, 1] act exactly as the nearest bound, and a depression constant d acts exactly as if every clamped halting probability had been multiplied by d beforehand and the constant were one. A constant of one changes nothing and zero prevents all progress of the mass while iterations still count; the constant is carried unchanged through every operation.",
     ["histories", "inputs", "configurations"],
     "every history of halting probabilities over and under the bounds, every depression constant, epsilon and dtype",
     "tests cover one out-of-range value; the order of clamping and depression, and loss of the constant in later operations, only shows in particular combinations",
     [C, B, S], [("clamp", C + ":iterate_act"), ("depression", C + ":_process_probabilities"), ("constant carried along", S + ":replace")],
     ["ACT_Controller.depression_constant", "probabilities", "residuals", "accumulators"])

prop("C10", "Every execution mode computes the same process",
     "Running the same history eagerly, under jit, inside scan, while and fori loops, under vmap over independent controllers or inputs, or with the controller closed over rather than passed in, gives the same observables at every step. All core operations (create, define, cache, commit, reset, view, silent edit) can be traced.",
     ["programs", "histories"],
     "every history up to the bound under every execution mode, configuration and accumulator tree",
     "tests jit a few operations for smoke; equality of results across modes over histories is not compared",
     [C, B, V, S], [("pytree registration", C + ":flatten_controller"), ("traceable selection logic", C), ("pytree registration", S + ":state_flatten")],
     ["all controller properties under each transformation"])

prop("C11", "Saving, loading and pytree conversion lose nothing",
     "Save then load, flatten then unflatten, an identity tree map and passing through a jit boundary, copying and pickling reproduce every observable of a controller, builder, viewer or editor at any point of any history, including pending updates, epsilon, depression constant and error mode, and the process continues from the copy exactly as from the original. A tree map reaches every tensor exactly once and puts each back where it came from.",
     ["histories", "configurations"],
     "every reachable state (pending or committed updates, halted or not, edited), every accumulator tree and name order, every object kind",
     "tests round trip a few states; order dependent confusions between fields or names show only for particular trees, names and pending sets",
     [S, C, B, V, E], [("flatten and unflatten of state", S + ":state_flatten, state_unflatten"), ("registrations", C + ", " + B + ", " + V + ", " + E)],
     ["save", "load", "jax.tree_util on all objects"])

prop("C12", "The process is differentiable with the gradients of ACT",
     "The derivative of an accumulator with respect to each update is the weight that update received (zero after halting), with respect to the starting value it is one, and with respect to each halting probability before halting it is the difference between that iteration's update and the halting iteration's update. Residuals have derivative minus one in every halting probability before the halting iteration, zero in later ones, and derivatives are finite throughout, in forward and reverse mode and under jit.",
     ["histories", "inputs"],
     "every history of halting probabilities strictly inside (0, 1), differentiated with respect to every input, up to the bound",
     "no test differentiates anything",
     [C], [("differentiable selection, no gradient blocking", C + ":_process_probabilities, _update_accumulator")],
     ["jax.grad and jax.jvp of controller observables"])

prop("C13", "A built controller is exactly what was defined",
     "After any history of definitions on a builder, the built controller has zero probability, residual and iterations in the requested batch shape and core dtype, the requested epsilon and depression constant, empty update slots, and for each name exactly the last definition given as both accumulator and default; nothing else. Definitions by shape give tensors of the shapes, dtype and fill requested in the requested tree, definitions of different names commute, and forked builders do not affect each other.",
     ["histories", "configurations"],
     "every sequence of definitions and redefinitions over several names and definition kinds, every batch shape, dtype, fill and tree",
     "tests define one or two accumulators; redefinition, commutation and forks over histories are not compared",
     [B], [("definition tables", B + ":_define"), ("shape tree expansion", B + ":define_accumulator_by_shape"), ("initial state", B + ":new_builder")],
     ["ControllerBuilder properties", "ControllerBuilder.build"])

prop("C14", "The builder accepts exactly the valid definitions",
     "A definition is accepted if and only if every leaf of it is of floating dtype and starts with the full batch shape; otherwise TypeError (dtype) or ValueError (shape, too few dimensions, malformed shape tree) is raised, wherever in the tree the bad leaf is. A new builder is refused with ValueError exactly when the core dtype is not floating or epsilon is not strictly between zero and one.",
     ["inputs", "configurations"],
     "every combination of batch shape and leaf shape up to rank 3-4 over small dimensions, every dtype, every position of one bad leaf in every tree, a grid of epsilons including the bounds and special floats",
     "tests try one bad example per error; which leaf is bad and how the shapes coincide are not enumerated",
     [B], [("definition validation", B + ":_validate_definition_pytree"), ("shape tree validation", B + ":define_accumulator_by_shape"), ("core validation", B + ":new_builder")],
     ["ControllerBuilder.new_builder", "define_accumulator_directly", "define_accumulator_by_shape"])

prop("C15", "Viewer masks keep the selected batch elements and zero the rest",
     "For every reachable state and every boolean mask of the batch shape, a masked view holds in every tensor (probabilities, residuals, iterations, accumulators, defaults, pending updates) the original values where the mask is true and zero elsewhere, for all trailing dimensions, and empty update slots stay empty. The halted-only and unhalted-only views are the masks of the halted report and of its negation, so together they partition the data; masking twice is masking by the conjunction; masks of another dtype or shape raise ValueError.",
     ["inputs", "histories", "configurations"],
     "every mask over batches up to 6-8 elements, every reachable state, all accumulator trees, leaf ranks and batch ranks",
     "tests apply one mask to one state; alignment errors only show when dimensions coincide or ranks are higher",
     [V, U], [("mask application", V + ":mask_data"), ("halted selection", V + ":halted_batches, halted_only, unhalted_only"), ("left broadcast", U + ":setup_left_broadcast")],
     ["ACTViewer properties"])

prop("C16", "Viewer transforms apply the function to every tensor in place",
     "A transform gives a view in which every tensor is the function of exactly the tensor that was at the same place, in probabilities, residuals, iterations, and in every leaf of accumulators, defaults and pending updates; empty slots stay empty, and epsilon and the source view are unchanged. Consecutive transforms compose, and a function that raises for any of the tensors makes the transform raise RuntimeError.",
     ["inputs", "histories", "configurations"],
     "every reachable state with every subset of pending updates, every accumulator tree, a set of shape preserving, shape changing and partially raising functions",
     "the tests transform states in which updates and defaults look alike, so mixing them up was not noticed",
     [V], [("per-field application", V + ":transform")], ["ACTViewer.transform"])

prop("C17", "An edit changes exactly its target, and the process goes on from it",
     "Each editor setter, given a valid value, yields an editor whose target equals that value and whose other contents and error mode are unchanged; setters of different targets commute, and building gives a controller with exactly the edited contents. The built controller then behaves as any controller with these contents: edited epsilon moves the threshold, edited defaults are used by the next reset, edited updates by the next commit.",
     ["histories", "inputs", "configurations"],
     "every sequence of edits up to the bound from every reachable state, followed by further operations, in both error modes, from controllers and from saves",
     "tests apply one setter and look at its target only; side effects on other contents and behaviour after the edit are not checked",
     [E, S], [("setters", E + ":set_*"), ("field replacement", S + ":replace")],
     ["TensorEditor properties", "TensorEditor.build", "TensorEditor.save"])

prop("C18", "Editor validation accepts valid and rejects invalid replacements",
     "In standard mode a setter raises exactly when the value is invalid: shape or dtype differing from the current tensor, probabilities or residuals outside [0, 1], negative iterations, epsilon outside [0, 1], unknown accumulator, tree structure, leaf shape or leaf dtype differing in any place; an update may also be emptied. In silence mode no content is checked, an unknown error mode is refused, and under jit with checkify the same values are accepted and rejected as eagerly.",
     ["inputs", "configurations"],
     "every setter, every position of one bad element or leaf, every kind of badness, both error modes, eager and compiled, also after a chain of earlier edits",
     "tests check one sample per validator; where the bad element or leaf is, and agreement of modes, is not enumerated",
     [E, U], [("validators", E + ":_validate_*"), ("mode dispatch", E + ":_execute_validation"), ("structure comparison", U + ":are_pytree_structure_equal")],
     ["TensorEditor.set_*", "TensorEditor.edit_controller", "TensorEditor.edit_save"])

prop("C19", "execute_act is the bounded ACT loop",
     "Executing a layer gives exactly the controller and state of the plain loop that makes the controller from the initial state, depression constant and extra arguments, and runs iterations while not every element has halted and fewer than the maximum have been run. The layer is run neither more nor fewer times than that loop, and the result does not depend on error checking being on, nor on running under jit or vmap.",
     ["histories", "inputs", "programs"],
     "every schedule of halting probabilities up to the bound, every maximum including zero, depression constants, state trees, extra arguments, error checking on and off, eager, jit and vmap",
     "tests run one smoke example; the stopping step is not compared against the loop over schedules",
     [LA, LC], [("loop condition", LA + ":_is_act_not_complete"), ("loop body and counter", LA + ":_while_loop_adapter_factory"), ("argument passing", LA + ":execute_act")],
     ["AbstractACTTemplate.execute_act"])

prop("C20", "Every violation of the layer contract is reported",
     "With error checking on, a layer whose controller factory returns something other than a controller (TypeError) or a controller without accumulators (RuntimeError), or whose iteration returns something other than a tuple (TypeError) of length two (RuntimeError) whose first item is a controller (TypeError), different from the one passed in and without any uncommitted update (RuntimeError), is reported; a layer that respects the contract never is. With error checking off none of these reports is made.",
     ["programs", "fault_sequences"],
     "every kind of violation, every nonempty subset of accumulators left uncommitted for one to three accumulators, every iteration shape",
     "the tests of the uncommitted check passed the controller it was meant to check in the wrong position, so a layer that never commits was not covered",
     [LC, LA], [("contract checks", LC + ":ContractValidationWrapper")], ["AbstractACTTemplate.execute_act", "ContractValidationWrapper"])

prop("C21", "The Flax layer computes the loop with its own parameters",
     "Initialising a Flax ACT layer creates every parameter its iteration needs, and applying it gives exactly what the plain bounded loop over its iteration with those parameters gives, whatever the inputs and maximum, also under jit and as a submodule. Parameters are not changed by applying, and a layer that does not define its setup is refused with NotImplementedError.",
     ["inputs", "programs", "configurations"],
     "every input of the bounded input grid, maxima including zero, parameter settings, direct and nested use, eager and jit",
     "the repository's own Flax tests fail at the pinned commit for unrelated reasons and compare no values",
     [F, LA], [("parameter creation before the loop", F + ":setup_lazy_parameters"), ("setup refusal", F + ":setup")],
     ["FlaxACTLayer.init", "FlaxACTLayer.apply"])

prop("C22", "Pytree shape broadcasting follows the target tree",
     "Broadcasting a source tree to a target succeeds exactly when the source is the target with some of its subtrees replaced by single leaves; the result has the target's structure, and each of its leaves is the source leaf standing at or above that place. In all other cases (different node kinds, child counts, keys, or a branch where the target has a leaf) it raises.",
     ["inputs"],
     "every pair of trees up to the size bound over leaves, tuples, lists and dicts, nested and empty",
     "tests use a few hand-made trees; ordering and multiplicity errors need particular nestings",
     [U], [("leaf replication", U + ":_replicate_leaves"), ("leaf counting", U + ":_count_linked_leaves"), ("descent validation", U + ":_validate_children_descent")],
     ["utils.broadcast_pytree_shape"])

prop("C23", "Binary operators over pytrees pair leaves and broadcast from the left",
     "Applying a binary operator to two trees gives, wherever one tree broadcasts to the structure of the other, the tree of results of the operator on corresponding leaves in the given operand order, where a leaf of lower rank is aligned with the leading dimensions of the other. If neither tree broadcasts to the other, or the operator fails on any pair, RuntimeError is raised.",
     ["inputs"],
     "every pair of trees and of leaf shapes up to the bound, in both operand orders, with non-commutative operators",
     "tests use few trees and shapes in which left and right alignment may coincide",
     [U], [("pairing and direction", U + ":execute_binary_operator"), ("left alignment", U + ":setup_left_broadcast")],
     ["utils.execute_binary_operator"])

prop("C24", "Merging and comparing pytrees respects place and structure",
     "Merging two trees with equally many leaves gives a tree of the primary's structure whose leaf at each place is the function of the primary leaf and the auxiliary leaf of the same position in depth-first order, in that argument order. Two trees are reported as structurally equal exactly when they have the same node kinds, keys and child counts everywhere, whatever their leaves are; two trees of one structure are reported as equal exactly when every pair of leaves is of one type and equal (or close, if asked).",
     ["inputs"],
     "every pair of trees up to the size bound over leaves, tuples, lists, dicts (any insertion order), nested and empty",
     "tests compare a handful of trees", [U], [("merge", U + ":merge_pytrees"), ("comparison", U + ":are_pytree_structure_equal")],
     ["utils.merge_pytrees", "utils.are_pytree_structure_equal", "utils.are_pytrees_equal"])

prop("C25", "Compiled checked functions return or raise exactly as their checks say",
     "A function compiled through the jit-and-checkify helper returns what it would return eagerly when all of its checks hold for the given arguments, and raises otherwise. This holds call by call, so that a failing call does not affect later ones, for any positional and keyword arguments and any pytree result.",
     ["histories", "inputs"],
     "every sequence of passing and failing calls up to the bound, over argument passing styles, functions with several checks and results of every tree shape",
     "tests have no history of calls", [U], [("error throwing wrapper", U + ":jit_and_checkify")], ["utils.jit_and_checkify"])

prop("C26", "Broadcast helpers align dimensions as documented",
     "Setting up a left broadcast appends trailing unit dimensions until the ranks agree and keeps the data, so that the result broadcasts against the target along its leading dimensions (scalars are left alone, and a tensor of higher rank than the target is refused). The right-broadcast test says true exactly when standard trailing-dimension broadcasting of the two shapes is defined.",
     ["inputs"],
     "every pair of shapes up to rank 4 over small dimensions",
     "tests check a few shapes", [U], [("unsqueezing", U + ":setup_left_broadcast"), ("overlap test", U + ":can_right_broadcast")],
     ["utils.setup_left_broadcast", "utils.can_right_broadcast"])

prop("C27", "No operation changes tree structure, shapes or dtypes of a controller",
     "Committing an iteration, resetting, saving and loading leave the tree structure, every shape and every dtype of a controller with empty slots as they were, for all mixes of core dtype, accumulator dtypes, tree shapes and names, so that a controller can be the carry of any compiled loop from its first step. Values of accumulators are computed in their own dtype and never promoted or truncated to another accumulator's.",
     ["histories", "configurations"],
     "every mix of core and accumulator dtypes, accumulator tree, name set, depression constant and epsilon type, and every history up to the bound",
     "tests use float32 throughout; mixed dtypes raised on the first commit",
     [C, B, S], [("dtype of weighted update", C + ":_update_accumulator"), ("selection", C + ":iterate_act, reset_batches"), ("field flattening", S + ":state_flatten")],
     ["tree structure and avals of the controller", "jax.lax.while_loop/scan carry"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        fh.write(json.dumps(p) + "\n")
print(len(P), "properties")
