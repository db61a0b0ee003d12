#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for every property that has a check module in pbt/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = {
    "C01": ("property-based testing (Hypothesis): training vs. residual of the normal equations", "Randomised search over data, neurons, precision, norm, batch and solver; oracle is the backward-error residual of the regularised normal equations, and the resolvable least-squares optimum when rank deficient. Trusts numpy's SVD/QR in double precision."),
    "C02": ("property-based testing (Hypothesis): projection vs. formulas written out independently, row-selection metamorphic relation", "Randomised search over neuron additions (standard types and ufuncs), input dtypes and memory layouts, solvers and precisions; independent element-wise reference."),
    "C03": ("property-based testing (Hypothesis): metamorphic relation to one-batch training", "Randomised search over batch sizes (every route of setting them), partitions, permutations, weighting; accumulated sums compared to rounding, predictions when well conditioned."),
    "C04": ("stateful property-based testing (Hypothesis): differential against the in-memory model over operation histories", "Randomised histories of training, adding, predicting, projecting and error evaluation on one file-based model and shared HDF5 files with windows; in-memory model on sliced arrays as oracle."),
    "C05": ("property-based testing (Hypothesis) with injected delays: differential against synchronous operation", "Randomised files, windows, batches and delays in the helper processes; the OS schedules the real processes. Non-termination is judged by a generous time limit."),
    "C06": ("stateful property-based testing (Hypothesis) with fault injection: on-disk sums vs. reference sums, differential against one-shot training", "Randomised partitions, models, solvers and routes; read faults injected inside a part."),
    "C07": ("schedule exploration of real worker processes (enumerated single-preemption and random schedules) against reference sums", "Worker processes are paused and resumed at file-operation granularity by a controller; schedules with one preemption are enumerated per scenario, others drawn at random. Trusts OS file locks."),
    "C08": ("property-based testing (Hypothesis): save/load round trip", "Randomised models, receivers, classes, solvers, precisions and chains of saves and loads; every observable part compared."),
    "C09": ("property-based testing (Hypothesis): error vs. per-row reference formula, differential in-memory/file-based", "Randomised targets and predictions, modes and spellings, batches and windows; loop-based reference."),
    "C10": ("property-based testing (Hypothesis): confusion matrix vs. per-row reference count", "Randomised targets and predictions with ties and empty classes, batches, arrays and files; loop-based reference."),
    "C11": ("property-based testing (Hypothesis): metamorphic relation to repeated rows; weighted least-squares reference", "Randomised one-hot data, weights and routes; repeated-row training and weighted least squares as oracles."),
    "C12": ("property-based testing (Hypothesis): validity predicate on the selected model, retraining as oracle", "Randomised data, methods, options and models; judges any selection that satisfies the property."),
    "C13": ("property-based testing (Hypothesis): explicitly refitted criteria as oracle", "Randomised data and options; validation, cross-validation and brute-force leave-one-out errors recomputed from scratch."),
    "C14": ("property-based testing (Hypothesis): greedy-path optimality conditions and reference implementation, permutation and scaling relations", "Randomised matrices in general position; each step checked against an independent event search along the path."),
    "C15": ("model-based stateful property-based testing (Hypothesis): numpy reference model, differential between solvers", "Randomised solver operation sequences against a plain numpy model."),
    "C16": ("model-based property-based testing (Hypothesis): reference neuron list", "Randomised addition sequences with given and default parameters; default initialisation judged by validity."),
    "C17": ("stateful property-based testing (Hypothesis): differential against a fresh model", "Randomised histories of public operations, valid and refused, followed by training."),
    "C18": ("property-based testing (Hypothesis): snapshots of arguments and files before and after", "Randomised operations with arrays of the model's own dtype and layout; byte snapshots of arrays and HDF5 contents; mutation of arguments afterwards."),
    "C19": ("stateful property-based testing (Hypothesis): refusal and differential against a model that never saw the request", "Randomised invalid requests in random states of the model."),
    "C20": ("property-based testing (Hypothesis): round trip through files written by independent writers", "Randomised matrices, sources, delimiters, headers, dtypes and compression."),
    "C21": ("property-based testing (Hypothesis): reference statistics, idempotence, batch-size metamorphic relation", "Randomised matrices, batches, storage and parameter types."),
    "C22": ("property-based testing (Hypothesis): refitted prefix models as oracle", "Randomised data, steps and modes; errors and confusion matrices recomputed from scratch."),
    "C23": ("property-based testing (Hypothesis): validity predicate and width bounds; statistical test of the width mean", "Randomised data and metrics; deterministic bounds plus a seeded statistical test at more than six standard errors."),
    "C24": ("model-based stateful property-based testing (Hypothesis) with a numpy stand-in for the device libraries", "The solver's host logic runs on a numpy implementation of the pycuda and scikit-cuda calls it uses; device kernels themselves are trusted."),
    "C26": ("property-based testing (Hypothesis) with injected delays: metamorphic relation between peak memory and number of rows", "Randomised operations, shapes, batches, storage and modes, with slow disks and slow solvers simulated; peaks by tracemalloc in the main and in every helper process for a data set and one four times as long. Memory allocated inside the HDF5 library is not seen."),
    "C27": ("stateful property-based testing (Hypothesis): programs run twice with one seed, in one and in two processes; generator state as invariant", "Randomised programs over all public operations; drawn values must be equal exactly, computed ones to rounding."),
    "C28": ("stateful property-based testing (Hypothesis) with failing operations: snapshots of process settings, open files and directories as invariant", "Randomised programs over all public operations, some failing, under varied settings of the caller; every setting is compared before and after each operation."),
    "C29": ("stateful property-based testing (Hypothesis) over generated schedules: differential runs of models alone, interleaved, nested and in threads", "Generated programs of several models, run alone and then in generated orders, inside each other's neuron functions, or in threads that switch as often as the interpreter allows; thread schedules are sampled, not enumerated."),
    "C25": ("property-based testing (Hypothesis) with fault injection: failure, release, differential repetition", "Randomised operations, kinds of failure and places where they strike (checksummed chunks that are damaged, raising neuron functions, killed helper processes, malformed input); the repeated call is compared to a model without the failure."),
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "pbt", i.lower() + ".py")):
        tech, note = T[i]
        cmd = "python3 pbt/run.py %s" % i
        checks.append({"property": i, "quick_cmd": cmd, "thorough_cmd": cmd, "evidence_file": "evidence/%s.json" % i,
                       "technique": tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, 'pbt'); import bootstrap\"",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Each check imports hpelm from /repo's working tree. VERIF_SEED seeds every random choice; "
              "VERIF_TIER=thorough raises the number of cases. Replay: python3 pbt/run.py <id> --replay <file> (with /opt/venv/bin/python)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
