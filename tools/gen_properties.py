#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        }})


prop("C01", "Training returns the regularised least-squares solution",
     "After basic training of a model, the output weights solve the regularised normal equations (H'H + norm*I) beta = H'T, "
     "where H is the hidden representation of the training inputs and norm is the model's L2 parameter, up to rounding at the model's precision. "
     "Predictions for any inputs equal their hidden representation times those weights. "
     "When neurons are duplicated or outnumber the samples, training still completes with finite weights that fit the training data as well as the least-squares optimum.",
     ["inputs", "configurations"],
     "Every finite training set with at least one row, every number of inputs and outputs, every mix of the six standard neuron types with any "
     "weights, both precisions, every norm >= 0 including the default, any batch size, data scale from 1e-3 to 1e3.",
     "Tests train on a handful of fixed tables and look at an MSE bound or only that nothing raises; they never compare the weights with the "
     "solution, never vary norm, and reach the rank-deficient branch only by accident.",
     ["hpelm/elm.py", "hpelm/nnets/slfn.py", "hpelm/nnets/slfn_python.py"],
     [("accumulate H'H and H'T per batch", "hpelm/nnets/slfn_python.py:SLFNPython.add_batch"),
      ("Cholesky solve with least-squares fallback", "hpelm/nnets/slfn_python.py:SLFNPython.solve_corr"),
      ("pseudo-inverse solve of the basic solver", "hpelm/nnets/slfn.py:SLFN.solve_corr"),
      ("training entry point", "hpelm/elm.py:ELM.train")],
     [("HH, HT", "accumulated normal equations (upper triangle of HH for the fast solver)", "hpelm/nnets/slfn.py"),
      ("B", "output weights", "hpelm/nnets/slfn.py")],
     ["ELM.predict", "ELM.project", "nnet.get_B()"])

prop("C02", "Hidden representation computes the documented neuron functions",
     "Every column of the hidden representation equals the documented function of its neuron: x.w+b for linear, 1/(1+exp(x.w+b)) for sigmoid, "
     "tanh(x.w+b), exp(-d(x,w)^2/b) with city-block, Euclidean or Chebyshev distance for the radial types, and f(x.w+b) for a custom numpy ufunc f. "
     "Columns are grouped by neuron type in order of first addition and, within a type, in order of addition. "
     "Each row depends only on the corresponding input row, whatever the numeric type of the input, the number of rows or the row order.",
     ["inputs", "configurations"],
     "Every input matrix of any real numeric dtype (bool, signed and unsigned integers, float16..float64, any memory layout), one-dimensional input for "
     "single-input models, every sequence of neuron additions with standard types and numpy ufuncs, both precisions, all CPU solvers.",
     "One test projects through a single tanh neuron; the other types, mixtures, dtypes and custom functions are never evaluated.",
     ["hpelm/nnets/slfn.py", "hpelm/elm.py"],
     [("transformation functions", "hpelm/nnets/slfn.py:SLFN.__init__"),
      ("projection", "hpelm/nnets/slfn.py:SLFN._project"),
      ("merging of neuron types", "hpelm/nnets/slfn.py:SLFN.add_neurons")],
     [("neurons", "list of (count, type, W, B)", "hpelm/nnets/slfn.py")],
     ["ELM.project", "HPELM.project"])

prop("C03", "Batch size, data splits and row order do not change the trained model",
     "The trained model is the same, up to rounding, for every batch size, for every way of feeding the training rows in successive additions followed by "
     "one solve, and for every joint permutation of the rows. "
     "This holds for in-memory and file-based models, for plain and for explicitly weighted training.",
     ["inputs", "configurations", "histories"],
     "Every training set, every batch size from 1 to beyond the number of rows, given at construction, at training time or as an attribute, every partition of the rows "
     "into consecutive or permuted pieces, weighted or not.",
     "Tests check that the batch attribute is stored; no test compares the solutions of two batch sizes or of a split.",
     ["hpelm/elm.py", "hpelm/hp_elm.py", "hpelm/nnets/slfn.py", "hpelm/nnets/slfn_python.py"],
     [("splitting into batches", "hpelm/elm.py:ELM.add_data"),
      ("batch ranges over a file", "hpelm/hp_elm.py:HPELM.add_data"),
      ("rank-k update", "hpelm/nnets/slfn_python.py:SLFNPython.add_batch")],
     [("HH, HT", "running sums", "hpelm/nnets/slfn.py"), ("batch", "rows per batch", "hpelm/elm.py")],
     ["predict after train", "get_corr"])

prop("C04", "File-based model computes the same as the in-memory model",
     "A file-based model gives the same training result, predictions, hidden representation and error as an in-memory model with the same neurons, "
     "whether the data are HDF5 files or arrays, and whether results go to a file, to a supplied array or are returned. "
     "A start index and row count select exactly the rows [start, start+count) clipped to the data, and the results occupy exactly that many rows, in order. "
     "Any number of such operations can follow each other on the same model and the same files.",
     ["inputs", "configurations", "histories"],
     "Every dataset and window (start < N, count beyond the end included), every batch size, file dtype, chunked or compressed storage, both precisions, "
     "regression and all classification modes, repeated operations that reread or overwrite their own result files.",
     "Tests use tables of 3 to 6 rows in one batch and check that weights changed, or that nothing raised; windows with several batches, projection windows and repeated use are untested.",
     ["hpelm/hp_elm.py", "hpelm/elm.py", "hpelm/modules/hdf5_tools.py"],
     [("window and batch arithmetic", "hpelm/hp_elm.py:HPELM.add_data, predict, project, _error"),
      ("opening data by file name", "hpelm/elm.py:ELM._checkdata"),
      ("result files", "hpelm/modules/hdf5_tools.py:make_hdf5")],
     [("opened_hdf5", "files held open by a model", "hpelm/elm.py")],
     ["predict/project return values and files", "error"])

prop("C05", "Asynchronous training and prediction equal the synchronous ones",
     "Training, adding data and predicting with asynchronous I/O terminate and give the same model, the same accumulated matrices and the same predictions, "
     "row for row, as the synchronous operations on the same files, window and batch size. "
     "No helper process is left running afterwards.",
     ["inputs", "configurations", "schedules"],
     "Every pair of data files, every batch size (one row to beyond the data), window, weighting and precision, under the operating system's scheduling of reader, worker and writer, including slowed-down readers and writers.",
     "Tests run the asynchronous training on 3-row files in one batch and never look at the result; asynchronous prediction is not run at all.",
     ["hpelm/hp_elm.py", "hpelm/modules/hdf5_tools.py"],
     [("prefetch protocol", "hpelm/hp_elm.py:HPELM.add_data_async, predict_async"),
      ("reader and writer processes", "hpelm/modules/hdf5_tools.py:_ireader, _iwriter")],
     [("queues", "requests and data in flight", "hpelm/hp_elm.py")],
     ["nnet.get_B()", "prediction file", "live child processes"])

prop("C06", "Training accumulated on disk in parts equals training at once",
     "When any number of models with the same neurons add disjoint parts of a dataset, in any order and any sizes, to one pair of on-disk matrices, "
     "the matrices hold exactly the regularised sums over all added rows, and solving from them gives the same model as training once on all those rows. "
     "A part that fails before finishing leaves the stored matrices unchanged and usable, so repeating it gives the complete result.",
     ["histories", "inputs", "fault_sequences"],
     "Every partition of every dataset over any sequence of models (fresh, loaded, reused; either CPU solver; synchronous or asynchronous), both precisions, with or without explicit class "
     "weights, rank-deficient neurons included, with failures injected while a part is being read or computed, and mismatched matrices refused.",
     "Tests add the same 4 rows twice and check that no exception is raised; one test sums two parts and only checks error < 1.",
     ["hpelm/hp_elm.py", "hpelm/modules/hdf5_tools.py", "hpelm/nnets/slfn_python.py"],
     [("creation and validation of the matrices", "hpelm/modules/hdf5_tools.py:_prepare_fHH"),
      ("merge into the files", "hpelm/modules/hdf5_tools.py:_write_fHH"),
      ("removal of the regularisation already stored", "hpelm/hp_elm.py:HPELM.add_data"),
      ("solve from files", "hpelm/hp_elm.py:HPELM.solve_corr")],
     [("fHH, fHT", "on-disk sums, norm*I included once", "HDF5 files")],
     ["contents of the two files", "predict after solve_corr"])

prop("C07", "Concurrent workers neither lose nor double-count data",
     "When several processes add different parts of a dataset to the same pair of on-disk matrices at the same time, every process completes and the final matrices equal "
     "the regularised sums over all parts, whether or not the files existed before. "
     "This holds for every interleaving of the processes.",
     ["schedules", "inputs"],
     "Every interleaving, at the granularity of file creation, opening, reading, writing and closing, of 2 to 4 worker processes on one machine with file locks, synchronous or asynchronous workers.",
     "No test runs two processes; an unlucky interleaving is a matter of microseconds that a test would not meet.",
     ["hpelm/modules/hdf5_tools.py", "hpelm/hp_elm.py"],
     [("inter-process lock around each update", "hpelm/modules/hdf5_tools.py:_write_fHH"),
      ("creation and validation under the same lock", "hpelm/modules/hdf5_tools.py:_prepare_fHH")],
     [("fHH+'.lock', fHT+'.lock'", "lock files", "next to the matrices")],
     ["final contents of the two files", "exit status of every worker"])

prop("C08", "A saved model loads back as the same model",
     "Saving a model, trained or not, to a file or a bytes object and loading it into any other model object gives a model with the same inputs, outputs, neurons, norm, "
     "classification setting, class weights and output weights, which therefore predicts, reports errors and trains exactly like the original, at the precision of the receiving object. "
     "Whatever the receiving object held before is replaced, it keeps its own solver type, precision and batch size, and saving does not change the saved model.",
     ["inputs", "histories", "configurations"],
     "Every model built by any sequence of neuron additions, training and structure selection; both model classes in either direction; receivers of other dimensions, with neurons or "
     "already trained, with any CPU solver and precision; repeated save/load.",
     "Tests load one trained one-input model into one empty object and compare a few fields, and one empty HPELM.",
     ["hpelm/elm.py", "hpelm/nnets/slfn.py"],
     [("serialised fields", "hpelm/elm.py:ELM._get_output_format"),
      ("restoring into a new solver", "hpelm/elm.py:ELM._update_from_output"),
      ("file and bytes I/O", "hpelm/elm.py:ELM.save, load, dumps, loads")],
     [("model dictionary", "pickled state", "model file")],
     ["predict, error, train of the loaded model", "nnet attributes"])

prop("C09", "Reported error equals its documented definition",
     "The error of predictions Y against targets T is the mean squared difference for regression, the fraction of rows whose largest output is not the true class for classification, "
     "the class-weight-averaged fraction of misclassified rows per class for weighted classification (a class without rows contributes zero), and the fraction of entries on the wrong side of 0.5 for multi-label classification. "
     "It is the same for the in-memory and the file-based model, for every batch size, and for a window it is the error of exactly those rows. "
     "Classification errors lie in [0, 1].",
     ["inputs", "configurations"],
     "Every pair of target and prediction matrices with at least one row (one-hot targets for single-label modes), all modes named at construction in any letter case or set by training, arrays or files, any batch size and window, any positive class weights.",
     "Tests evaluate each formula on one 3-row table; batches, windows and absent classes never occur.",
     ["hpelm/elm.py", "hpelm/hp_elm.py"],
     [("in-memory formulas", "hpelm/elm.py:ELM._error"), ("batched formulas", "hpelm/hp_elm.py:HPELM._error")],
     [("classification, wc", "mode and class weights", "hpelm/elm.py")],
     ["ELM.error", "HPELM.error"])

prop("C10", "Confusion matrix counts every sample in its cell",
     "For single-label classification entry (i,j) of the confusion matrix is the number of rows of true class i predicted as class j, so the entries sum to the number of rows and "
     "one minus the trace fraction is the classification error. "
     "For multi-label classification entry (i,j) is the number of rows that have true label i and predicted label j. "
     "The result is the same for every batch size, for arrays and for files.",
     ["inputs", "configurations"],
     "Every pair of target and prediction matrices with at least one row and at least two classes, including ties and empty classes, every batch size, arrays and HDF5 files, both model classes.",
     "Tests check two 4-row matrices and otherwise only that the matrix is non-zero.",
     ["hpelm/elm.py"],
     [("batched counting", "hpelm/elm.py:ELM.confusion")],
     [], ["ELM.confusion", "HPELM.confusion"])

prop("C11", "Class weights act as per-class sample multiplicities",
     "Weighted classification minimises the squared error with every row weighted by the weight of its class: training with integer weights gives the same model as unweighted training on data "
     "in which each row is repeated that many times. "
     "Without explicit weights the weight of a class is the number of rows divided by the number of rows of that class. "
     "This holds for in-memory, file-based, asynchronous and partial on-disk training, for every batch size, and for the final model of every structure selection.",
     ["inputs", "configurations"],
     "Every one-hot dataset in which each class occurs, every positive weight vector (list, tuple or array), every route and batch size; the trained weights are those of the rows actually used.",
     "Tests check that weighted training runs and, once, that the heavier class wins; batching, automatic weights and structure selection with weights are not checked.",
     ["hpelm/elm.py", "hpelm/hp_elm.py", "hpelm/nnets/slfn_python.py", "hpelm/nnets/slfn.py", "hpelm/mss_v.py", "hpelm/mss_cv.py", "hpelm/mss_loo.py"],
     [("automatic weights", "hpelm/elm.py:ELM.add_data, hpelm/hp_elm.py:HPELM.add_data, add_data_async"),
      ("row weighting", "hpelm/nnets/slfn_python.py:SLFNPython.add_batch"),
      ("final training after selection", "hpelm/mss_v.py, mss_cv.py, mss_loo.py")],
     [("wc", "class weights", "hpelm/elm.py")],
     ["predict after train", "nnet.get_B()"])

prop("C12", "Structure selection keeps a subset of neurons, retrained on all data",
     "After training with a validation set, cross-validation or leave-one-out, with or without optimal pruning, the model has between one and the original number of neurons, each of them an original neuron "
     "with unchanged type, weights and bias, none used twice, and no more than the given maximum when optimal pruning is limited. "
     "Its output weights are those of basic training of the remaining neurons on the whole training set. "
     "The selection keywords work in upper or lower case, and every model with at least one neuron can be selected from.",
     ["inputs", "configurations"],
     "Every dataset with more rows than neurons, every mix of neuron types from one neuron up, all three methods, with and without pruning and its limit, regression and all classification modes, every k >= 3, any batch size.",
     "Tests run the methods on benchmark tables and check accuracy against a loose bound; the identity of the kept neurons and the final weights are never checked.",
     ["hpelm/mss_v.py", "hpelm/mss_cv.py", "hpelm/mss_loo.py", "hpelm/elm.py", "hpelm/nnets/slfn.py"],
     [("search and final retraining", "hpelm/mss_v.py:train_v, hpelm/mss_cv.py:train_cv, hpelm/mss_loo.py:train_loo"),
      ("pruning", "hpelm/nnets/slfn.py:SLFN._prune"), ("ranking", "hpelm/elm.py:ELM._ranking")],
     [("neurons", "kept neurons", "hpelm/nnets/slfn.py")],
     ["nnet.get_neurons()", "predict"])

prop("C13", "Structure selection minimises the criterion it is named after",
     "The selected number of neurons has a penalised criterion (error + neurons * 1% of the full model's error / number of candidates) no larger than that of all candidate neurons together and of the smallest, quarter, half and three-quarter prefixes of the ranking, where the error is the "
     "validation-set error, the mean validation error over the k folds, or the leave-one-out error of models trained on the respective training part. "
     "The leave-one-out error of regression equals the error of explicitly leaving out each row in turn. "
     "Cross-validation returns the mean error, on the left-out test folds, of the selected number of neurons.",
     ["inputs", "configurations"],
     "Every dataset with clearly more rows than neurons and well-conditioned hidden representations; regression and classification modes for validation sets and cross-validation, regression for leave-one-out; random and optimal ranking (comparisons with prefixes for optimal ranking, where the order is determined).",
     "Tests only bound the final accuracy; a wrong criterion still selects a usable model.",
     ["hpelm/mss_v.py", "hpelm/mss_cv.py", "hpelm/mss_loo.py", "hpelm/elm.py"],
     [("criterion evaluation and interval search", "hpelm/mss_v.py, hpelm/mss_cv.py, hpelm/mss_loo.py"),
      ("PRESS error", "hpelm/elm.py:ELM._error")],
     [("e", "penalised errors per number of neurons", "hpelm/mss_*.py")],
     ["selected neurons", "return value of cross-validation"])

prop("C14", "Optimal-pruning ranking is the multiresponse sparse regression order",
     "The ranking lists distinct regressors, as many as asked for or as exist; the first has the largest correlation norm with the targets, and each next one is the first to reach the common maximal "
     "correlation norm as the estimate moves towards the least-squares fit of those already ranked. "
     "This holds for the variant for few outputs (1-norm) and the one for many outputs (2-norm by default, 1-norm on request); reordering the regressors reorders the ranking accordingly and rescaling the targets does not change it.",
     ["inputs", "configurations"],
     "Every regressor matrix with linearly independent columns in general position (no two regressors tie within rounding), any number of rows >= columns, 1 to 9 outputs for the first and any number for the second variant, any limit from 1; "
     "with exactly repeated columns only distinctness and length.",
     "Tests run each variant once and discard the ranking.",
     ["hpelm/modules/mrsr.py", "hpelm/modules/mrsr2.py", "hpelm/elm.py"],
     [("1-norm algorithm", "hpelm/modules/mrsr.py:mrsr"), ("2-norm algorithm", "hpelm/modules/mrsr2.py:mrsr2"),
      ("choice between them", "hpelm/elm.py:ELM._ranking")],
     [], ["return values of mrsr and mrsr2"])

prop("C15", "All CPU solvers agree through every operation",
     "A model computes the same projections, accumulated matrices, output weights and predictions with the default fast solver, with the basic solver and after being loaded into either, through any sequence of adding neurons, "
     "adding data, reading or setting the accumulated matrices, solving, pruning, resetting and setting output weights. "
     "Reading the accumulated matrices gives full symmetric sums, does not expose them to later changes by on-disk accumulation, and setting them back continues training as if uninterrupted.",
     ["histories", "inputs", "configurations"],
     "Every sequence of solver operations on well-conditioned data at either precision, weighted and unweighted batches; rank-deficient matrices compared by the quality of fit.",
     "Tests exercise only the default solver and never the operations that read or set the matrices.",
     ["hpelm/nnets/slfn.py", "hpelm/nnets/slfn_python.py", "hpelm/elm.py"],
     [("reference solver", "hpelm/nnets/slfn.py:SLFN"), ("fast solver", "hpelm/nnets/slfn_python.py:SLFNPython"),
      ("solver choice", "hpelm/elm.py:ELM.__init__, _update_from_output")],
     [("HH, HT, B, neurons", "solver state", "hpelm/nnets/slfn.py")],
     ["get_corr, set_corr, get_B, set_B, get_neurons of the solver", "predict"])

prop("C16", "Adding neurons composes and initialises as documented",
     "Adding neurons in several calls gives the same model as adding them in one call per type; explicitly given weights and biases are stored unchanged at the model's precision, as copies independent of the caller's arrays. "
     "Without given weights, linear neurons copy the input features (identity matrix, at most as many neurons as inputs, zero bias), other neurons get random weights of the right shape with positive widths for radial types, scaled with the number of inputs so that the spread of what reaches the activation function does not depend on it. "
     "Adding neurons invalidates the previous solution, so predicting before retraining is refused.",
     ["inputs", "histories", "configurations"],
     "Every sequence of neuron additions with any counts, types, given or default weights and biases in any numeric dtype, both precisions and model classes.",
     "Tests check single additions and one merge of two; later mutation of the caller's arrays, dtype and invalidation are untested.",
     ["hpelm/elm.py", "hpelm/nnets/slfn.py"],
     [("validation and initialisation", "hpelm/elm.py:ELM.add_neurons"), ("merging and invalidation", "hpelm/nnets/slfn.py:SLFN.add_neurons")],
     [("neurons, L, B", "network description and solution", "hpelm/nnets/slfn.py")],
     ["nnet.get_neurons()", "project", "predict"])

prop("C17", "Training depends only on the model and the data, not on history",
     "After any sequence of earlier training (any mode), data addition, prediction, error evaluation, projection, saving, loading and failed calls, training a model gives the same result as training a fresh model with the same neurons on the same data. "
     "Predicting, projecting, computing errors and confusion matrices, saving and freeing intermediate results never change what the model predicts.",
     ["histories", "inputs"],
     "Every sequence of public operations on one model object, in-memory or file-based, valid or refused, followed by training with any mode and compared with a fresh object.",
     "Tests create a fresh model per case and train it once.",
     ["hpelm/elm.py", "hpelm/hp_elm.py", "hpelm/nnets/slfn.py", "hpelm/nnets/slfn_python.py"],
     [("reset at the start of training", "hpelm/elm.py:ELM._train_parse_args"), ("reset of the sums", "hpelm/nnets/slfn.py:SLFN.reset")],
     [("HH, HT, B, classification, wc, ranking, kmax_op", "state that survives a call", "hpelm/elm.py, hpelm/nnets/slfn.py")],
     ["predict after each operation"])

prop("C18", "Caller's arrays and input files are never modified",
     "No operation changes the contents of the arrays or data files given to it as input (inputs, targets, predictions, weights, biases, class weights, regressors, statistics); "
     "only designated outputs are written, and only in the rows being produced. "
     "Results do not share memory with the arguments, so changing an argument after the call does not change the model or an already returned result.",
     ["inputs", "histories", "configurations"],
     "Every public operation of both model classes, the ranking and the data tools, with arrays of the model's own precision and layout (where no conversion copies them) and with HDF5 files.",
     "Tests never look at their arguments again after a call.",
     ["hpelm/elm.py", "hpelm/hp_elm.py", "hpelm/nnets/slfn.py", "hpelm/nnets/slfn_python.py", "hpelm/modules/mrsr.py", "hpelm/modules/mrsr2.py", "hpelm/modules/hdf5_tools.py"],
     [("copies on conversion", "hpelm/nnets/slfn_python.py:SLFNPython.add_batch, hpelm/elm.py:ELM.add_neurons"),
      ("read-only opening of data files", "hpelm/elm.py:ELM._checkdata")],
     [], ["argument arrays and file bytes before and after each call"])

prop("C19", "Invalid requests are refused and leave the model usable",
     "Data with the wrong number of features or outputs, different numbers of rows, more than two dimensions or non-numeric type, training or accumulating without neurons, predicting without a solution, solving without any data, "
     "contradictory or incomplete training options, wrongly shaped weights, biases, class weights or stored matrices, and unreadable files are refused with an exception. "
     "After a refusal the model still predicts as before and can be trained as if the request had not been made; a refused data addition adds nothing.",
     ["inputs", "histories"],
     "Every kind of invalid argument to every public operation of both model classes, in any state of the model (empty, with neurons, trained), arrays and HDF5 files.",
     "Tests check one instance of some refusals on a fresh model and never use the model afterwards.",
     ["hpelm/elm.py", "hpelm/hp_elm.py", "hpelm/nnets/slfn.py", "hpelm/modules/hdf5_tools.py"],
     [("argument checks", "hpelm/elm.py:ELM._checkdata, _train_parse_args, add_neurons, hpelm/hp_elm.py:HPELM._checkcorr"),
      ("matrix file checks", "hpelm/modules/hdf5_tools.py:_prepare_fHH")],
     [], ["exception type", "predict and train after the refusal"])

prop("C20", "Converting data to HDF5 stores exactly the given matrix",
     "Making an HDF5 file from an array, an .npy file, a plain text or csv file or a compressed text file stores the same matrix, row by row, in the requested data type, whatever the delimiter, number of skipped header rows and compression level; "
     "one-dimensional data become one column. "
     "Making one from a shape gives a zero matrix of that shape. "
     "The file can be used directly as model data and contains exactly one matrix.",
     ["inputs", "configurations"],
     "Every finite matrix with at least one row and column (single rows and single columns included), int and float dtypes, delimiters comma, semicolon, tab and space, any number of header lines, compression 0 to 9, overwriting an existing file.",
     "Tests only convert small arrays as a fixture; text, compressed and npy sources are never read.",
     ["hpelm/modules/hdf5_tools.py"],
     [("conversion", "hpelm/modules/hdf5_tools.py:make_hdf5")],
     [], ["contents of the created file"])

prop("C21", "Normalising an HDF5 file standardises it once, reproducibly",
     "Normalising a file without parameters gives every column zero mean and unit standard deviation (constant columns become zero), returns the parameters used, and records them in the file; doing so again changes nothing and returns the same parameters. "
     "Normalising with given mean and standard deviation applies (x - mean)/std to every row, with a zero standard deviation treated as one, so a second file is put on the scale of the first. "
     "The result does not depend on the batch size, and given parameters, in any sequence type, are not modified.",
     ["inputs", "configurations", "histories"],
     "Every float matrix with at least one row whose columns have |mean|/std up to 1e4, any batch size from 1 row to beyond the data, files made by the toolbox or by other HDF5 writers.",
     "No test calls the function.",
     ["hpelm/modules/hdf5_tools.py"],
     [("statistics and application", "hpelm/modules/hdf5_tools.py:normalize_hdf5")],
     [("node attributes mean, std", "marks a normalised file", "HDF5 file")],
     ["file contents", "returned parameters"])

prop("C22", "Neuron-count selection from stored matrices reports true validation errors",
     "For every number of neurons it reports, the selection from stored matrices reports the validation error, and for classification the confusion matrix, of the model that uses the first so many neurons and is solved from the stored matrices. "
     "The numbers are distinct, increasing, at most the number of neurons and end with it, or are exactly those given as a vector; afterwards the model has the first neurons of the best reported number and their output weights. "
     "Reported errors do not depend on the batch size.",
     ["inputs", "configurations"],
     "Every dataset, validation set, number of neurons (fewer than three included), number of steps or vector of counts, regression and all classification modes with explicit class weights, every batch size.",
     "Tests check that the first error exceeds the last on one dataset and that a confusion matrix is returned.",
     ["hpelm/hp_elm.py", "hpelm/nnets/slfn.py"],
     [("batched evaluation and pruning", "hpelm/hp_elm.py:HPELM.validation_corr"), ("pruning", "hpelm/nnets/slfn.py:SLFN._prune")],
     [("Ls, errs, confs", "reported results", "hpelm/hp_elm.py")],
     ["return values", "model after the call"])

prop("C23", "Sampled RBF parameters are data centroids with positive typical widths",
     "Sampling parameters for k radial neurons from a dataset, array or HDF5 file, returns k centroids that are rows drawn from all of the data and k positive widths within one standard deviation of the mean distance between sampled data points, "
     "in the metric asked for. "
     "They can be used directly as weights and biases of radial neurons, and sampling does not change the data.",
     ["inputs", "configurations"],
     "Every dataset with at least two distinct rows, any k >= 1, the three metrics named like the neuron types (l1, l2, linf, with or without prefix); widths bounded by the largest pairwise distance in the data.",
     "No test calls the function.",
     ["hpelm/modules/rbf_param.py"],
     [("sampling", "hpelm/modules/rbf_param.py:rbf_param")],
     [], ["return value"])

prop("C24", "The GPU solver's host logic computes the same as the CPU solvers",
     "Given device libraries that do what their interface says, the GPU solver projects, accumulates (plain and weighted), solves, predicts, prunes, merges neurons, and reads and sets its state with the same results as the CPU solver at both precisions, "
     "through any sequence of operations.",
     ["histories", "inputs", "configurations"],
     "Every sequence of solver operations, with the device libraries (pycuda, scikit-cuda) replaced by a numpy stand-in that follows their documented semantics, including column-major BLAS with only one triangle updated.",
     "No test imports the GPU solver, since it needs an NVIDIA card.",
     ["hpelm/nnets/slfn_skcuda.py", "hpelm/elm.py"],
     [("GPU solver", "hpelm/nnets/slfn_skcuda.py:SLFNSkCUDA")],
     [("HH, HT, B on the device", "solver state", "hpelm/nnets/slfn_skcuda.py")],
     ["get_corr, get_B, get_neurons, predict, project"])

prop("C25", "A failed operation says so and releases its files and processes",
     "When an operation cannot be completed - a damaged, missing or wrong file, malformed text, values that cannot be stored, a result file that cannot be made, an in-memory matrix given to an asynchronous operation, "
     "a neuron function that raises, an interrupt, a helper process that dies - it raises in bounded time: it neither hangs nor returns as if complete. "
     "Afterwards no helper process is alive and no file is left open or locked; a trained model predicts as before, a model file saved earlier is kept, and the same call with corrected input on the same files, in the same process, gives what it gives without the failure.",
     ["inputs", "fault_sequences", "histories"],
     "Every file-based operation (training, accumulation on disk, prediction, projection, error, confusion, solving and selection from stored matrices, synchronous or asynchronous), training in memory with or without structure selection, and every tool (conversion, normalisation, RBF parameters, saving, loading), every kind of failure, at every row or batch.",
     "Tests contain a few refusals and no failure in the middle of an operation; none checks that files and processes are released or that the operation can be repeated.",
     ["hpelm/hp_elm.py", "hpelm/elm.py", "hpelm/modules/hdf5_tools.py", "hpelm/modules/rbf_param.py"],
     [("closing of files", "hpelm/elm.py:_closes_hdf5, hpelm/modules/hdf5_tools.py:make_hdf5, normalize_hdf5, hpelm/modules/rbf_param.py:rbf_param"),
      ("helper processes", "hpelm/hp_elm.py:HPELM.add_data_async, predict_async, hpelm/modules/hdf5_tools.py:_ireader, _iwriter"), ("model untouched until the data is read", "hpelm/mss_v.py, hpelm/mss_cv.py, hpelm/mss_loo.py, hpelm/elm.py:ELM.save, load")],
     [("queues", "requests and data in flight", "hpelm/hp_elm.py")],
     ["exception", "live child processes", "re-opening of the files", "result of the repeated call"])

prop("C26", "Memory in use depends on the batch and the model, not on the data size",
     "Operations on HDF5 files need memory for a few batches and for matrices of the model's own size only: training, accumulation (in memory or on disk), prediction and projection into a file, error, confusion matrix and "
     "selection from stored matrices, synchronous or asynchronous, in every mode, need no more for a data set with many times as many rows, in the main and in the helper processes, however slow the disk or the solver is. "
     "The same holds for normalising a file, converting a text file, making a zero matrix, and sampling radial neurons from a file. Training in memory, and predicting from an array with the file-based model, "
     "never make the hidden representation of all of the data, only of one batch.",
     ["inputs", "configurations", "schedules"],
     "Every number of rows, features, outputs and neurons, every batch much smaller than the data, storage layout (chunked, contiguous, extendable, compressed), precision, mode and window, any relative speed of disk and solver. Peaks are those of Python and numpy allocations.",
     "Tests use data of a few rows, all in one batch or two; holding everything in memory gives the same results.",
     ["hpelm/hp_elm.py", "hpelm/elm.py", "hpelm/modules/hdf5_tools.py", "hpelm/modules/rbf_param.py"],
     [("batch loops", "hpelm/hp_elm.py:HPELM.add_data, predict, project, _error, validation_corr, hpelm/elm.py:ELM.add_data, confusion"),
      ("bounded queues", "hpelm/hp_elm.py:HPELM.add_data_async, predict_async"), ("row-wise conversion", "hpelm/modules/hdf5_tools.py:_fill_hdf5, _normalize_h5")],
     [("queues", "batches in flight", "hpelm/hp_elm.py")],
     ["peak of traced memory in each process"])

prop("C27", "Everything random follows numpy's generator, nothing else touches it",
     "Default weights and biases, the random order of neurons in structure selection, and sampled RBF parameters are drawn from numpy's global generator: seeded the same, the same program gives the same result, in the same process whatever "
     "happened before, or in another process; seeded differently, it gives another one. Everything else - training, OP selection, prediction, projection, errors, confusion, saving, loading, adding data or given neurons, file operations, tools - "
     "leaves the generator exactly as it was, and no operation seeds it.",
     ["histories", "inputs", "configurations"],
     "Every program made of the public operations of both model classes and of the tools, every seed, both precisions and CPU solvers, synchronous and asynchronous.",
     "Tests do not seed, and run each operation once; a library that seeds the generator or takes entropy elsewhere passes all of them.",
     ["hpelm/elm.py", "hpelm/modules/rbf_param.py", "hpelm/mss_v.py", "hpelm/mss_cv.py", "hpelm/mss_loo.py", "hpelm/hp_elm.py"],
     [("drawing", "hpelm/elm.py:ELM.add_neurons, _ranking, hpelm/modules/rbf_param.py:rbf_param")],
     [("numpy's global generator", "source of randomness", "numpy.random")],
     ["get_neurons, get_B, predictions and numpy.random.get_state() in two runs"])

prop("C28", "Operations leave the process, its settings and the disk as they were",
     "Whether it succeeds or fails, no operation changes what belongs to the program that calls it: numpy's error handling and print options, warning filters, the working directory, environment, signal handlers, umask, locale, "
     "garbage collector, limits of the csv module, Python's own random generator, standard streams. It leaves no file open when it returns or raises, and no file behind other than the results asked for and the lock files beside stored matrices: "
     "nothing in the working directory, among temporary files or next to the data.",
     ["histories", "inputs", "fault_sequences", "configurations"],
     "Every sequence of public operations of both model classes and of the tools, synchronous and asynchronous, successful or failing at any point, under any settings of the caller.",
     "Tests look at results only; a setting changed for the rest of the program shows neither in the test that changed it nor, usually, in the others.",
     ["hpelm/elm.py", "hpelm/hp_elm.py", "hpelm/nnets/slfn.py", "hpelm/nnets/slfn_python.py", "hpelm/modules/hdf5_tools.py", "hpelm/modules/rbf_param.py", "hpelm/mss_v.py", "hpelm/mss_cv.py", "hpelm/mss_loo.py"],
     [("closing of files", "hpelm/elm.py:_closes_hdf5, hpelm/modules/hdf5_tools.py"), ("helper processes", "hpelm/hp_elm.py:_ends_processes")],
     [("process state", "settings of numpy and of the interpreter", "caller's process")],
     ["snapshots of settings, open files and directories before and after each operation"])

prop("C29", "Models do not influence each other: in turns, nested, or in threads",
     "What a model computes depends on its own history alone. Operations of several models may alternate in any order, run inside each other (a neuron function that uses another model), or, for data in memory, run in several threads at the same time; "
     "models may be created and deleted meanwhile, whatever sizes, precision or data they have in common: each gives the results it gives when it is the only one. A trained model predicts, projects and evaluates data in memory from several threads at the same time "
     "with the results of a single thread. Results returned earlier, and data files that the program itself holds open, are not affected.",
     ["schedules", "histories", "inputs", "configurations"],
     "Every interleaving of the operations of any number of models, every nesting, every scheduling of threads.",
     "Tests use one model at a time in one thread; tables, buffers or files that models share only show with a second model at the right moment.",
     ["hpelm/elm.py", "hpelm/hp_elm.py", "hpelm/nnets/slfn.py", "hpelm/nnets/slfn_python.py", "hpelm/modules/hdf5_tools.py", "hpelm/mss_v.py", "hpelm/mss_cv.py", "hpelm/mss_loo.py"],
     [("state of a model", "hpelm/elm.py:ELM.__init__, hpelm/nnets/slfn.py:SLFN.__init__")],
     [("several models in one process", "shared tables, buffers and files", "caller's program")],
     ["differential runs of several models alone, interleaved, nested and in threads"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
