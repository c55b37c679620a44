#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

NOTEST = "No passing test of the suite executes this code (the data files the tests need are not in the repository). "

p("C01", "A saved ensemble reloads into the same predictor",
  "Writing any trained ensemble with the JSON writer and reading that output back gives a model with the same rounds in the same order, the same tree (structure, split features, thresholds, leaf values, gains) for every class of every round, and the same learning rate, base score, class labels, probability transform and boosting kind. "
  "It therefore returns the same probabilities, classes and feature ranking as the original for every sample. A file naming a transform the library does not know is refused with an error.",
  ["inputs", "programs"], "all trained ensembles (any number of rounds, classes, tree shapes, either boosting kind) and all samples",
  NOTEST + "Even with data they would compare one model's accuracy by eye, not every tree of every model.",
  ["xjson.go", "utils/json.go", "multiclass.go", "tree.go"],
  [("JSONMultiClass / UnJSONMultiClass", "xjson.go"), ("JNode / creator", "xjson.go"), ("JSONTree / UnJSONTree pre-order walk", "utils/json.go")],
  ["PredictSingle, FeatureImportance of the reloaded model"],
  [("MultiClass.b", "trees by round, then class", "multiclass.go"), ("JSONNode", "the on-disk node", "utils/json.go")])

p("C02", "Every tree scores the class it was fitted for",
  "Output position k always means the k-th class label: a tree fitted to class k is fitted on class k's labels and current probabilities and adds only to score k, in training, in prediction and in saved files, in every round, also after other classes have stopped early. "
  "Accuracy and confusion counts translate a predicted position to a label through that same order.",
  ["inputs", "histories"], "all datasets, numbers of classes, and histories in which some classes stop boosting before others",
  NOTEST + "A misattribution needs a history in which one class stops early while another continues.",
  ["xgb.go", "multiclass.go", "xjson.go", "utils/libsvm.go", "confu/confu.go"],
  [("per-round list of trees indexed by class", "xgb.go: NewMultiClass"), ("score accumulation", "multiclass.go: PredictSingle"), ("one-hot column order", "utils/libsvm.go: oneHotEncodeDense")],
  ["PredictSingle", "PredictSingleClass", "Accuracy", "MCConfusions"])

p("C03", "Prediction repeats the score that training accumulated",
  "For every sample, each class's raw score at prediction is the model's base score plus the learning rate times the sum of that class's tree outputs over all rounds, exactly the quantity training accumulated with the same option values, turned into probabilities by the same transform training used. "
  "The predicted class is the first one with the highest probability, and a result slice supplied by the caller that is long enough is the one filled and returned.",
  ["inputs", "configurations"], "all samples, models and option values",
  NOTEST, ["multiclass.go", "xgb.go"],
  [("PredictSingle", "multiclass.go"), ("rawPred updates", "xgb.go: NewMultiClass")], ["PredictSingle", "PredictSingleClass"])

p("C04", "Prediction routes samples exactly as training partitioned them",
  "Every internal node has two children, built from disjoint sets of its own training rows that together are all of them, and a sample is sent at prediction to the child whose training rows satisfy the same comparison of the same feature with the same threshold (values equal to the threshold and NaN included). "
  "A terminal node returns the value fitted for it.",
  ["inputs"], "all datasets, all trees grown from them, all samples",
  NOTEST, ["tree.go"],
  [("PredictSingle", "tree.go"), ("maybeInsertChildNode", "tree.go"), ("Leaf", "tree.go")], ["Tree.PredictSingle", "Tree.Predict"])

p("C05", "Trees honour depth, child-size and column limits",
  "No tree grows deeper than its maximum depth. At every node, not only the root, a split is adopted only if it leaves at least the minimum child weight (truncated to an integer) of training rows on both sides, lies between two different consecutive values of the feature, and uses one of the tree's allowed columns when such a list is given.",
  ["inputs", "configurations"], "all datasets and tree options, at every node of every tree",
  NOTEST, ["tree.go", "xgb.go"],
  [("findBetterSplit guards", "tree.go"), ("TreeOptions.clone for the children", "tree.go"), ("MaxDepth countdown", "tree.go")], ["Tree.Print", "Tree.Branches"])

p("C06", "Data and options passed by the caller are never modified",
  "Training, prediction, evaluation, cross-validation, hyperparameter search, confusion counting and text export leave every feature value, label and key of the dataset they are given unchanged. "
  "Training, cross-validation and the three search entry points leave the option structures they are given unchanged.",
  ["inputs", "histories", "schedules"], "all datasets and options, any sequence or concurrency of calls",
  NOTEST + "Aliasing writes only show when the caller looks at its data again or shares it between goroutines.",
  ["xgb.go", "tree.go", "multiclass.go", "utils/stat.go", "utils/math.go", "utils/csv.go", "utils/libsvm.go", "cv/cv.go", "cv/grad.go", "cv/hybrid.go", "confu/confu.go"],
  [("scratch buffers instead of in-place sorting", "utils/math.go: MemArgSort"), ("copies for each search candidate", "cv/cv.go, cv/grad.go, cv/hybrid.go")],
  ["DataBunch fields", "Options fields", "GridOptions fields"])

p("C07", "Using a trained model never changes it",
  "Predicting, computing accuracy, asking for labels, rounds or feature importance, counting confusions, printing and saving write nothing to the model or its trees or to package-level state, so they can run in any order or concurrently and their results do not depend on earlier calls. "
  "The label list handed to the caller is a copy.",
  ["histories", "schedules"], "all sequences and interleavings of read-only calls on one model",
  NOTEST + "Interference between calls needs several calls, often concurrent ones.",
  ["multiclass.go", "tree.go", "xjson.go", "utils/json.go", "confu/confu.go"],
  [("local buffers in PredictSingle/Accuracy", "multiclass.go"), ("ClassLabels copy", "multiclass.go")], ["MultiClass methods", "Tree methods"])

p("C08", "Cross-validation folds partition the samples",
  "For any dataset, the fold generator either returns an error or announces n folds and yields exactly n train/test pairs and then nothing. Every sample is in exactly one test set, and each train set is exactly the samples of the other test sets. "
  "Every row comes with its own label and the dataset's keys, rows are copies when copies are requested, and too small a dataset gives an error instead of a crash.",
  ["inputs", "configurations"], "all dataset sizes, fold counts and random draws",
  NOTEST + "The draws are random; overlap or loss of samples shows only in some of them.",
  ["utils/stat.go"],
  [("draw-and-reject sampling", "utils/stat.go: CrossValidationSamples"), ("fillRemaining", "utils/stat.go"), ("fillDataBunch", "utils/stat.go")],
  ["the generator returned by CrossValidationSamples"])

p("C09", "Every concurrent evaluation is collected exactly once",
  "Every evaluation that a search starts in the background reports exactly one error value, one accuracy and one options value, in that order, on every path including failures, and whoever started it receives all three before it returns. "
  "So no search hangs, leaves a goroutine blocked, or ignores the result of an evaluation it started, whatever the number of combinations and of workers; each gradient worker likewise delivers exactly one result.",
  ["schedules", "fault_sequences", "configurations"], "all schedules, all failing or succeeding evaluations, all numbers of combinations and workers",
  NOTEST + "Leaks and lost results depend on the number of combinations, on failures and on schedules.",
  ["cv/cv.go", "cv/grad.go", "cv/hybrid.go"],
  [("three-channel protocol", "cv/cv.go: MultiClassCrossValidation / rescueConcValues"), ("per-parameter workers", "cv/grad.go: GradStep / ParamaterGradStep")],
  ["Grid, GradientGrid, HybridGradientGrid, GradStep"])

p("C10", "A search returns the options that earned the reported accuracy",
  "The options returned by each hyperparameter search are the ones whose own cross-validation produced the returned best accuracy, and that accuracy is the highest one the search accepted. "
  "The returned options are not altered by anything the search does after recording them, and cross-validation during a search uses the number of folds the caller asked for.",
  ["inputs", "histories", "configurations"], "all datasets, search spaces and sequences of accepted and rejected steps",
  NOTEST, ["cv/cv.go", "cv/grad.go", "cv/hybrid.go"],
  [("best-so-far pair", "cv/cv.go: rescueConcValues; cv/grad.go, cv/hybrid.go: CompareAccs")], ["results of Grid, GradientGrid, HybridGradientGrid"])

p("C11", "Grid search evaluates exactly the configured ranges",
  "For every hyperparameter, the exhaustive grid search takes the values starting at that parameter's configured minimum, advancing by its own step while not exceeding its own maximum, and evaluates every combination of them. "
  "Each candidate carries the value under the like-named option, with the boosting kind and early-stopping setting of the search and defaults of the matching kind for everything else.",
  ["configurations"], "all search spaces", NOTEST, ["cv/cv.go"],
  [("nested range loops", "cv/cv.go: Grid")], ["options seen by MultiClassCrossValidation"])

p("C12", "Option copies and comparisons cover every setting",
  "A copy of boosting options or of search options has every setting equal to the original's and is a separate object. Two boosting options compare equal exactly when every setting is equal, in either order. "
  "The options handed from a tree node to its children keep every tree setting except the ones the node narrows (rows, depth).",
  ["configurations"], "all option values, including settings added later", NOTEST,
  ["options.go", "cv/cv.go", "tree.go"],
  [("Options.Clone / Options.Equal", "options.go"), ("GridOptions.Clone", "cv/cv.go"), ("TreeOptions.clone", "tree.go")],
  ["Clone, Equal"])

p("C13", "Readers keep every record, in order, with its own label",
  "Reading CSV or libSVM text turns every data line, including a last line without a line end, into exactly one row whose values are that line's values in order, with that line's label at the same position, and takes only the first line as header when one is declared. "
  "Reading a label-name file keeps every entry under the number on its own line.",
  ["inputs"], "all well-formed texts, with or without header, labels and final line end",
  NOTEST, ["utils/csv.go", "utils/libsvm.go", "confu/confu.go"],
  [("ParseCSVFromReader", "utils/csv.go"), ("ParseLibSVMFromReader", "utils/libsvm.go"), ("ReadNameMap", "confu/confu.go")], ["DataBunch fields", "name map"])

p("C14", "Malformed input gives an error, never a crash or a guess",
  "For every input text, the CSV, libSVM, label-name and saved-model readers return normally: a blank or short libSVM or label-name line, a non-numeric field, rows of different lengths, or text cut in the middle of a record yields an error, never a panic, and no value is substituted for one that could not be parsed.",
  ["inputs"], "all byte sequences", NOTEST,
  ["utils/csv.go", "utils/libsvm.go", "utils/json.go", "xjson.go", "confu/confu.go"],
  [("length checks before indexing", "utils/libsvm.go: parseLibSVMLine; confu/confu.go: ReadNameMap"), ("parse errors returned", "utils/csv.go, utils/libsvm.go, utils/json.go")],
  ["error results of the readers"])

p("C15", "I/O failures reach the caller and files are released",
  "When opening, reading, writing, flushing or closing fails while data or a model is read or saved, the function reports an error instead of a normal result; only the end of input counts as normal completion. (A search that cannot save its best model so far reports that in its log and goes on.) "
  "Every file the library opens is closed on every path.",
  ["fault_sequences", "inputs"], "failures at any read or write",
  NOTEST + "No test injects I/O failures.",
  ["utils/csv.go", "utils/libsvm.go", "xjson.go", "utils/json.go", "confu/confu.go", "cv/cv.go"],
  [("error returns", "readers and writers"), ("defer Close", "utils/csv.go, utils/libsvm.go, confu/confu.go"), ("writeBest", "cv/cv.go")], ["error results"])

p("C16", "The confusion matrix counts actual versus predicted labels",
  "Cell (i,j) of the confusion matrix is the number of samples whose actual label is the i-th label and whose predicted label is the j-th. The top-N lists give, for each label, the predicted classes in descending order of that row's counts with the matching counts, and asking for them changes neither the matrix nor copies handed out earlier.",
  ["inputs", "histories"], "all models, datasets and sequences of queries", NOTEST, ["confu/confu.go"],
  [("Matrix", "confu/confu.go"), ("TopNForLabelM", "confu/confu.go"), ("memIntSort", "confu/confu.go")], ["Matrix, TopNPerLabel, TopNForLabelM, PrintTopN"])

p("C17", "Reported accuracies are what they claim to be",
  "Accuracy on a dataset is 100 times the share of its samples whose predicted label equals their own label. Cross-validated accuracy is the mean, over the folds that produced a model, of the accuracy on each fold's test part of a model trained on that fold's train part with the given options; the same number is returned and sent to the channel.",
  ["inputs", "configurations"], "all models, datasets, fold counts", NOTEST, ["multiclass.go", "cv/cv.go"],
  [("Accuracy", "multiclass.go"), ("MultiClassCrossValidation", "cv/cv.go")], ["Accuracy", "MultiClassCrossValidation"])

p("C18", "State shared between goroutines is only touched in step",
  "Adding to one feature-importance set from several goroutines, and drawing node numbers, are free of data races and lose no update. "
  "No goroutine started by a search reads or writes an options object or variable that another goroutine may be writing at the time.",
  ["schedules"], "all interleavings", "Races need an adverse interleaving and no test runs these concurrently.",
  ["tree.go", "utils/json.go", "cv/cv.go", "cv/grad.go", "cv/hybrid.go"],
  [("Feats mutex", "tree.go: Feats.Add"), ("idGiver mutex", "utils/json.go"), ("per-worker copies of the options", "cv/grad.go: GradStep")], ["Feats.Add", "GradStep", "Grid"])

p("C19", "Loss functions give consistent losses and derivatives",
  "Both loss functions report the mean of the squared differences between labels and probabilities, negative gradients equal to label minus probability, gradients equal to their negation, and Hessians of 1 (square error) or p(1-p) (mean square error). "
  "A result matrix supplied by the caller is the one filled and returned, one is allocated if none is given, and the labels and probabilities are never written to.",
  ["inputs"], "all label and probability matrices", NOTEST, ["utils/loss_acti.go"],
  [("SQErrLoss, MSELoss", "utils/loss_acti.go")], ["LossFunc methods"])

p("C20", "Splits and leaf values follow the boosting formulas",
  "With extreme boosting a node's value is minus the sum of its rows' gradients over the sum of their Hessians plus lambda, and the split kept is the first with the largest gain 1/2(GL^2/(HL+lambda)+GR^2/(HR+lambda)-G^2/(H+lambda))-gamma/2 above zero. "
  "With regular boosting the split kept is the first with the smallest -SL^2/nL-SR^2/nR+S^2/n of the fitted targets, and a leaf's value is the sum of its rows' negative gradients over the sum of their Hessians. The threshold is the midpoint of the two neighbouring values.",
  ["inputs", "configurations"], "all datasets, gradients and regularisation settings", NOTEST, ["tree.go", "xgb.go"],
  [("NewTree value", "tree.go"), ("findBetterSplit", "tree.go"), ("updateLeaves", "xgb.go")], ["Tree.PredictSingle", "Tree.Print"])

p("C21", "Prediction is deterministic, training random only by sub-sampling",
  "Predicting, evaluating, ranking features, counting confusions, reading and saving depend on nothing but their arguments: no random numbers, clock, environment, or map iteration order. "
  "Training draws random numbers only to choose each round's rows and columns when sub-sampling is configured, so with it disabled training twice on the same data gives the same model.",
  ["inputs", "histories", "schedules"], "all calls, repeated any number of times", NOTEST + "A test samples one run.",
  ["multiclass.go", "tree.go", "xgb.go", "xjson.go", "utils", "confu/confu.go"],
  [("SubSample is the only random source of training", "xgb.go")], ["PredictSingle", "NewMultiClass"])

p("C22", "Class probabilities form a distribution",
  "The softmax and normalisation transforms return, for every row, each transformed entry divided by the sum of the transformed entries of that same row, writing the caller's result when one is given and leaving the input untouched. "
  "Softmax does not overflow: no entry is exponentiated before the row's largest entry has been subtracted from it.",
  ["inputs"], "all score rows", NOTEST, ["utils/loss_acti.go"],
  [("SoftMax, Normalization, activationDense", "utils/loss_acti.go")], ["SoftMaxDense", "PredictSingle"])

p("C23", "Feature importance adds up every split once, best first",
  "The feature importance of a model totals, for each feature, the gain of every split on that feature over every tree of every round and class, each counted once. The features are listed best first: highest total gain first for extreme boosting, lowest score first for regular boosting, each with its own total.",
  ["inputs"], "all trained models", NOTEST, ["tree.go", "multiclass.go"],
  [("Tree.FeatureImportance", "tree.go"), ("Feats.Add/Less/Swap", "tree.go"), ("MultiClass.FeatureImportance", "multiclass.go")], ["Feats.String"])

p("C24", "Text exports describe the same table the readers expect",
  "The CSV and libSVM exports of any dataset, also an empty one, contain a header line exactly when there is one key per column, then one line per sample in order, each with that sample's label first (-1 without labels) and its values in column order; libSVM terms carry the 1-based column number. "
  "Numbers are written so that reading them gives the same value, with the separators the library's own readers split on.",
  ["inputs"], "all datasets", NOTEST, ["utils/csv.go", "utils/libsvm.go"],
  [("DataBunch.CSV", "utils/csv.go"), ("DataBunch.LibSVM", "utils/libsvm.go")], ["CSV()", "LibSVM()"])

p("C25", "Model queries describe the model",
  "The number of classes of a model is the number of its class labels. The number of rounds reported for a class is the number of trees fitted for it, for the first class if none is given, and -1 for an index at or beyond the number of classes. "
  "These hold for freshly trained and reloaded models alike.",
  ["inputs"], "all models and class indexes", NOTEST, ["multiclass.go"],
  [("Classes, Rounds, ClassLabels", "multiclass.go")], ["Classes", "Rounds", "ClassLabels"])

p("C26", "Row and column helpers touch exactly the requested elements",
  "Sampling a slice or matrix returns the elements at the requested positions in the requested order; transposing swaps rows and columns; column extraction and column addition read or change exactly the named column, for every valid column, and refuse any other; arg-sorting returns a permutation and the values in that order; row sampling returns increasing distinct positions in range; one-hot rows have their 1 in the column of their own label.",
  ["inputs"], "all slices, matrices and index lists", "The tests check one instance of three of these helpers.",
  ["utils/math.go", "utils/libsvm.go", "xgb.go"],
  [("SampleSlice, SampleMatrix, TransposeFloats, DenseCol, AddToCol, ArgSort, MemArgSort", "utils/math.go"), ("SubSample", "xgb.go"), ("oneHotEncodeDense", "utils/libsvm.go")],
  ["the helpers' results"])

p("C27", "Each round trains every class on that round's sample",
  "Every configured round draws one row sample (and one column sample) when that kind of sub-sampling is below 1 in extreme boosting, and fits the tree of every class still boosting on exactly those rows and columns; otherwise it uses all rows or columns. "
  "A round is left out only when its drawn sample is smaller than the configured minimum or empty. The options' depth, child weight, lambda and gamma reach every tree.",
  ["configurations", "inputs"], "all options and datasets", NOTEST, ["xgb.go"],
  [("round loop", "xgb.go: NewMultiClass")], ["NewMultiClass"])

p("C28", "Early stopping follows the configured patience",
  "With a positive patience, a class stops getting new trees only after its training loss failed to improve in that many consecutive rounds, or once its loss is negligible; any improvement restarts the count. With a patience of zero or less no class ever stops early, and one class stopping never stops another.",
  ["configurations", "histories"], "all loss histories and patience values", NOTEST, ["xgb.go"],
  [("stopped / roundsNoProgress / prevloss", "xgb.go: NewMultiClass")], ["Rounds(class)"])

p("C29", "Gradient steps stay inside the configured ranges",
  "A gradient step changes each hyperparameter only to a value for which all hyperparameters lie within their own configured minimum and maximum, and otherwise leaves that hyperparameter as it was; each parameter moves by its own derivative and its own step, and each worker's result is taken for its own parameter only.",
  ["configurations", "inputs"], "all ranges, derivatives and steps", NOTEST, ["cv/grad.go"],
  [("checkAgainstOptions", "cv/grad.go"), ("ParamaterGradStep", "cv/grad.go"), ("GradStep", "cv/grad.go")], ["GradStep", "ParamaterGradStep"])

p("C30", "Boosting lowers the training loss",
  "Adding rounds to an ensemble does not increase the training loss beyond what the learning rate explains, and the trained model fits its training data better than the base score alone.",
  ["inputs", "configurations"], "all datasets and options", NOTEST, ["xgb.go", "tree.go"], [("gradient fitting", "xgb.go")], ["Accuracy on the training set"])

p("C31", "Random draws are unbiased",
  "Row, column and fold draws select every sample with the same probability, independently between rounds.",
  ["inputs"], "the distribution over random draws", "A distribution cannot be settled by a few draws.", ["xgb.go", "utils/stat.go"], [("SubSample", "xgb.go"), ("CrossValidationSamples", "utils/stat.go")], ["SubSample", "CrossValidationSamples"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
