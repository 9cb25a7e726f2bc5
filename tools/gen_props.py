#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts are easy to review)."""
import json, os
A = "artemis/"
PDC = A + "_utilities/pd_calculator.py"
OPS = A + "_utilities/ops.py"
HND = A + "_utilities/_handler.py"
MET = A + "interactions_methods/_method.py"
PDB = A + "interactions_methods/model_agnostic/partial_dependence_based/_pdp.py"
FRI = A + "interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py"
GRE = A + "interactions_methods/model_agnostic/partial_dependence_based/_greenwell.py"
SEJ = A + "interactions_methods/model_agnostic/performance_based/_sejong_oh.py"
SPL = A + "interactions_methods/model_specific/gb_trees/_split_score.py"
CMD = A + "interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py"
IPD = A + "importance_methods/model_agnostic/_pdp.py"
IPE = A + "importance_methods/model_agnostic/_permutational_importance.py"
IMD = A + "importance_methods/model_specific/_minimal_depth.py"
ISS = A + "importance_methods/model_specific/_split_score.py"
ADD = A + "additivity/_additivity_meter.py"
CMP = A + "comparison/_method_comparator.py"
VIS = A + "visualizer/_visualizer.py"
CFG = A + "visualizer/_configuration.py"
ZEN = A + "_utilities/zenplot.py"
PERF = A + "_utilities/performance_metrics.py"
SSM = A + "_utilities/split_score_metrics.py"
PV = A + "visualizer/_pdp_visualizer.py"

P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

T6 = "The runnable tests only compute two kinds of importance and one H-statistic on a two-column toy data set"

prop("C01", "Caller-owned objects are never modified",
 "Fitting, computing importance or additivity, comparing and plotting never modify an object the caller passes in: the data frame, the target, the feature list, an option dictionary, the model or unified tree table, or the fitted methods being compared. The only exception is a partial dependence calculator the caller supplies, whose missing values may be filled in.",
 ["inputs", "configurations"], "every public call, every data frame, target, feature list, option dictionary and model",
 T6 + "; none compares the inputs before and after a call.",
 [OPS, PDC, IPE, SEJ, ADD, VIS, SPL, ISS, CMP], [("work on copies (copy / assign / groupby) before writing", "all fit / importance / plot functions")],
 ["the caller's X, y, features, kwargs dictionaries after any public call"])
prop("C02", "Computed results change only by fitting again",
 "Once a method is fitted, no plot, profile, zenplot, value lookup or comparison changes its result tables, its fitted attributes or the partial dependence values it stores. Stored partial dependence values are only ever written by filling in newly computed average predictions; code that reads them never alters them in place.",
 ["histories", "inputs"], "every sequence of plot, lookup and comparison calls after a fit, and every method sharing a calculator",
 T6 + "; no test inspects results after plotting, and the plot tests cannot run offline.",
 [VIS, ZEN, PDC, PDB, GRE, FRI, MET, CMP], [("plots copy the table before rescaling it", VIS), ("zenplot copies a stored entry before swapping its axes", ZEN)],
 ["ovo, ova, feature_importance and pd_calculator before and after plotting"])
prop("C03", "Seeded runs are reproducible",
 "Every random draw that influences a result (row sampling, permutations) comes from the generator created from the random state given when the object was constructed. Two objects built with the same random state and given the same calls therefore produce identical interaction, importance and additivity results, independently of global random state, process hash seed or time.",
 ["inputs", "configurations", "schedules"], "every random state, data set, sample size and number of repetitions",
 T6 + " without a random state, and compare nothing across two runs.",
 [OPS, MET, SEJ, IPE, ADD, PDB, A + "importance_methods/_method.py"], [("numpy Generator seeded in the constructor and passed to each draw", "constructors, sample_if_not_none, _permute_score, _corrupted_scores")],
 ["ovo, ova, feature_importance, additivity_index of two equally seeded objects"])
prop("C04", "Every prediction comes from the selected predict function",
 "Partial dependence based interactions, partial dependence based importance and the additivity index obtain every prediction from the predict function the caller supplies; if none is supplied, from the model's second-column class probabilities when it offers probabilities, and otherwise from its plain predictions. Permutation based interactions and importance always score the model's plain predictions.",
 ["inputs", "configurations"], "every model kind (with or without probabilities) and every supplied predict function",
 T6 + " with sklearn forests and never pass a predict function.",
 [OPS, PDC, PDB, FRI, IPD, ADD, SEJ, IPE], [("get_predict_function and the stored predict_function", OPS + ", " + PDC)],
 ["calls received by the model / predict function"])
prop("C05", "A supplied partial dependence calculator must match",
 "A partial dependence calculator supplied by the caller is used only if it holds the very model being explained and data equal to the (sampled) data being explained. Otherwise the call is rejected with a ValueError before any result is computed or stored; when it matches, all partial dependence values of that call come from it.",
 ["inputs", "histories"], "every supplied calculator, model and data frame, for interactions, importance and additivity alike",
 T6 + " and never pass a calculator from outside.",
 [PDB, IPD, ADD], [("model and data comparison raising ValueError", "fit / importance")],
 ["ValueError; pd_calculator attribute"])
prop("C06", "Unfitted methods refuse, fitted methods do not",
 "Plotting, profiles, zenplots, looking up an interaction value and comparing raise the not-fitted error, before anything is drawn or returned, whenever an involved interaction method has not been fitted. After a successful fit with any options none of them raises that error, except a request for a one-versus-all plot when one-versus-all values were not computed.",
 ["histories", "configurations"], "every public reading operation of every method, before and after a fit with every option",
 "The test asserting the not-fitted error covers one operation of one class and needs a download.",
 [MET, FRI, PDB, SPL, CMD, CMP], [("None checks raising MethodNotFittedException", "plot, _compare_ovo, plot_profile, plot_zenplot, summary")],
 ["exception raised by the operation"])
prop("C07", "Each fit or comparison starts from scratch",
 "After a successful fit, every table and attribute that fitting sets on an interaction, importance or additivity object (results, model, sampled data, features, pairs, metric, calculator) derives from the arguments of that call and the constructor options only; nothing left by an earlier fit is kept or consulted. Likewise the numbers shown by a comparison always describe the two methods passed to that call.",
 ["histories"], "every sequence of fits and comparisons on one object",
 "Every test fits an object once.",
 [MET, FRI, PDB, SEJ, SPL, CMD, IPD, IPE, IMD, ISS, ADD, CMP], [("unconditional reassignment of all result attributes", "fit / importance / summary / comparison_plot")],
 ["all public attributes after a second fit with other arguments"])
prop("C08", "Tables cover exactly the requested features",
 "Partial dependence based and permutation based interaction tables have exactly one row per unordered pair of the requested features, and their importance and one-versus-all tables exactly one row per requested feature; when no features are requested, all columns of the data are used. The conditional minimal depth table has exactly one row per ordered pair of distinct model features.",
 ["inputs", "configurations"], "every data frame, every feature selection and every option",
 T6 + "; they do check one table's feature set, for an explicit full feature list.",
 [OPS, PDB, FRI, GRE, SEJ, IPD, IPE, CMD], [("combinations of the included features, one appended row per pair / feature", "fit, _calculate_ovo_interactions_from_pd, _perf_based_ovo, _pdp_importance, _corrupted_scores")],
 ["ovo, ova, feature_importance rows"])
prop("C09", "Tables list the strongest entries first",
 "Interaction, one-versus-all and importance tables are sorted by their value column with the strongest entry first: descending where larger means stronger, ascending where smaller means stronger (the depth based measures and metrics); conditional minimal depth interactions are sorted by number of occurrences first. The direction a method sorts by is the same direction it declares to its plots and to comparisons.",
 ["inputs", "configurations"], "every data set, model and selectable metric",
 T6 + "; the ordering tests need a download and only use default metrics.",
 [MET, FRI, GRE, SEJ, SPL, CMD, IPD, IPE, IMD, ISS, SSM], [("sort_values with the declared direction as last reordering step", "all result builders")],
 ["row order of ovo, ova, feature_importance"])
prop("C10", "Plots show the method's own data, direction and labels",
 "Every plot of a fitted method is drawn from that method's own tables, with that method's ordering directions, feature columns and directedness, and with the title and figure size the caller asked for. The heatmap, graph and bar chart panels of a summary show exactly what the corresponding stand-alone plots show.",
 ["configurations", "inputs"], "every method, plot type, title and figure size",
 "The plot tests only assert that nothing crashes, and need a download.",
 [VIS, MET, FRI, SPL, CMD], [("arguments passed down from plot to the drawing functions", VIS)],
 ["arguments reaching seaborn / networkx / matplotlib"])
prop("C11", "Plot types are accepted or rejected as declared",
 "Asking a fitted method for a plot type it does not support raises the unsupported-visualization error before anything is drawn. Every plot type declared as supported by a method reaches a drawing routine, which receives the data it needs (one-versus-all values, per-tree results, occurrence counts); every interaction method has a declared, non-empty set of plot types.",
 ["configurations"], "every pair of method and plot type, including unknown plot types",
 "Only two method / plot type rejections are tested, in tests that need a download.",
 [VIS, CFG, A + "_utilities/domain.py", FRI, SPL, CMD], [("accepts() before dispatch; if/elif dispatch over VisualizationType", VIS), ("accepted_visualizations table", CFG)],
 ["exception or drawing calls"])
prop("C12", "Batching never changes partial dependence",
 "The batch size only decides how many rows are sent to the predict function per call: every requested partial dependence value is computed, and computed from exactly the predictions of its own rows, for every batch size, data size and order of requests.",
 ["inputs", "configurations"], "every batch size, number of rows, number of distinct values and request order",
 T6 + " with the default batch size on one data shape.",
 [PDC], [("row ranges recorded in lock-step with the concatenated frame; flush, reset and final flush", "calculate_pd_single, calculate_pd_pairs, calculate_pd_minus_single, fill_*")],
 ["pd_single / pd_pairs / pd_minus_single values for different batch sizes"])
prop("C13", "Partial dependence values are filed under their own features",
 "Each partial dependence value is the average prediction over all rows of the data with exactly the named features set to the value they are filed under (for the complement of a feature: all other features set to one row's values) and every other column untouched. Each axis of a pair's table belongs to its own feature, so naming the two features in either order gives the same values, strengths and correctly labelled profiles.",
 ["inputs"], "every feature, pair, order of naming, column order, and mix of numerical and categorical features",
 T6 + " and look at no individual value and no pair in reversed order.",
 [PDC, GRE, FRI, PDB, ZEN], [("change_dict / get_index / _get_pair_key / reorder_pair_values", PDC), ("axis bookkeeping", GRE + ", " + PDB + ", " + ZEN)],
 ["pd tables, get_pd_pairs(a, b) vs get_pd_pairs(b, a), profile axes"])
prop("C14", "Sampled rows and targets stay aligned",
 "When a sample size n is given, exactly n rows are drawn without replacement, and the target values used with them are those of the very same rows, whatever the index labels of the data and whether the target is an array, list or series. All results of that call are computed on that sample.",
 ["inputs"], "every index, target container and sample size",
 T6 + " without sampling and with the default index.",
 [OPS, SEJ, PDB, IPD, ADD], [("one positional selection applied to data and target", "sample_both_if_not_none, sample_if_not_none")],
 ["X_sampled, y_sampled and data passed to the model"])
prop("C15", "Rejected split score requests change nothing",
 "Split score explanations accept only xgboost and lightgbm models, and reject cover based metrics (for interactions and for importance) for lightgbm, with the dedicated unsupported-model and unsupported-metric errors. A rejected fit leaves the method exactly as it was, including its results, metric and ordering direction.",
 ["inputs", "histories"], "every model class, both metric arguments, before and after an earlier fit",
 "The rejection tests need a download and never look at the object afterwards.",
 [SPL, HND, SSM], [("package check in unify_structure; metric check before assignments", HND + ", " + SPL)],
 ["exception; attributes after the rejected call"])
prop("C16", "Permutations perturb only the measured features",
 "When the effect of permuting a feature is scored, the data given to the model differ from the original only in that feature's column, which holds a permutation of its own original values; for a pair both columns are permuted together by one and the same row permutation. Every repetition draws a new permutation, and each requested feature or pair is scored the requested number of times.",
 ["inputs", "configurations"], "every data set, feature selection, feature order and number of repetitions",
 T6 + " where the second feature is constant, so that a permutation left in place cannot be seen.",
 [IPE, SEJ], [("column restored after scoring / fresh copy per score; one index permutation for a pair", "_corrupted_scores, _permute_score")],
 ["frames passed to model.predict"])
prop("C17", "Strengths obey shift and scale laws",
 "Adding a constant to the model's output changes no partial dependence based interaction strength, importance, one-versus-all value or additivity index. Multiplying the model's output by a positive factor leaves the normalized H-statistic and the additivity index unchanged and multiplies the unnormalized H-statistic, the Greenwell strength and the partial dependence based importance by that factor.",
 ["inputs"], "every model, data set, constant and factor",
 T6 + " on one model and never rescale it.",
 [FRI, GRE, IPD, ADD, OPS], [("centering, standard deviations, ranges and ratios of equal powers", "_calculate_hstat_value, _calc_conditional_imp, _calc_importance, _calculate_additivity")],
 ["ovo, ova, feature_importance, additivity_index"])
prop("C18", "Interaction strength is joint effect minus separate effects",
 "The pair H-statistic compares the joint partial dependence of the two features with the sum of their own partial dependences, the one-versus-all H-statistic compares the prediction with the sum of the feature's partial dependence and that of its complement, and the permutation based strength compares the score change of permuting both features with the sum of the score changes of permuting each; the additivity index compares the prediction with the sum of all single-feature effects. Each of these differences vanishes exactly when the separate effects add up, and each uses the effects of the very features it is reported for.",
 ["inputs"], "every model, data set and feature pair",
 T6 + " and look at no interaction value.",
 [FRI, SEJ, ADD], [("signed combination of effects", "_calculate_hstat_value, _inter, _calculate_additivity")],
 ["ovo, ova, additivity_index"])
prop("C19", "Worse performance always means higher importance",
 "Permutation importance is positive when permuting a feature makes the model's score worse and negative when it makes it better, both for error metrics, where smaller is better, and for accuracy-like metrics, where larger is better. The same metric, applied to the same targets, is used for the reference score and the permuted scores.",
 ["inputs", "configurations"], "every metric, model and data set",
 T6 + " with an error metric only.",
 [IPE, SEJ, PERF], [("sign flip for classification metrics", "_neg_if_class, Metric.applicable_to")],
 ["feature_importance, ovo"])
prop("C20", "Left and right subtrees are treated alike",
 "In both tree based explanations the left and the right child of a node are processed identically: each splitting child receives the gain, cover and feature of its own parent, a depth one larger than its parent's, and the same interaction test (a different feature with a strictly larger gain than its parent). Mirroring any tree therefore changes no split score statistic and no node depth.",
 ["inputs"], "every tree of every supported model",
 "The tree tests need a download and only check column names.",
 [SPL, ISS, CMD], [("parallel code for left_child and right_child", "_prepare_stats, _calculate_depth_for_one_tree, _next_level")],
 ["full_result, full_ovo, feature_importance"])
prop("C21", "Feature names are opaque",
 "Distinct features and distinct feature pairs are never confused, merged or overwritten because of how their names are spelled: letter case, separators inside names, or names whose concatenations coincide make no difference to tables, comparisons or the order of heatmap rows.",
 ["inputs"], "every set of distinct feature names",
 "Test data use a handful of fixed, well separated names.",
 [CMD, CMP, VIS], [("tuples and unmodified names as keys", "_compare_ovo, _alphabetical_order_pair, order_heatmap")],
 ["_compare_ovo rows, correlations, heatmap order"])
prop("C22", "Comparisons match the same pair in both methods",
 "The interaction value of a pair is the same in whichever order its features are named. A comparison plots, for every pair of the first method, the first method's value against the second method's value of that same pair, reverses an axis exactly when the method on that axis ranks smaller values as stronger, and reports all three correlation kinds, each computed with its own kind from the first and the second method.",
 ["inputs", "configurations"], "every two fitted methods and every feature pair both of them report",
 "The comparator tests need a download and only check that something is returned.",
 [MET, CMD, CMP], [("symmetric selection mask", "interaction_value"), ("iteration over one method, lookup in the other", "comparison_plot, correlations")],
 ["interaction_value, scatter points, axis direction, correlations table"])
prop("C23", "Progress display has no influence on results",
 "Whether a progress bar is shown decides nothing but whether it is shown: results, errors, random draws and the number of predictions are the same with and without it, for every method.",
 ["configurations"], "every public call with a show_progress option",
 T6 + " with the progress bar off.",
 [PDC, PDB, FRI, GRE, SEJ, SPL, CMD, IPD, IPE, ISS, ADD], [("show_progress flows only into tqdm's disable argument", "all loops")],
 ["results with show_progress on and off"])
prop("C24", "Objects are independent and plot options do not stick",
 "Using one method, importance, comparator or visualizer object never influences another one, nor later objects of the same class. Options given to one plot call (colours, thresholds, number of bars, widths) apply to that call only and do not change the defaults of later plots.",
 ["histories"], "every set of objects and every order of calls on them",
 "Tests use one object at a time and never plot twice with different options.",
 [CFG, VIS, SEJ, IPE, MET], [("configuration objects created per instance and only read when plotting", CFG + ", " + VIS), ("no writes to module or class level state", "whole package")],
 ["results and plot arguments of a second object / second plot"])
prop("C25", "Every internal and backend call matches its callee",
 "No public operation can fail because the package calls one of its own functions, or a plotting or partial dependence routine of the libraries it wraps, with an argument that the callee does not accept or without one that it requires.",
 ["configurations", "programs"], "every call expression of the package",
 "Most operations are not executed by any runnable test, so a mismatched argument is only met by a user.",
 [VIS, PV, CMP, MET, PDB, SPL, CMD], [("call signatures", "whole package")],
 ["TypeError from the call"])
prop("C26", "The unified tree table serves both boosting libraries",
 "For xgboost and for lightgbm models alike, the unified tree table provides every column that split score interactions and importance read for that library, with leaves flagged and the depth of the root equal to zero. Fitting succeeds for every trained model, including models whose trees contain no nested splits.",
 ["inputs", "configurations"], "every supported model, tree shape and metric",
 "The split score tests need a download and use deep trees only.",
 [HND, SPL, ISS, SSM], [("rename / drop / added columns", HND), ("column selection", SPL + ", " + ISS)],
 ["KeyError or wrong depth"])
prop("C27", "Conditional minimal depth follows its definition",
 "For every forest, the reported value of a pair is the average over trees of the smallest distance from a highest split on the first feature down to the next split on the second feature within its subtree, and the reported importance is the average depth of the highest split on a feature.",
 ["inputs"], "every fitted forest",
 "The tests need a download and check only the table's shape.",
 [CMD, IMD], [("breadth first traversal and preorder id ranges", CMD)], ["ovo, feature_importance"])
prop("C28", "The additivity index is at most one and one for additive models",
 "The additivity index never exceeds one, up to rounding, and equals one, up to rounding, for every model whose prediction is a sum of single-feature functions.",
 ["inputs"], "every model and data set",
 "One linear and one forest model are tried, in a test that needs a download.",
 [ADD], [("ratio of squared residuals to squared centered predictions", ADD)], ["additivity_index"])
prop("C29", "Rank correlations compare the two rankings pair by pair",
 "The correlations between two methods relate, for each feature pair both rank, its rank in the first method to its rank in the second. Renaming the features consistently therefore leaves the correlations unchanged, and the spelling or alphabetical order of names never enters them as a number.",
 ["inputs"], "every pair of fitted methods and every renaming",
 "The comparator tests only check which correlation kinds are reported.",
 [CMP], [("ranks aligned on the unordered pair", "_rank_interaction_values_encoded")], ["correlations table"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
