#!/opt/venv/bin/python
"""Single source of properties.jsonl, MANIFEST.json and rules.json: run it after editing."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, oracle, rule, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  oracle=oracle, rule=rule, note=note))


prop("C01", "Closed itemset mining is exact",
     "For any transaction database and any minimum support, the closed itemset miner reports every itemset whose support reaches the threshold and that "
     "has no proper superset of equal support, each exactly once and without repeated items, and nothing else. "
     "Each is reported with its exact support and, on request, with the exact ids of the transactions that contain it. "
     "The answer is the same whatever the container, the order of transactions and items, repeated items inside a transaction, or earlier uses of the same miner.",
     ["inputs", "configurations", "histories"], "every database (lists, tuples, sets, Series, strings; empty, repeated and hundreds of rows), every absolute or relative minimum support, every earlier use of the miner",
     "The tests compare a handful of fixed toy databases at one or two thresholds; exactness quantifies over all databases and thresholds.",
     ["skmine/itemsets/lcm.py"],
     [("depth-first closure extension", "skmine/itemsets/lcm.py:LCM"), ("item order and vertical representation", "skmine/itemsets/lcm.py:LCM.fit")],
     "brute-force closed itemsets from bit masks of the rows", "a case is non-trivial when the reference answer has at least two itemsets",
     "differential against brute-force enumeration")

prop("C02", "Itemset output options select and format, never change the answer",
     "Maximum length, lexicographic order, transaction ids, number of jobs and writing to a file only select or format the answer of a closed or maximal itemset miner: "
     "with a maximum length exactly the itemsets of at most that many items remain, in lexicographic order items inside each itemset are sorted, and the file holds the same itemsets with the same supports and transaction ids as the returned table. "
     "Options of one call do not leak into the next one. Invalid minimum supports (zero, negative, floats above 1, not a number) are rejected with an error.",
     ["inputs", "configurations", "histories"], "every database, every combination of the options, every earlier call with other options",
     "The tests try each option alone on one database; the combinations and sequences of calls are never tried.",
     ["skmine/itemsets/lcm.py"],
     [("option handling and output", "skmine/itemsets/lcm.py:LCM.transform"), ("parallel mining", "skmine/itemsets/lcm.py:LCM.transform")],
     "filter/format of the brute-force answer; parser of the written file", "the selected answer has at least two itemsets",
     "differential over option combinations; the written file is parsed back")

prop("C03", "Maximal itemset mining is exact",
     "For any transaction database and any minimum support, the maximal itemset miner reports exactly the frequent itemsets that have no frequent proper superset, each once, with exact supports and, on request, exact transaction ids. "
     "The answer does not depend on the container, on the order of transactions and items, or on earlier uses of the miner.",
     ["inputs", "configurations", "histories"], "every database, every threshold, every earlier use of the miner",
     "The tests check fixed toy databases only.",
     ["skmine/itemsets/lcm.py"],
     [("maximality pruning", "skmine/itemsets/lcm.py:LCMMax")],
     "brute-force maximal itemsets", "the reference answer has at least two itemsets", "differential against brute-force enumeration")

prop("C04", "The compression model of a database is lossless",
     "After fitting the compression-based itemset miner on any database, in any accepted form, reconstructing from the model gives back every transaction with exactly its items, in the original order.",
     ["inputs", "configurations"], "every transaction list, Series or tabular database, with and without pruning, with any time budget",
     "The tests reconstruct one or two toy databases; losslessness is a claim about every database.",
     ["skmine/itemsets/slim.py"],
     [("reconstruction", "skmine/itemsets/slim.py:SLIM.reconstruct"), ("cover bookkeeping", "skmine/itemsets/slim.py:cover")],
     "round trip: the generated rows themselves", "the fitted code table holds at least one itemset of two or more items", "round trip")

prop("C05", "The compression model is a valid, ordered and never longer encoding",
     "After fitting on any database, the code table contains every single item, is in standard cover order (longer itemsets first, then higher support), and records as usage of each itemset exactly the transactions whose greedy cover uses it. "
     "The reported data and model sizes equal those computed from these usages, and their sum never exceeds that of the items-only table. "
     "When no time budget interrupts the search, no candidate that can be generated from the final table would shorten the total.",
     ["inputs", "configurations"], "every database in every accepted form, with and without pruning, with any time budget",
     "The tests pin sizes and usages of one or two toy databases.",
     ["skmine/itemsets/slim.py", "skmine/base.py"],
     [("greedy cover", "skmine/itemsets/slim.py:cover"), ("candidate evaluation and pruning", "skmine/itemsets/slim.py:SLIM.evaluate"), ("standard order", "skmine/itemsets/slim.py:SLIM")],
     "independent greedy cover and code lengths computed from the rows", "the fitted code table holds at least one itemset of two or more items",
     "reference model of cover and sizes, metamorphic comparison with the items-only table; sizes compared to 2e-4 relative (single precision sums)")

prop("C06", "The published code table and the cover of new data follow the model",
     "The table returned (or written) by the fitted compression model lists exactly the itemsets and usages (or transaction ids) of the code table, restricted only as the options say: singletons, null usages, item order. "
     "Covering any new data marks for each row exactly the itemsets that a greedy cover in table order uses, ignoring unknown items; the code length of a row is the sum of the add-one smoothed code lengths of those itemsets, infinite if there are none, and the decision value decreases with it accordingly.",
     ["inputs", "configurations"], "every training database, every new database with known and unknown items, every combination of output options",
     "The tests cover one fixed new database and few options.",
     ["skmine/itemsets/slim.py", "skmine/base.py"],
     [("published table", "skmine/itemsets/slim.py:SLIM.transform"), ("cover of new data", "skmine/itemsets/slim.py:SLIM.cover"), ("code lengths", "skmine/itemsets/slim.py:SLIM.get_code_length")],
     "independent greedy cover with the published table", "the code table holds at least one itemset of two or more items", "reference model")

prop("C07", "Every history of model edits keeps the compression model consistent",
     "Whatever sequence of initialising, fitting, evaluating candidates, inserting candidates and reading is applied to a compression model, it stays a lossless, ordered encoding with right usages and sizes after every step. "
     "Evaluating never changes the model, inserting a candidate leads exactly to the sizes and usages that evaluating it announced, and fitting again gives what a new object gives. "
     "Generated candidates are new unions of two used itemsets, each proposed once, by decreasing estimated gain, none of those listed as seen already is among them, and none with a clearly positive gain is left out.",
     ["histories", "inputs"], "every sequence of operations on any databases, including candidates already in the table",
     "The tests apply one or two operations to fixed databases; the claim is about every history.",
     ["skmine/itemsets/slim.py"],
     [("evaluation and insertion", "skmine/itemsets/slim.py:SLIM.evaluate / update"), ("candidate generation", "skmine/itemsets/slim.py:SLIM.generate_candidates"), ("initialisation", "skmine/itemsets/slim.py:SLIM.prefit")],
     "model-based: independent cover and sizes recomputed after every operation, fresh object as reference for refits", "at least one candidate was inserted",
     "stateful generation against a reference model")

prop("C08", "The compression classifier predicts the class with the shortest code",
     "For any labelled transactions and any new transaction, the classifier predicts a class, among those seen at training, whose own compression model encodes the transaction in the fewest bits. "
     "This holds for transactions of any length, for any kind of labels, and with the given item universe and pruning option applied to every class model. "
     "A tabular model given a class indicator models the marked rows only, so a one-versus-rest ensemble of such models over three classes or more predicts a class of shortest code as well.",
     ["inputs", "configurations"], "every labelled database, every new transaction including unknown items, every option",
     "The tests check accuracy on one data set.",
     ["skmine/itemsets/slim_classifier.py", "skmine/itemsets/slim.py"],
     [("per-class models", "skmine/itemsets/slim_classifier.py:SlimClassifier.fit"), ("decision", "skmine/itemsets/slim_classifier.py:SlimClassifier.predict")],
     "one model per class fitted separately, reference code lengths", "several classes and a new transaction with a single best class", "differential, ties accepted")

prop("C09", "The vectorizer encodes rows on the most used itemsets",
     "For any data, the vectorizer learns the same itemsets as a plain compression model of the data without the stop items. "
     "Transforming yields one row per transaction and at most k columns: the most used learned itemsets applicable to the data, by decreasing usage. "
     "A cell is 0 when the greedy cover of the row with those columns does not use the itemset, else 1 (one-hot) or the share of its usage among the applicable itemsets (codes); it is never NaN, and unknown strategies are rejected.",
     ["inputs", "configurations"], "every training and new data, every k, strategy, pruning option and set of stop items",
     "The tests check shapes on one small data set.",
     ["skmine/feature_extraction/slim_vectorizer.py", "skmine/itemsets/slim.py"],
     [("column selection and cells", "skmine/feature_extraction/slim_vectorizer.py:SLIMVectorizer.transform"), ("stop items", "skmine/feature_extraction/slim_vectorizer.py:SLIMVectorizer.fit")],
     "plain model of the filtered rows; independent cover", "the result has at least two columns", "reference model")

prop("C10", "Emerging patterns are exactly those between the borders",
     "For any two-class transaction data, growth rate and support, the emerging pattern miner reports exactly the itemsets of at least the minimum size that lie strictly below a maximal frequent itemset of the second class and strictly above a minimal itemset that is not frequent in the first class. "
     "Each of them reaches the support threshold in the second class and grows by at least the growth rate from the first class to the second. "
     "Border differences and the expansion of borders are exact for any families of sets, parallel mining gives the same result, and invalid thresholds or class counts are rejected.",
     ["inputs", "configurations", "histories"], "every two-class database, every valid pair of thresholds, every minimum size, every pair of set families",
     "The tests use two small fixed databases.",
     ["skmine/emerging/mbdldorber.py", "skmine/utils.py"],
     [("border difference", "skmine/emerging/mbdldorber.py:border_diff / mbdllborder"), ("border expansion", "skmine/emerging/mbdldorber.py:borders_to_patterns")],
     "definition by enumeration of the subsets", "at least one emerging pattern (or a border with two or more sets)", "differential against enumeration; thresholds that fall on a possible support are moved off it")

prop("C11", "The discretizer finds the entropy-optimal, MDL-accepted cut points",
     "For any numeric data and class labels, the discretizer's cut points of every column are those of recursive splitting at the class boundary of least entropy, kept exactly when the minimum description length criterion accepts it: sorted, distinct, midpoints between neighbouring values. "
     "A value's bin is the number of cut points of its own column strictly below it, whatever the column order of the new data. "
     "The result does not depend on the sample order (values that tie across classes are broken by the seed), nor on the number of classes; unusable labels and unknown columns are rejected.",
     ["inputs", "configurations"], "every numeric matrix or frame, every labelling, every seed, every new data including values at and next to the cut points",
     "The tests check iris and a few tiny arrays.",
     ["skmine/preprocessing/mdlp_discretizer.py"],
     [("boundary search", "skmine/preprocessing/mdlp_discretizer.py:generate_cut_point"), ("acceptance criterion", "skmine/preprocessing/mdlp_discretizer.py:MDLPVectDiscretizer"), ("binning", "skmine/preprocessing/mdlp_discretizer.py:MDLPDiscretizer.transform")],
     "independent recursive entropy splitting in floating point with both sides of a numerical tie accepted", "at least one cut point", "differential with ties accepted")

prop("C12", "Set utilities are exact",
     "Filtering a family of sets for its maximal or minimal members returns exactly those members. Enumerating cliques of a graph yields exactly its maximal cliques of at least three nodes. "
     "Intersecting two arrays by rows returns exactly the sorted distinct common rows and, on request, their first positions in both arrays; a sliding window view lists exactly the windows of the array.",
     ["inputs"], "every family of sets, every small graph, every pair of integer arrays, every array and window shape",
     "The tests try one or two examples each.",
     ["skmine/utils.py"],
     [("extremal sets", "skmine/utils.py:filter_maximal / filter_minimal"), ("cliques", "skmine/utils.py:bron_kerbosch"), ("rows", "skmine/utils.py:intersect2d"), ("windows", "skmine/utils.py:sliding_window_view")],
     "definition by enumeration", "at least two members / cliques / common rows", "differential against enumeration")

prop("C13", "Parameters round-trip and fitting never changes configuration or input",
     "For every estimator, parameters given to the constructor or set later read back unchanged, those not given have their documented default, building a copy from them or copying the object gives the same class and parameters, and an unknown parameter on its own is rejected and changes nothing. "
     "An estimator configured through the constructor and one configured afterwards give identical results. "
     "Fitting leaves the parameters and the input data as they were, and fitting the same object twice on the same data gives the same result.",
     ["configurations", "histories", "inputs"], "every estimator class, every sequence of parameter changes, every data",
     "The tests check one or two parameters of one class.",
     ["skmine/base.py"],
     [("parameters", "skmine/base.py:BaseMiner.get_params / set_params")],
     "dictionary model of the parameters; constructor against set_params", "at least one parameter is set after construction / at least three rows", "stateful generation, metamorphic")

prop("C14", "Callbacks observe without changing anything",
     "Attaching callbacks to methods of an object changes neither what these methods return or raise nor what they do; after each successful call of the method the callback is called exactly once, with the object and/or the result as its signature asks. "
     "Fitting a miner with callbacks gives the same model as without. "
     "Callbacks that cannot be called, that assign to the object, or that name a missing method are rejected, and a collection of callbacks cannot be changed.",
     ["inputs", "histories"], "every combination of callbacks and methods, every sequence of calls",
     "The tests attach a few callbacks to one miner.",
     ["skmine/callbacks.py"],
     [("wrapping", "skmine/callbacks.py:CallBacks.__call__"), ("validation", "skmine/callbacks.py:CallBacks")],
     "an identical object without callbacks; expected log", "a watched method was called", "differential against the unwatched object")

prop("C15", "Periodic patterns and residuals partition the event log",
     "After mining any event log, the occurrences reconstructed from all patterns and the residual occurrences partition the log: together they are exactly its distinct (time, event) pairs, none in both, none twice, in the time unit and type of the log. "
     "For any selection of patterns, the reconstruction gives exactly the occurrences of those patterns and the complement gives exactly all the others, with the asked ordering and handling of repetitions. "
     "Mining never modifies the log.",
     ["inputs", "configurations"], "every log with integer or datetime index of any resolution, any event names, in any row order, with simultaneous and repeated events, every selection of patterns",
     "The tests reconstruct two or three logs, all in chronological order and with one event kind per time.",
     ["skmine/periodic/cycles.py", "skmine/periodic/data_sequence.py", "skmine/periodic/pattern_collection.py", "skmine/periodic/pattern.py"],
     [("reconstruction", "skmine/periodic/cycles.py:PeriodicPatternMiner.reconstruct"), ("residuals", "skmine/periodic/cycles.py:PeriodicPatternMiner.get_residuals"), ("time scaling", "skmine/periodic/cycles.py")],
     "set arithmetic on the generated log", "at least one pattern was found", "round trip")

prop("C16", "Each row of the pattern table denotes the occurrences of its pattern",
     "Every row of the published table of periodic patterns is self-sufficient: expanding the pattern text from its start time, with its repetitions, periods, inter-event distances and the listed shift corrections, gives exactly the occurrences reconstructed for this pattern, in the unit of the log. "
     "The repetition and period columns are those of the pattern text, the summed column is the sum of the absolute corrections, and rows are in chronological order by default. "
     "Drawing a pattern shows that same tree, with its start, periods, repetitions and distances.",
     ["inputs", "configurations"], "every log, integer or datetime, every table option",
     "The tests look at single cells of one or two tables.",
     ["skmine/periodic/cycles.py", "skmine/periodic/pattern.py", "skmine/periodic/pattern_collection.py"],
     [("published table", "skmine/periodic/cycles.py:PeriodicPatternMiner.transform"), ("pattern text", "skmine/periodic/pattern.py")],
     "independent parser and interpreter of pattern texts", "at least one pattern was found", "reference interpreter")

prop("C17", "Exported periodic patterns import back unchanged",
     "Exporting the patterns of any mined log to a file and importing the file, into a new or used miner with any options, restores the same patterns, table, reconstruction, residuals and code length. "
     "Exporting does not change the miner, the file is valid JSON, and imported patterns can be exported and imported again.",
     ["inputs", "histories", "configurations"], "every log (any event type, index type, scale), including those without patterns or without residuals, every state of the importing miner",
     "The tests export and import one pattern set.",
     ["skmine/periodic/cycles.py"],
     [("export / import", "skmine/periodic/cycles.py:PeriodicPatternMiner.export_patterns / import_patterns")],
     "round trip", "at least one pattern was exported", "round trip")

prop("C18", "Selected periodic patterns pay for themselves and costs are right",
     "The cost of any periodic pattern equals its description length as defined by the encoding, and the total cost reported for a mined log is the sum over selected patterns plus the plain cost of the residual occurrences. "
     "Every selected pattern covers at least three new occurrences and costs no more than listing them, so the result never costs more than the plain list. "
     "A long run of equally spaced occurrences of a single event, of a pair of events or of a short burst of one event is found as exactly one pattern without corrections.",
     ["inputs", "configurations"], "every log, every pattern tree",
     "The tests pin the cost of a few patterns.",
     ["skmine/periodic/pattern.py", "skmine/periodic/pattern_collection.py", "skmine/periodic/data_sequence.py", "skmine/periodic/candidate.py", "skmine/periodic/extract_cycles.py"],
     [("cost of a pattern", "skmine/periodic/pattern.py:Pattern.codeLength"), ("selection", "skmine/periodic/extract_cycles.py"), ("report", "skmine/periodic/pattern_collection.py:output_detailed")],
     "independent recomputation of the description length from the pattern tree", "at least one pattern (or a pattern that is not a simple cycle)", "reference model")

prop("C19", "The mined periodic patterns depend only on the log, not on how it is written",
     "Giving the rows of a log in another order, repeating rows, shifting all times by a constant, expressing the same times in a coarser or finer unit or as timestamps with automatic scaling, or mining other logs first with the same object, yields the same patterns up to that shift or unit.",
     ["inputs", "histories", "configurations"], "every log and every such rewriting of it",
     "The tests give each log in one form.",
     ["skmine/periodic/cycles.py"],
     [("preparation of the log", "skmine/periodic/cycles.py:PeriodicPatternMiner.fit"), ("time scaling", "skmine/periodic/cycles.py")],
     "metamorphic: patterns of the rewritten log against those of the plain one", "at least one pattern was found", "metamorphic relations")

prop("C20", "Pattern trees denote their occurrences through every operation",
     "A pattern tree, however nested, generates exactly the occurrences its repetitions, periods, distances and corrections define; corrections computed from occurrences give these occurrences back. "
     "Appending, repeating, merging, copying, renumbering and factorizing trees denote exactly what those operations mean, and never change the operands that should not change. "
     "Counts, text form and the cover bookkeeping of candidates agree with the tree.",
     ["inputs", "histories"], "every pattern tree, every list of corrections, every sequence of tree operations",
     "The tests build a handful of trees of depth one or two.",
     ["skmine/periodic/pattern.py", "skmine/periodic/candidate.py", "skmine/periodic/data_sequence.py"],
     [("expansion", "skmine/periodic/pattern.py:Pattern.getOccsStar / getCovSeq"), ("tree operations", "skmine/periodic/pattern.py:Pattern"), ("candidates", "skmine/periodic/candidate.py:Candidate")],
     "independent interpreter of nested trees", "the tree is not a simple cycle / several operations / a factorization exists", "reference interpreter, stateful generation")

prop("C21", "Candidate cycles are genuine, priced right, and none that pays off is missed",
     "Every candidate cycle or complex pattern considered by the periodic search covers only occurrences of the log, denotes exactly the occurrences it claims and carries its true cost. "
     "The split of one event's occurrences into cycles is the cheapest of all splits into consecutive segments; chains and triples respect the difference and period bounds. "
     "Each selected candidate is, in its turn, the cheapest per newly covered occurrence, and when the selection ends no remaining candidate is cheaper, per occurrence it would newly cover, than every plain occurrence.",
     ["inputs", "configurations"], "every list of occurrences, every log, every bound",
     "The tests run the search on a few fixed lists.",
     ["skmine/periodic/extract_cycles.py", "skmine/periodic/run_mine.py", "skmine/periodic/candidate_pool.py", "skmine/periodic/candidate.py"],
     [("selection", "skmine/periodic/run_mine.py:filter_candidates_cover"), ("segmentation by dynamic programming", "skmine/periodic/extract_cycles.py:compute_cycles_dyn"), ("folding", "skmine/periodic/extract_cycles.py:extract_cycles_fold"), ("combination", "skmine/periodic/extract_cycles.py")],
     "independent dynamic program, reference costs and interpreter", "at least one cycle / chain / candidate", "differential and invariants over the candidate pool")

exec(open(os.path.join(HERE, "tools", "meta_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "meta_more.py")) else None


def main():
    repo = os.environ.get("VERIF_REPO", "/repo")
    for p in P:
        for f in p["files"]:
            assert os.path.exists(os.path.join(repo, f)), (p["id"], f)
        assert p["statement"].count(". ") <= 2, (p["id"], "more than three sentences")
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python run.py --selftest",
           "checks": [{"property": p["id"], "quick_cmd": "/opt/venv/bin/python run.py --prop %s --tier quick" % p["id"],
                       "thorough_cmd": "/opt/venv/bin/python run.py --prop %s --tier thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": "property-based testing (Hypothesis): " + p["note"], "level": "exploration",
                       "level_note": "Search over generated cases against an explicit oracle (%s); no violation found is not a proof. Trusts the generators, the oracle, Hypothesis, numpy and pandas." % p["oracle"]} for p in P],
           "not_applicable": []}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")
    with open(os.path.join(HERE, "rules.json"), "w") as fh:
        json.dump({p["id"]: "oracle: %s; non-trivial: %s" % (p["oracle"], p["rule"]) for p in P}, fh, indent=1)
        fh.write("\n")


main()
