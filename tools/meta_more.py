GM = "skmine/graph/graphmdl/"
prop("C22", "Embeddings of a graph pattern are found exactly",
     "For any labelled directed graph or multigraph and any pattern, the embeddings listed are exactly the injective maps from the nodes of the pattern to the nodes of the graph under which every label of a pattern node is a label of its image "
     "and every pattern edge (every one of several parallel edges) has an edge of the same direction and label between the images. Each is listed once, and the graph is not changed.",
     ["inputs"], "every directed graph or multigraph without two parallel edges of the same label, with any number of labels per node, and every pattern over any labels",
     "The tests count the embeddings of three patterns in two graphs; matching with several labels per node, parallel edges and self loops needs generated graphs.",
     [GM + "utils.py"],
     [("monomorphism search and label matching", GM + "utils.py:get_embeddings"), ("edge matching in multigraphs", GM + "utils.py:_edge_match_for_multigraph")],
     "backtracking enumeration of label-preserving injections written from the definition", "some pattern has at least two embeddings",
     "differential against brute-force enumeration of the injections")

prop("C23", "A graph code table describes its data graph without loss",
     "After covering a graph, the rewritten graph together with the patterns of the code table denotes the data graph: placing each pattern (or single label) where the rewritten graph says and joining them at their ports gives the same nodes, edges and labels, every edge exactly once. "
     "Usages, port usages, used embeddings and the ports of the data are those of that rewritten graph, whatever was covered before. The structure and labels of the data graph are left unchanged.",
     ["inputs", "histories"], "every directed graph or multigraph without self loops or two parallel edges of the same label, node names and labels of any kind (labels that look like node names too), every set of patterns that occur in it, every sequence of adding and removing rows and covering",
     "The tests look at a few marks in two graphs and print the rewritten graph without judging it.",
     [GM + "code_table.py", GM + "code_table_row.py", GM + "utils.py"],
     [("cover", GM + "code_table.py:CodeTable.cover"), ("ports", GM + "code_table.py:CodeTable.search_port"), ("rewritten graph", GM + "code_table.py:CodeTable.create_rewrite_edge")],
     "decoder of the rewritten graph, compared with the data graph by anchored isomorphism", "some pattern of the table is used",
     "round trip: the rewritten graph is decoded with the patterns and compared with the data")

prop("C24", "Description lengths of graph code tables follow the published encoding",
     "The length of a code table, of a rewritten graph and their total are the ones the GraphMDL+ encoding defines: label codes from label frequencies, structure of each used pattern, its ports, universal codes of counts and prequential codes of usages, of port usages and of edge destinations. "
     "The code lengths of patterns, ports, singletons and labels are the Shannon lengths of their usages.",
     ["inputs", "histories"], "every directed graph or multigraph and every set of patterns as above, vertex and edge labels with common names included; all counts, sequences and integers of the elementary codes",
     "The tests compare a few totals with a tolerance of ten percent.",
     [GM + "code_table.py", GM + "code_table_row.py", GM + "label_codes.py", GM + "utils.py"],
     [("rewritten graph length", GM + "code_table.py:CodeTable.compute_rewritten_graph_description"), ("pattern structure", GM + "utils.py:encode"), ("elementary codes", GM + "utils.py:prequential_code")],
     "independent formulas (closed-form prequential code) computed from the decoded rewritten graph", "some pattern of the table is used",
     "differential against an independent implementation of the encoding")

prop("C25", "Graph candidates are exactly the neighbouring patterns, glued at shared ports",
     "The candidates proposed from a rewritten graph are exactly the pairs of pattern occurrences that share at least one port: each such pair is proposed and nothing else. "
     "The pattern of a candidate is the union of the two patterns in which precisely the shared ports are identified, with the labels of both, so every candidate occurs in the data graph.",
     ["inputs"], "every covered code table as above (vertex and edge labels without common names)",
     "The tests glue four hand-written pairs and count the candidates of one graph.",
     [GM + "utils.py", GM + "candidate.py"],
     [("candidate generation", GM + "utils.py:generate_candidates"), ("gluing", GM + "candidate.py:Candidate.merge_candidate")],
     "pairs of neighbouring embeddings of the rewritten graph, glued by a reference union and compared up to isomorphism", "at least two candidates, one of which involves a pattern of the table",
     "differential against a reference enumeration and union")

prop("C26", "GraphMDL search ends at a description no candidate shortens",
     "Fitting any labelled directed graph, cut short by a time limit or not, terminates with a description no longer than that of the single labels, equal to the length of the code table it holds; without a time limit no candidate of that table makes it shorter any more. "
     "patterns() are exactly the patterns in use, single labels included, and every one of them occurs in the graph. The result does not depend on earlier fits of the same miner (of this or another graph), of the same graph or of a graph it was copied from, nor on the time limit of an earlier fit.",
     ["inputs", "histories", "configurations"], "every directed graph or multigraph with at least one label (self loops: termination and lengths only), every sequence of fits, of the same and of other graphs, time limits reached at any point of the search (by a clock of the check)",
     "The tests fit one graph of eight nodes and one multigraph.",
     [GM + "graph_mdl.py", GM + "code_table.py"],
     [("search loop", GM + "graph_mdl.py:GraphMDL.fit"), ("pruning", GM + "graph_mdl.py:GraphMDL._pruning")],
     "reference lengths of the decoded result; every further candidate is tried; repeated and interleaved fits", "the search keeps at least one pattern",
     "generated graphs with planted repetitions; invariants of the result and local optimality by trying every candidate")

DS = "skmine/datasets/"
prop("C27", "Dataset files and cached downloads give back what was written",
     "Any file of transactions, of timestamped events, of smartphone logs or of a labelled graph is read back as exactly the data written: same records in the same order, item and timestamp types as asked, whatever the separators, the trailing blanks, empty transactions, quoted fields or events that look like numbers, dates or missing values. "
     "A dataset fetched by name is downloaded once into the data folder, which is created when missing (argument, else environment variable), and every later fetch gives the same series or the same data and labels without a download. A download that fails raises, and a later fetch is complete.",
     ["inputs", "histories", "faults"], "every list of transactions (integers or strings), every event log (integers, dates with or without a format, or no timestamps), every single-character or text separator, every sequence of fetches over several data folders, with refused or interrupted downloads",
     "The tests read three four-line files and mock the csv reader; the tests of downloads need a network.",
     [DS + "fimi.py", DS + "periodic.py", DS + "_base.py", GM + "utils.py"],
     [("transactions", DS + "fimi.py:fetch_file / _read_dat"), ("download cache", DS + "fimi.py:fetch_any"), ("event logs", DS + "periodic.py:fetch_file"), ("fetched logs", DS + "periodic.py:fetch_health_app / fetch_canadian_tv"),
      ("smartphone logs", DS + "periodic.py:parse_all_user / read_ubiq_user"), ("data folder", DS + "_base.py:get_data_home"), ("graph files", GM + "utils.py:get_graph_from_file")],
     "the generated records themselves (round trip), and a stand-in for the servers below urllib that counts and breaks connections", "at least two different records, or a fetch answered from the data folder",
     "round trip of generated files in scratch folders, stateful fetch histories against a fault-injecting stand-in server")

prop("C28", "Generated datasets have the asked properties and descriptions are exact",
     "Generated transactions are as many as asked, without repeated items, over the asked range of items, of sizes centred on density times the number of items; generated classification data have the asked number of samples, class proportions and separation of item ranges, with samples and labels aligned, and shuffling only reorders them. "
     "The same seed gives the same data, and impossible densities are rejected. Descriptions of transactions and of logs equal the counts and averages of their definition.",
     ["inputs", "configurations"], "every number of transactions, items, classes, density, class weights, separation and seed (integer or generator object); every transaction series and event log",
     "The tests generate a few datasets and look at averages with a tolerance of one item.",
     [DS + "_samples_generator.py", DS + "utils.py"],
     [("transactions", DS + "_samples_generator.py:make_transactions"), ("classification data", DS + "_samples_generator.py:make_classification"), ("descriptions", DS + "utils.py:describe / describe_logs")],
     "definitions evaluated directly; statistical bounds of six and a half standard deviations with fixed seeds of the checks", "at least two transactions and items (two classes and four samples; two events)",
     "generated parameters against the definitions, repeated calls compared")
