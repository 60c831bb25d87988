PROP.update({"GraphMDL no longer calls": "C26", "GraphMDL merged node": "C25", "GraphMDL.fit stops": "C26", "GraphMDL pruning": "C26", "GraphMDL kept the timeout": "C26",
             "GraphMDL.patterns left": "C26", "embeddings in a multigraph": "C22", "GraphMDL took an embedding": "C23", "GraphMDL encoded the numbers": "C24",
             "GraphMDL lost which": "C23", "GraphMDL did not count": "C24", "GraphMDL skipped": "C26", "GraphMDL took the marks": "C26",
             "GraphMDL kept the ports": "C23", "GraphMDL gave the same": "C26", "GraphMDL.discover": "C26", "GraphMDL displayed": "C26", "GraphMDL.patterns before": "C26"})
PROP.update({"files with an empty": "C27", "datasets could not be fetched": "C27", "integer timestamps of a log": "C27", "events of a log file": "C27", "ubiq logs": "C27",
             "make_classification shuffled": "C28", "make_classification generated": "C28", "make_classification failed": "C28", "make_transactions rejected": "C28", "describe_logs failed": "C28"})
PROP.update({"a copy of a SLIM": "C13", "the copy of a SLIMVectorizer": "C13", "SLIMVectorizer gave one row": "C09", "cover, get_code_length": "C06"})
PROP.update({"the last occurrences of an event": "C21"})
PROP.update({"multigraphs whose edge keys": "C23"})
PROP.update({"callbacks of one argument": "C14", "callbacks doing self.x": "C14", "callbacks without a source": "C14", "callbacks could be removed": "C14"})
PROP.update({"cost of patterns with very long": "C18"})
