T.update({
 "C03": (SEQ, "model_checking", "all bounded catalog, Locale and package histories; every translated-query compared with the model"),
 "C10": (SEQ, "model_checking", "every reached catalog exported and read back by the library and by a strict reference reader"),
 "C11": (SEQ, "model_checking", "all insertion orders of bounded contents, repeated exports, fixpoint and order oracle"),
 "C12": (SEQ, "model_checking", "every reached object x receivers; every truncation and byte change of the data"),
 "C13": (SEQ, "model_checking", "every reached Locale x receivers, extended and encoded again; every truncation and byte change of the data"),
 "C14": (SEQ, "model_checking", "all bounded histories of parses, edits and drops; stale marks, entries, headers, references compared with the model"),
 "C15": (SEQ, "model_checking", "snapshots in every reached state, changed in every way; catalogs changed by every operation"),
 "C17": (SEQ, "model_checking", "all bounded Locale histories; every lookup in every domain compared with the model"),
 "C18": (SEQ, "model_checking", "all bounded package-level call histories, unconfigured ones in fresh processes; getters and every lookup compared with the model"),
 "C16": (SEQ, "model_checking", "every combination of candidate files x file systems x spellings; the loaded file, the reported language and lookups compared with the documented order"),
 "C23": (SEQ, "model_checking", "all formats of a bounded number of pieces and all verb x modifier x value combinations; concatenation of fmt.Sprintf as the oracle"),
 "C24": (SEQ, "model_checking", "all small header entries and load sequences through every way of loading; headers, fields and rule compared with the model"),
 "C28": (SEQ, "model_checking", "all sequences of texts x layouts, every cut and byte damage of a first text; compared with the overlay"),
 "C29": (SEQ, "model_checking", "all interleaved histories on two objects with shared, overwritten buffers; each compared with its own model"),
 "C19": (CONC, "model_checking", "every schedule of all pairs of operations on one and on two objects and of triples; race detector, panic and deadlock monitors"),
 "C20": (CONC, "model_checking", "every schedule of pairs, two against one, and triples; results and final state compared with all sequential orders of the real code"),
 "C21": (CONC, "model_checking", "every schedule of pairs, two against one, and triples of Locale operations; races, deadlocks, and results and final state compared with all sequential orders"),
 "C22": (CONC, "model_checking", "every schedule of package-level programs, each from a fresh package state; races, deadlocks, results and final configuration compared with all sequential orders"),
 "C25": (SEQ, "model_checking", "all receivers x functions x argument kinds x places as call sites of generated programs, in memory; generated modules through both modes of extraction and the command; output compared with the calls written"),
 "C26": (SEQ, "model_checking", "all bounded sequences of messages and of saves, all orders of map iteration; output read by a strict reader and the library"),
 "C27": (SEQ, "model_checking", "all directory trees over similar names x exclude lists; all small import graphs under every order of imports; sequences of runs"),
})
