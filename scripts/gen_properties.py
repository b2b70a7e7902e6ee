#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the lines stay well formed)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})

CT, TK, NG = "src/ngrams/counter.rs", "src/ngrams/topk.rs", "src/ngrams/mod.rs"
CU = "src/cmd/util.rs"

p("C01", "Ngram counter: increments never undercount and saturate",
  "After any sequence of increments of a fresh ngram counter, the value returned for an ngram is at least the smaller of the total amount added for that ngram so far and the largest value of the count type, and equals it when one of its table cells is hit by exactly one of its hash functions and by no other ngram. A cell that would exceed the largest value stays at the largest value and never wraps around. Every increment touches exactly the cells its ngram hashes to and no other.",
  ["inputs", "histories"], "every counter width (8, 32 and 64 bit), table size, number of hash functions, sequence of ngrams and amounts",
  "The one counter test only calls increment on two ngrams and looks at no value; the guarantee is about every history, including collisions and saturation.",
  [CT], [("increment: fetch_add, overflow clamp, running minimum", CT + ":increment"), ("cell index = hash modulo table size", CT + ":index_for_hash")],
  ["value returned by increment / max_count", "rows of `wimbd topk`"],
  [("count_array", "one saturating cell per index", CT)])
p("C02", "Ngram counter: decrements mirror increments and stop at zero",
  "In a counter that starts at the largest value and is only decremented, the value a decrement returns for an ngram and the maximum over its cells read at any later time are at most the largest value minus everything subtracted for that ngram so far, and never below zero: a cell stops at zero and never wraps around. Both are exact when one of its table cells is hit by exactly one of its hash functions and by no other ngram. Every decrement touches exactly the cells its ngram hashes to and no other.",
  ["inputs", "histories"], "every counter width, table size, number of hash functions, sequence of ngrams and amounts",
  "No test decrements a counter; underflow and collision behaviour depend on the whole history.",
  [CT], [("decrement: fetch_sub, underflow clamp, running maximum", CT + ":decrement"), ("max_count", CT + ":max_count")],
  ["value returned by decrement and max_count", "rows of `wimbd botk`"])
p("C03", "Ngram counter: no concurrent update is lost",
  "When several threads update one ngram counter at the same time and no cell reaches the largest (or, for decrements, smallest) value, every cell ends up exactly as if the updates had run one after another. No interleaving of the threads loses or duplicates an update.",
  ["schedules"], "every interleaving of the table accesses of any number of threads",
  "No test updates a counter from two threads, and a test run samples a handful of schedules.",
  [CT], [("each cell is changed by one atomic read-modify-write", CT + ":increment"), ("same for decrement", CT + ":decrement")],
  ["counts after concurrent increments", "`wimbd topk` with several workers"])
p("C04", "Seeded runs are reproducible",
  "Two counters created with the same seed, table size and number of hash functions map every ngram to the same cells, in the same process, in different processes and for every seed value. The hash functions of one counter use pairwise different keys. So the estimating commands give the same counts for the same seed, size and data.",
  ["inputs", "configurations"], "every seed (including the largest), number of hash functions and process",
  "The hash keys were partly random per process, which no single-process test can see.",
  [CT], [("hash builders derived from the seed alone", CT + ":new")],
  ["counts after increments with colliding cells in different processes", "`wimbd topk/unique --seed`"])
p("C05", "Top-k structure keeps exactly the k best ngrams",
  "After any sequence of insertions of (ngram, positive count) pairs, draining the structure yields the k ngrams with the largest (maximum inserted count, ngram) pairs (all of them when fewer), each once and with its maximum inserted count. They come out in strictly descending order of (count, ngram), independently of insertion order. After draining, the structure behaves like a new one.",
  ["inputs", "histories"], "every k, every sequence of insertions incl. repeats, ties and lower counts",
  "The single test uses three ngrams, k=3 and never drains or evicts.",
  [TK], [("insert/evict", TK + ":insert"), ("drain", TK + ":drain")], ["drain()"],
  [("topk", "ordered set of kept pairs", TK), ("ngrams", "count of each kept ngram", TK)])
p("C06", "The published minimum count never filters out a top-k ngram",
  "The minimum count a top-k structure publishes to other threads is 1 until k distinct ngrams are held, and otherwise at most the smallest count held. It equals the minimum the structure itself uses, it never decreases while inserting, and ignoring insertions below it never changes what the structure finally yields. Draining resets it to 1.",
  ["histories"], "every sequence of insertions and drains",
  "No test reads the published minimum; filtering on it is only sound if it holds for every history.",
  [TK], [("min_count and its atomic mirror", TK + ":insert"), ("reset", TK + ":drain")], ["min_count()", "drain() with and without pre-filtering"],
  [("min_count", "smallest count that can still enter", TK), ("min_count_atomic", "copy read by workers", TK)])
p("C07", "Ngram iteration yields exactly the contiguous windows",
  "Iterating the n-grams of a token sequence yields every contiguous window of n tokens exactly once, in order, with the tokens unchanged and in order. A sequence shorter than n yields nothing, and iteration after the end keeps yielding nothing when the source does.",
  ["inputs"], "every token sequence and n >= 1",
  "Tests cover four fixed sentences.",
  [NG], [("sliding memory", NG + ":next"), ("fill_memory", NG + ":fill_memory")], ["Ngrams iterator", "ngrams()"])
p("C08", "The basic tokenizer keeps every non-blank word segment in order",
  "Tokenizing a text yields exactly the Unicode word-boundary segments of the text that contain at least one non-whitespace character. They come in text order and unchanged, so that only whitespace characters of the text are dropped.",
  ["inputs"], "every UTF-8 string",
  "Tests tokenize one ASCII sentence; mixed whitespace, punctuation and non-ASCII segments are not reached.",
  ["src/tokens.rs"], [("whitespace-segment filter", "src/tokens.rs:tokenize")], ["tokenize()", "token counts of `wimbd stats`"])
p("C09", "The gzip line reader yields the decompressed lines exactly",
  "Reading a gzip file (of one or many members) line by line yields exactly its lines in order, each with its line terminator, and the last one without when the file does not end in one. A line already handed out is never changed by further reading, whether or not the caller still holds it. After an error or at the end nothing is invented.",
  ["inputs", "histories"], "every file content and every pattern of holding or dropping lines",
  "No test reads through the reader at all.",
  ["src/io.rs"], [("buffer reuse only when unshared", "src/io.rs:next")], ["GzBufReader iterator"])
p("C10", "topk reports the k most frequent ngrams, ranked, never undercounted",
  "For any input files, worker count and options within the count type's range, the topk command reports distinct ngrams in descending order of count with ranks 1, 2, 3 and so on, at most k of them, and every reported count is above the threshold and at least the number of times the ngram occurs. When no hash collisions occur, the reported counts are the exact occurrence counts over all processed lines, and they are the k largest among ngrams occurring more often than the threshold (ties may go either way with several workers).",
  ["inputs", "configurations", "schedules"], "every corpus, ngram size, k, threshold, limit, worker count and schedule",
  "There is no test of any command.",
  ["src/cmd/topk.rs", CT, TK], [("collect_ngrams closure", "src/cmd/topk.rs"), ("merge of the local top-k", "src/cmd/topk.rs"), ("ranked output", "src/cmd/topk.rs")],
  ["stdout --json and the --out file"])
p("C11", "botk reports the k least frequent ngrams, ranked",
  "For any input files, worker count and options, the botk command without random dropping reports distinct ngrams in ascending order of count with ranks 1, 2, 3 and so on, at most k of them. When no hash collisions occur, the counts are the exact occurrence counts over all processed lines and they are the k smallest among the ngrams occurring fewer times than the threshold allows. A reported count is never below the true one, and with random dropping only ngrams of the data are reported, still with their exact counts.",
  ["inputs", "configurations", "schedules"], "every corpus, ngram size, k, threshold, limit, worker count and schedule",
  "There is no test of any command.",
  ["src/cmd/botk.rs", CT, TK], [("two passes: decrement, then collect", "src/cmd/botk.rs"), ("inverse threshold", "src/cmd/botk.rs")],
  ["stdout --json and the --out file"])
p("C12", "unique counts non-zero cells of the ngram table",
  "The number reported by the unique command is the number of table cells touched by the ngrams of the processed lines: zero exactly when there is no ngram, at least one otherwise, at most the table size and at most the number of hash functions times the number of distinct ngrams. With one hash function and no collisions it is exactly the number of distinct ngrams. It does not depend on how often, in which order or by which worker ngrams are seen, not even when a count saturates.",
  ["inputs", "configurations", "histories"], "every corpus, table size, hash count, worker count and order",
  "There is no test of any command; more than 255 occurrences of one ngram are needed to saturate.",
  ["src/cmd/unique.rs", CT], [("nonzero", CT + ":nonzero"), ("collect closure", "src/cmd/unique.rs")], ["stdout"])
p("C13", "count reports exact token-sequence occurrence counts",
  "For every search string, the count command reports exactly how many positions of the processed documents start an occurrence of its token sequence, counting overlapping occurrences, never across documents. Every distinct token sequence asked for is reported once, whatever other strings are searched for at the same time and however many workers run.",
  ["inputs", "configurations", "schedules"], "every set of search strings, corpus, limit and worker count",
  "There is no test of any command.",
  ["src/cmd/count.rs"], [("window comparison", "src/cmd/count.rs:count_occurences")], ["stdout --json and the --out file"])
p("C14", "search reports exact regex match counts",
  "For every pattern, the search command reports exactly the number of non-overlapping leftmost matches over the text of all processed documents. The count does not depend on other patterns, on whether or how many locations are collected, or on the number of workers.",
  ["inputs", "configurations", "schedules"], "every set of patterns, corpus, limit, locations limit and worker count",
  "There is no test of any command.",
  ["src/cmd/search.rs"], [("find_iter loop", "src/cmd/search.rs")], ["stdout --json and the --out file"])
p("C15", "search locations are complete, correct and within the limit",
  "With locations and no limit, every match is listed exactly once: under its pattern and file, with the 1-based line number, the document text and the byte columns of the match, in order. With a locations limit L, exactly min(L, number of matches) matches are listed per pattern, all of them real; files and lines without matches are not listed, and a file given more than once is listed with the matches of every time.",
  ["inputs", "configurations", "schedules"], "every set of patterns, corpus, locations limit and worker count",
  "There is no test of any command.",
  ["src/cmd/search.rs"], [("locations limit", "src/cmd/search.rs"), ("per-file merge", "src/cmd/search.rs")], ["`matches` of the JSON output"])
p("C16", "stats totals are exact",
  "The stats command reports exactly the number of processed JSON lines as documents, the sum of their token counts as tokens, and the sum of the byte lengths of the processed lines, line terminators included, as bytes. A document without text counts as a document with no tokens. The totals do not depend on the worker count or schedule.",
  ["inputs", "configurations", "schedules"], "every corpus, limit, file limit, worker count and schedule",
  "There is no test of any command.",
  ["src/cmd/stats.rs", CU], [("per-line closure", "src/cmd/stats.rs"), ("merge callback", "src/cmd/stats.rs")], ["JSON output of `wimbd stats`"])
p("C17", "stats extremes point at exactly the longest and shortest documents",
  "The reported maximum and minimum token counts are the largest and smallest token counts among processed documents that have a text, and the listed maximum (minimum) documents are exactly the documents whose token count equals it. Each is listed once, with its file, 1-based line and token count. This holds for any number of files, workers and schedule.",
  ["inputs", "configurations", "schedules"], "every corpus, limit, worker count and schedule",
  "There is no test of any command; stale entries need several files in a particular order.",
  ["src/cmd/stats.rs"], [("prune", "src/cmd/stats.rs:prune_documents"), ("merge callback", "src/cmd/stats.rs"), ("per-line closure", "src/cmd/stats.rs")], ["JSON output of `wimbd stats`"])
p("C18", "Every line up to the limit is processed once, in order, or the run fails",
  "Processing a file hands each of its JSON lines to the command exactly once, in file order and with its 1-based line number, stopping after exactly the per-file line limit when one is given. The reported line and byte totals count exactly the lines handed over. A malformed line, a line that is not valid UTF-8 or a truncated archive within the limit makes the run fail and is never skipped silently.",
  ["inputs", "configurations"], "every file content, limit and command",
  "There is no test of file processing.",
  [CU, "src/io.rs"], [("process_file", CU + ":process_file")], ["results with --limit", "exit status on malformed data"])
p("C19", "A failed file fails the command: no silent partial result",
  "If any input file is missing or cannot be processed to the end (after its retries), or a worker panics, the command exits with a non-zero status and an error, and prints and writes no result rows. If the command exits with status zero, the results cover every input file completely. It terminates in both cases, with any number of workers.",
  ["fault_sequences", "schedules", "configurations"], "every subset of failing files, failure position, worker count and schedule",
  "There is no test of any command, and none injects a fault.",
  [CU, "src/main.rs"], [("early exit and error slot", CU + ":execute_with_callback"), ("join", CU + ":join"), ("exit status", "src/main.rs:main")], ["exit status, stdout and --out file"])
p("C20", "A file that is retried contributes exactly once",
  "When processing of a file fails and is retried, and a retry succeeds, the results are the same as if it had succeeded at once: nothing of the failed attempt is counted and nothing is counted twice. A file is attempted at most one more time than the number of retries allowed, and no attempt follows a success.",
  ["fault_sequences", "schedules"], "every failure position and number of transient failures up to and beyond the retry limit",
  "There is no test of retries, and none injects a fault.",
  [CU, "src/cmd/stats.rs"], [("retry loop", CU + ":execute_with_callback"), ("local accumulator handed over only at the end", CU + ":process_file")], ["`wimbd stats` with transient read errors"])
p("C21", "Results sent by workers are never lost or duplicated on the way",
  "Every result a worker hands to the collecting thread reaches the final output processing exactly once, under every schedule: collection ends only after every worker is done and everything sent was received. A command never waits forever for results that cannot come.",
  ["schedules"], "every interleaving of workers and the collecting thread",
  "Tests run no command; the loss needs a particular interleaving at the end of a run.",
  ["src/cmd/topk.rs", "src/cmd/botk.rs", "src/cmd/search.rs"], [("receive loop", "src/cmd/topk.rs"), ("receive loop", "src/cmd/botk.rs"), ("receive loop", "src/cmd/search.rs")], ["results of `search --with-locations`, `topk`, `botk` repeated under scheduling pressure"])
p("C22", "Output files are never clobbered or mixed with old content",
  "An existing output file is never modified unless overwriting was requested; without it the command fails before processing. With overwriting, the file afterwards contains exactly the new results and nothing of the old content. Missing parent directories are created, and where a directory may be given, the generated file is created inside it.",
  ["inputs", "configurations"], "every output path, existing content, option and command",
  "There is no test of output handling.",
  ["src/util.rs", "src/cmd/topk.rs", "src/cmd/botk.rs", "src/cmd/count.rs", "src/cmd/search.rs", "src/cmd/stats.rs"],
  [("get_output_file", "src/util.rs:get_output_file"), ("per-command variants", "src/cmd/*.rs:get_output_file")], ["file system after a run"])
p("C23", "Every result row is written once, and the file equals the JSON output",
  "Every result is reported exactly once and completely: the output file holds one JSON object per result, each on its own line, in the order reported on standard output with JSON formatting. Quiet and progress options change neither the results nor the file.",
  ["inputs", "configurations"], "every command, option combination and result set",
  "There is no test of any command.",
  ["src/cmd/topk.rs", "src/cmd/botk.rs", "src/cmd/count.rs", "src/cmd/search.rs", "src/cmd/stats.rs"],
  [("result loop", "src/cmd/*.rs")], ["stdout vs --out file"])
p("C24", "Paths are expanded to exactly the data files",
  "A directory argument stands for exactly the entries below it, at any depth, whose names match '*.json*.gz', each once; a path that is not a directory is kept as given, and arguments keep their order. A directory without any such file is an error. Directory names are taken literally, whatever characters they contain.",
  ["inputs"], "every directory tree, directory name and list of arguments",
  "There is no test of path expansion.",
  [CU], [("expand_dirs", CU + ":expand_dirs")], ["files processed by any command"])
p("C25", "Size arguments: plain numbers are gibibytes, units are honoured",
  "A size argument without any letter is that number of GiB; one with a unit is what the unit says (KiB, MB, GiB, plain B and so on). A malformed, negative or unrepresentable size is rejected and never silently misread.",
  ["inputs"], "every string",
  "There is no test of size parsing.",
  [CU], [("parse_size_default_to_gb", CU + ":parse_size_default_to_gb")], ["table size used by topk/botk/unique"])
p("C26", "Bad arguments are rejected with an error, never a panic or a wrong result",
  "A zero k, zero ngram size, zero hash count, table size too small for one cell, empty path, pattern or search list, out-of-range keep probability, or a locations limit without locations makes the command fail with an error and non-zero status before processing data. No combination of accepted arguments makes a command or the library panic, and zero or more workers than files still process everything.",
  ["inputs", "configurations"], "every combination of arguments",
  "There is no test of argument handling.",
  ["src/cmd/topk.rs", "src/cmd/botk.rs", "src/cmd/unique.rs", "src/cmd/count.rs", "src/cmd/search.rs", "src/cmd/stats.rs", CU, CT],
  [("validation at the start of each command", "src/cmd/*.rs:main"), ("empty table rejected", CT + ":new"), ("worker count", CU + ":new")], ["exit status and stderr"])

# ---------------------------------------------------------------------------------- Python part
p("C31", "Map/reduce counts are the sums of the map outputs per key",
  "For every stream of map output lines, each reduce step prints every key exactly once with the sum of its counts (or the number of lines carrying it), losing no line and mixing no keys, independently of line order.",
  ["inputs", "histories"], "every multiset and order of map output lines",
  "The Python part has no tests.",
  ["wimbd/extension_counts/reduce_count.py", "wimbd/language/reduce_count.py", "wimbd/profanity/reduce_count.py", "wimbd/high_level_domain_counts/reduce_count.py", "wimbd/url_counts/reduce_count.py", "wimbd/scheme_counts/reduce_count.py", "wimbd/url_per_tok_counts/reduce_count.py", "wimbd/sentence_lengths/reduce_count.py", "wimbd/utterance_dates/reduce_count.py", "wimbd/link_exists/reduce_count.py", "wimbd/pii/reduce_count.py"],
  [("accumulation loop", "wimbd/*/reduce_count.py:main")], ["stdout of the reduce scripts"])
p("C32", "Blocklist filtering drops exactly the listed documents",
  "A document is reported or dropped as matching if and only if its text is on the blocklist; when the first occurrence is kept, exactly one document per blocklisted text that occurs is kept and all others are dropped. Removed counts equal the number of documents dropped, in total and per source.",
  ["inputs", "schedules"], "every set of documents, blocklist and shard order",
  "The Python part has no tests.",
  ["wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py"], [("process_shard", "wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py:process_shard")], ["output shards"])
p("C33", "Batched classification sees every eligible document exactly once",
  "The batched map steps pass every non-blank document that is not too long to the classifier exactly once, in batches no larger than the batch size, and add up every prediction. Documents over the length limit are counted as long where that is reported, and the totals do not depend on the batch size.",
  ["inputs", "configurations"], "every document sequence and batch size >= 1",
  "The Python part has no tests.",
  ["wimbd/language/map_count.py", "wimbd/profanity/map_count.py", "wimbd/sentiment_coocurrence/map_count.py"], [("batch loop", "wimbd/*/map_count.py:main")], ["stdout of the map scripts"])
p("C34", "Per-phrase document counts come back complete and in order",
  "Counting documents for each phrase returns exactly one count per phrase, in phrase order, and sends every phrase in exactly one query. No request carries more than the batch size of queries, and every query carries every subset filter.",
  ["inputs", "configurations"], "every phrase list, batch size and subset filter",
  "The Python part has no tests.",
  ["wimbd/es/__init__.py"], [("batch loop", "wimbd/es/__init__.py:count_documents_for_each_phrase")], ["requests sent and list returned"])
p("C35", "Queries ask for exactly the phrases and filters given",
  "A document query requires all phrases, or at least one phrase, as asked, each phrase as given, and every subset filter, plus the English subset for the c4 index. Building or sending queries never changes the caller's arguments, so repeated calls give the same query.",
  ["inputs", "histories"], "every phrase list, filter list, index and sequence of calls",
  "The Python part has no tests.",
  ["wimbd/es/__init__.py"], [("query construction", "wimbd/es/__init__.py:_query_documents_contain_phrases"), ("filters", "wimbd/es/__init__.py")], ["requests sent to the client"])
p("C36", "Paged retrieval yields every hit once, in order, and stops",
  "Retrieving all hits yields the hits of every page in order, each page starting after the last hit of the previous one, and stops after the first empty page. Without it exactly the hits of one request of the requested size are yielded.",
  ["inputs", "histories"], "every number of pages and hits per page",
  "The Python part has no tests.",
  ["wimbd/es/__init__.py"], [("search_after loop", "wimbd/es/__init__.py:get_documents_containing_phrases")], ["generator output and requests"])
p("C37", "Splitting a data file partitions its rows",
  "Splitting a file puts every row into exactly one part, unchanged apart from the added id, and in order; the parts are disjoint and complete. The train/valid/test part of a row depends on its text only, and an already present id is refused.",
  ["inputs", "configurations"], "every file content and number of parts >= 1",
  "The Python part has no tests.",
  ["wimbd/utils/file_split.py", "wimbd/utils/split_files.py"], [("chunking", "wimbd/utils/file_split.py:main"), ("hash split", "wimbd/utils/split_files.py:main")], ["part files"])
for q in P:
    assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
    n = q["statement"].count(". ") + 1
    assert n <= 3, (q["id"], n)
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P))
