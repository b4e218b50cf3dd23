AI = 'abstract interpretation of the resolved MIR (value provenance, call-string contexts)'
TRUST = ' Trusts rustc\'s MIR, the summaries of library functions and the soundness of the engine\'s joins.'
TECH['C16'] = (AI + '; counting automaton over all paths of each result loop, per option assignment',
  'Covers every path of the six commands from argument parsing to exit for all assignments of --json, --quiet and --out: per result exactly one record per channel, the same value on both, nothing else on standard output.' + TRUST)
TECH['C01'] = (AI + '; typestate automata: every failing call to a recorded or propagated failure, every recorded failure to a failing exit',
  'Covers every path of the six commands: each Result of an input/output, parsing or channel call, and each caught panic, either reaches a failing exit or a flag the main thread examines after every join.' + TRUST)
TECH['C02'] = (AI + '; phase automaton over the per-file line loop with concrete line counters for no limit and limits 0, 1, 2',
  'Covers every path of the workers and of the scheduling loops: one job per file, the complete file decoded, each line parsed once and reaching the processing, limits and line numbers exact for small limits (the counters are affine, larger limits run the same paths).' + TRUST)
TECH['C04'] = (AI + '; open-options evaluation per --force, effect order automaton',
  'Covers every opening of the output file on every path: create-only without --force, truncating with it, and nothing else writes to it.' + TRUST)
TECH['C14'] = (AI + '; partial evaluation of the guards over boundary values of every numeric option',
  'Covers the paths from argument parsing to the first work (reading, allocating, scheduling) for every boundary value and pair of values.' + TRUST)
TECH['C15'] = (AI + '; provenance of the file list from the arguments to the scheduling loop',
  'Covers the expansion of every path argument: directories by an escaped pattern, errors of the pattern kept, order and duplicates as documented.' + TRUST)
TECH['C03'] = (AI + '; ownership and phase automaton of each channel over the main thread',
  'Covers every path of topk, botk and search: senders held by the main thread while it receives, receiving to the disconnection, no pool join before that, every received item used.' + TRUST)
TECH['C17'] = (AI + '; held-lock sets along all paths, lock-order graph, blocking calls under locks',
  'Covers every lock acquisition and guard drop of the six commands in workers and in the main thread while workers may run.' + TRUST)
FI = 'path-sensitive abstract interpretation of the MIR of each function over representative value partitions'
TECH['C05'] = (FI + ', interleaving points at every atomic access',
  'Covers every path of add, remove, look-up and size functions of the counting table for each cell type, 1 to 3 hash functions and representative cell values (0, 1, middle, maximum), with another thread changing the cell between any two accesses. Larger numbers of hash functions run the same loop.' + TRUST)
TECH['C07'] = (FI + ', exhaustive over abstract states of the collection',
  'Covers every path of insert, drain and the constructor from every abstract state reachable with k up to 2, three n-grams and counts 1 to 3; the code compares counts and sizes only, so larger instances run the same paths.' + TRUST)
TECH['C13'] = ('path-sensitive abstract interpretation of the workers and of the library iterator over documents of uninterpreted tokens',
  'Covers every path of the workers of topk, botk (both passes) and unique, for both tokenizers, from reading lines to the operations on the counting table, for n 1, 2, 3 and 5 and seven documents of 0 to 7 tokens (repeated tokens, no text, white space only), and of the library iterator for n 1 to 5. Token contents and lengths are uninterpreted; larger documents run the same loop.' + TRUST)
TECH['C08'] = ('path-sensitive abstract interpretation of the workers and of the main thread over representative counts, thresholds and minima, with nondeterministic counts',
  'Covers every path of the workers of topk (admission of a counted n-gram, hand-over of the candidates of a file) for representative orderings of count, threshold, own and shared minimum, and every path of the main thread (merging, draining, rank, text, count, readable and JSON output).' + TRUST)
TECH['C09'] = ('path-sensitive abstract interpretation of both passes and of the main thread over representative counts, thresholds and minima; phase automaton between the passes',
  'Covers every path of the workers of botk (counting down, admission in the second pass incl. --p-keep, hand-over), the order of the two passes (joined and checked for failures in between) and the report with counts turned back, for representative orderings of count, threshold and minima.' + TRUST)
PG = 'path-sensitive abstract interpretation of the whole command, main thread and jobs interleaved at every shared access that does not commute'
TECH['C11'] = (PG,
  'Covers every path and every interleaving at conflicting atomic accesses of count, for both tokenizers, four sets of sequences (overlapping, repeated, absent, longer than the text) and two files of seven documents of uninterpreted tokens: every requested sequence reported once with its exact number of overlapping occurrences and its text, on every channel. Arrival orders and documents are representative; larger ones run the same loops.' + TRUST)
TECH['C12'] = (PG,
  'Covers every path and every interleaving at conflicting atomic accesses of search, with a matcher that returns fixed non-overlapping spans for each pattern and line: counts exact, every location real (file, line number, text, span), none twice, as many as the limit allows, for limits none, 0, 1, 2 and above the number of matches, on every channel. Workers\' results arrive in job order or reversed.' + TRUST)
TECH['C10'] = (PG,
  'Covers every path and every interleaving at conflicting atomic accesses and locks of stats, for both tokenizers, five small corpora (ties, several files, documents without text) and failed and repeated attempts at a file: every total exact, the extremes and the documents that reach them complete and real, on every channel. Workers\' results arrive in job order or reversed.' + TRUST)
TECH['C06'] = (FI + '; provenance of the seed from the option to the table and to the shuffle',
  'Covers every path of the constructor of the counting table for no seed, 0, a middle and the largest seed, and every path of topk, botk and unique from the options to the table and to the shuffled file list. Whether a library function is a function of its arguments only is taken from its documentation (ahash, rand).' + TRUST)
TECH['C18'] = (FI + '; the tokenizer option followed from the command line into every job',
  'Covers every path of the five commands that tokenize, for --tokenizer unicode, names that only resemble it and others: what is loaded, which jobs and search strings use it, on whole texts, and that tokens reach the table unchanged and in order (seven documents of uninterpreted tokens). That reports are decoded by the same tokenizer is decided with C08, C09 and C11.' + TRUST)
TECH['C19'] = (FI + '; partial evaluation of the size of the table over representative --size and --hashes',
  'Covers every path of the constructor (sizes 1, 2, 3, 6, hash functions 1, 2, 4, allocation failing or not), of topk, botk and unique from the options to the table (eight sizes, --u64, hashes 1 to 255), and of the parsing of --size for nine texts with and without unit.' + TRUST)
PY = 'path-sensitive abstract interpretation of the Python syntax trees over uninterpreted terms, with a world (client, files, command line) whose answers are chosen in every way'
PYT = ' Texts, numbers and documents are terms of which nothing but the type is known; a branch on a term is taken both ways. What the outside world does (Elasticsearch, gzip, processes) is taken from its documentation.'
TECH['C20'] = (PY + '; queries compared by meaning (required and optional clauses)',
  'Covers every path of the four searching functions for 1 to 3 phrases, all four forms of query, five lists of filters, four indices and both kinds of fetching. Lengths of lists are representative.' + PYT)
TECH['C21'] = (PY + '; deep comparison of arguments and defaults before and after every path',
  'Covers every path of the searching functions and of get_indices (argument shapes as in C20), and of es_init for 22 combinations of configuration file, arguments and environment.' + PYT)
TECH['C22'] = (PY + '; protocol rules over the requests of each path',
  'Covers every path of the batched counts (1 to 5 phrases, batch sizes 1 to 5 and the default) and of the paged search (up to three pages of unknown length, any request failing, the caller stopping after 0 to 3 hits).' + PYT)
TECH['C27'] = ('definite-assignment and name-resolution analysis of the Python syntax trees, with tables of imports, module attributes and command-line options',
  'Covers every name read, attribute of an imported module and option read in every Python file of wimbd/ and preparation/. Names bound under a condition that is tested again, and names in complete if/else chains, are taken as bound.')
TECH['C23'] = (PY + '; the lines printed by each map script on every path are fed to its reducer, and its totals are compared with those of the records; shell scripts parsed into pipelines',
  'Covers the map and reduce scripts of all thirteen tools: representative hosts, labels (with spaces, empty, with numbers), missing, blank and long texts, up to twelve rows in one or several files, batch sizes 1 to 4, exact and default; and the thirteen run scripts. Keys that begin or end with white space are left out (the reducers strip them).' + PYT)
TECH['C24'] = (PY + '; one machine per worker process over one shared array and lock; shell pipelines interpreted over lists of lines',
  'Covers five sets of shards over six texts (equal, empty, missing, spelled like the mark of a missing one) x seven blocklists x options x two orders of workers; accesses to the shared table must lie in one critical section, which extends the result to every interleaving. Each stage of each command of the drivers may fail.' + PYT)
TECH['C26'] = (PY + '; the actions sent to the bulk helper are compared with the documents of the input',
  'Covers all combinations of the options over seven kinds of documents (ids, missing and nested texts, urls) and all statuses the bulk helper may answer.' + PYT)
TECH['C28'] = (PY + '; the filters are run for every position of a marker around the context window',
  'Covers three kinds of data x positions of the match and of six markers at, before and behind both edges of the window, several equal matches in one text, shapes of addresses, and texts at the limits beyond which they are not examined. Which strings the patterns match is not decided (given by the case).' + PYT)
TECH['C25'] = (PY + '; every run is repeated with a crash at each of its effects and started again, with writes that reach the file at once, in halves or only when it is closed',
  'Covers seven tools (even split, split by hash, conversion of a dataset, of parquet tables and of TFRecords, merging of neighbours, listing of urls) over representative names (dots, folders, suffixes inside), sizes around the number of parts or batches, equal records, two to three orders of the tasks of a pool, an unusable record in each place, a crash at every effect and, for the listing, a key press at every statement. Three files are combined per shape at most; more than nine files of a group are not tried.' + PYT)
