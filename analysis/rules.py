import rules_output, rules_args, rules_lines, rules_fail, rules_file, rules_threads, rules_counter, rules_topk, rules_ngrams
import rules_rank, rules_prog, rules_seed, rules_tokens, rules_pynames, rules_es, rules_index, rules_pii, rules_dedup, rules_mapreduce, rules_split
