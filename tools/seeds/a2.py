SEEDS = [
dict(id='flush-lost', property='C01', file='src/cmd/count.rs',
 edits=[('    let executor = DataExecutor::new(&opt.path, opt.workers, opt.limit, "Searching", opt.quiet)?;\n', '    let mut out_file = out_file.take().map(std::io::BufWriter::new);\n    let executor = DataExecutor::new(&opt.path, opt.workers, opt.limit, "Searching", opt.quiet)?;\n')],
 needs='an output file whose device is full when the report is written',
 breaks='the report is written through a buffer that is only flushed when dropped, where a failing write is ignored: nothing is written and the run succeeds',
 demo='''
doc 'a b' | gz x
if $BIN count "$d/x.json.gz" -s a -o /dev/full > "$d/out" 2>/dev/null; then fail "a run whose report could not be written succeeded"; fi
exit 0
'''),
dict(id='empty-dir', property='C15', file='src/cmd/util.rs',
 edits=[('            if num_hits == 0 {', '            if num_hits == 0 && files.is_empty() {')],
 needs='several directories of which a later one holds no compressed JSON file',
 breaks='the directory without data is dropped silently when an earlier argument had files',
 demo='''
mkdir "$d/full" "$d/empty"
doc 'a b' | gzip -nc > "$d/full/x.json.gz"
if $BIN stats "$d/full" "$d/empty" --json > "$d/out" 2>/dev/null; then fail "a directory without data was accepted"; fi
$BIN stats "$d/full" --json > "$d/out" 2>/dev/null || fail run
exit 0
'''),
dict(id='join-first', property='C03', file='src/cmd/topk.rs',
 edits=[('''    for (ngram, count) in rx {
        topk.insert(ngram, count);
    }

    executor.join()?;
''', '''    executor.join()?;
    for (ngram, count) in rx {
        topk.insert(ngram, count);
    }
''')],
 needs='more results from the workers than the channel holds (512000)',
 breaks='nobody receives until all workers are done, so a worker that finds the channel full blocks forever',
 demo='''
python3 - "$d" <<'P'
import gzip, json, sys
with gzip.open(sys.argv[1] + '/x.json.gz', 'wt', compresslevel=1) as f:
    for i in range(0, 530000, 1000):
        t = ' '.join('a%d' % j for j in range(i, i + 1000))
        f.write(json.dumps({'text': t + ' ' + t}) + '\\n')
P
timeout 120 $BIN topk "$d/x.json.gz" -n 1 -k 600000 -h 1 --size 64MiB --seed 1 -q -o "$d/o.jsonl" > "$d/out" 2>&1 || fail "no result: $(tail -c 300 "$d/out")"
'''),
dict(id='retried-error-lost', property='C01', file='src/cmd/util.rs',
 edits=[('''                            early_exit.store(true, Ordering::Relaxed);
                            if let Ok(ref mut error) = error.try_lock() {
                                **error =''', '''                            if error.try_lock().map_or(true, |e| e.is_none()) {
                                early_exit.store(true, Ordering::Relaxed);
                            }
                            if let Ok(ref mut error) = error.try_lock() {
                                **error =''')],
 needs='a file that fails in every attempt in a command that retries (the first attempts have recorded an error already)',
 breaks='the last failure does not mark the run as failed when an error was recorded before: the run succeeds without the file',
 demo='''
doc 'a b' | gz x
echo 'no json' | gz y
if $BIN stats "$d/x.json.gz" "$d/y.json.gz" --json > "$d/out" 2>/dev/null; then fail "a failed run succeeded: $(cat "$d/out")"; fi
if $BIN count -s a "$d/x.json.gz" "$d/y.json.gz" --json > "$d/out" 2>/dev/null; then fail "a failed run succeeded: $(cat "$d/out")"; fi
exit 0
'''),
dict(id='force-empty', property='C04', file='src/util.rs',
 edits=[('    if path.is_file() {', '    if path.is_file() && path.metadata().map_or(true, |m| m.len() > 1) {')],
 needs='an existing output file of at most one byte',
 breaks='a short existing file is overwritten without --force',
 demo='''
doc 'a b' | gz x
printf x > "$d/o.json"
if $BIN stats "$d/x.json.gz" -o "$d/o.json" > "$d/out" 2>/dev/null; then fail "overwritten"; fi
[ "$(cat "$d/o.json")" = x ] || fail "overwritten"
exit 0
'''),
dict(id='no-hashes', property='C14', file='src/cmd/botk.rs',
 edits=[('    if opt.hashes == 0 {', '    if opt.hashes == 0 && opt.seed.is_none() {')],
 needs='--hashes 0 together with --seed',
 breaks='zero hash functions are accepted: nothing is counted and the report is empty',
 demo='''
doc 'a b' | gz x
if $BIN botk "$d/x.json.gz" -n 1 -h 0 --seed 1 --size 1KiB > "$d/out" 2>/dev/null; then fail "-h 0 accepted"; fi
$BIN botk "$d/x.json.gz" -n 1 -h 1 --seed 1 --size 1KiB > "$d/out" 2>/dev/null || fail run
exit 0
'''),
]
