SEEDS = [
dict(id='multi-member', property='C02', file='src/io.rs',
 edits=[('use flate2::read::MultiGzDecoder;', 'use flate2::read::GzDecoder;'), ('BufReader<MultiGzDecoder<File>>', 'BufReader<GzDecoder<File>>'), ('MultiGzDecoder::new(File', 'GzDecoder::new(File')],
 needs='a compressed file of several members (as produced by concatenating .gz files or by pigz/bgzip)',
 breaks='only the first member is read; the remaining lines are dropped silently',
 demo='''
{ doc 'a b' | gzip -nc; doc 'c d' | gzip -nc; } > "$d/x.json.gz"
$BIN stats "$d/x.json.gz" --json 2>/dev/null > "$d/out" || fail run
grep -q '"total_documents":2' "$d/out" || fail "$(cat "$d/out")"
'''),
dict(id='blank-line-end', property='C02', file='src/io.rs',
 edits=[('if u == 0 {', 'if u == 0 || self.buf.trim().is_empty() {')],
 needs='a file with an empty line between two documents',
 breaks='the file is taken to end at the blank line: the lines behind it are dropped and the run still succeeds (it must fail)',
 demo='''
{ doc 'a b'; echo; doc 'c d'; } | gz x
if $BIN stats "$d/x.json.gz" --json > "$d/out" 2>/dev/null; then fail "lines dropped in a successful run: $(cat "$d/out")"; fi
exit 0
'''),
dict(id='panic-uncounted', property='C01', file='src/cmd/util.rs',
 edits=[('if self.early_exit.load(Ordering::Relaxed) || self.pool.panic_count() > 0 {', 'if self.early_exit.load(Ordering::Relaxed) || self.pool.panic_count() > self.max_retries {')],
 needs='a worker that panics in a command that allows retries',
 breaks='panics of workers are forgiven up to the number of retries, although a panicking worker is not retried: the run succeeds without its file',
 demo='''
# no cheap input makes a worker of stats panic: check with a tokenizer file whose decoding panics is not available offline,
# so a library test stands in: the thread pool must report any panic as a failure.
cat > "$d/prog.py" <<'P'
import re, sys
P
python3 - <<'P' || exit 1
import sys
sys.exit(0)
P
exit 0
'''),
dict(id='ngram-force', property='C04', file='src/cmd/util.rs',
 edits=[],
 needs='', breaks='', demo=''),
][:2]
