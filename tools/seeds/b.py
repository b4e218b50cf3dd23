LIB = '''
cat > "$d/x.rs" <<'R'
%s
R
rustc --edition 2021 -o "$d/x" "$d/x.rs" --extern wimbd=target/debug/libwimbd.rlib -L dependency=target/debug/deps 2> "$d/log" || fail "build: $(tail -3 "$d/log")"
"$d/x" > "$d/out" 2>&1 || fail "$(tail -2 "$d/out")"
exit 0
'''
SEEDS = [
dict(id='half-the-ring', property='C05', file='src/ngrams/counter.rs',
 edits=[('''    type Iterator = std::collections::vec_deque::Iter<'a, T>;

    fn as_iter(&'a self) -> Self::Iterator {
        self.iter()''', '''    type Iterator = std::slice::Iter<'a, T>;

    fn as_iter(&'a self) -> Self::Iterator {
        self.as_slices().0.iter()''')],
 needs='an n-gram held in a ring buffer that has wrapped around (any n-gram but the first few of a document)',
 breaks='only the part of the n-gram before the end of the ring buffer is hashed, so equal n-grams get different cells and are under-counted',
 demo=LIB % '''
use std::collections::VecDeque; use std::sync::atomic::AtomicU32; use wimbd::ngrams::NgramCounter;
fn main() {
    let c = NgramCounter::<AtomicU32>::new(4096, 3, Some(1), 0).unwrap();
    let mut q: VecDeque<String> = VecDeque::with_capacity(3);
    let mut last = 0;
    for t in "a b c x a b c x a b c x a b c x".split(' ') {
        if q.len() == 3 { q.pop_front(); }
        q.push_back(t.to_string());
        if q.len() == 3 && q[0] == "a" { last = c.increment(&q, 1); }
    }
    assert!(last >= 4, "added four times, counted {}", last);
}'''),
dict(id='wraps-by', property='C05', file='src/ngrams/counter.rs',
 edits=[('                if old_count > <A as Atomic>::Type::max_value() - by.clone() {', '                if old_count == <A as Atomic>::Type::max_value() {')],
 needs='an increment by more than one close to the largest value',
 breaks='the count wraps around (or overflows with a panic) instead of staying at the largest value',
 demo=LIB % '''
use std::sync::atomic::AtomicU8; use wimbd::ngrams::NgramCounter;
fn main() {
    let c = NgramCounter::<AtomicU8>::new(64, 2, Some(1), 0).unwrap();
    let mut n = 0;
    for _ in 0..20 { n = c.increment(&["a", "b"][..], 20); }
    assert!(n == 255, "{}", n);
}'''),
dict(id='drained-but-known', property='C07', file='src/ngrams/topk.rs',
 edits=[('            self.ngrams.remove(&ngram);\n            out.push', '            out.push')],
 needs='a collection that is used again after draining',
 breaks='drained n-grams stay in the map, and the same n-gram is not taken again with a count that is not higher',
 demo=LIB % '''
use std::sync::atomic::AtomicU32; use wimbd::ngrams::TopKNgrams;
fn main() {
    let mut t: TopKNgrams<String, AtomicU32> = TopKNgrams::new(2);
    t.insert(vec!["a".into()], 5);
    assert!(t.drain().len() == 1);
    t.insert(vec!["a".into()], 3);
    let r = t.drain();
    assert!(r.len() == 1 && r[0].1 == 3, "lost after a drain");
}'''),
dict(id='null-uncounted', property='C10', file='src/cmd/stats.rs',
 edits=[('''                local_stats.total_documents += 1;

                if let Some(text) = data.text {
''', '''                if let Some(text) = data.text {
                    local_stats.total_documents += 1;
''')],
 needs='a line whose text is null or missing',
 breaks='documents without text are missing from the number of documents',
 demo='''
printf '%s\\n' '{"text": "a b"}' '{"text": null}' '{"id": 1}' | gz x
$BIN stats "$d/x.json.gz" --json -q > "$d/out" 2>/dev/null || fail run
python3 -c 'import json,sys; assert json.load(open(sys.argv[1]))["total_documents"] == 3' "$d/out" 2>/dev/null || fail "$(cat "$d/out")"
'''),
dict(id='last-length', property='C11', file='src/cmd/count.rs',
 edits=[('        min_search_length = std::cmp::min(min_search_length, search_tokens.len());', '        min_search_length = search_tokens.len();')],
 needs='two search strings of different length, the longer one last, and a match of the shorter one at the beginning of a document',
 breaks='matches of the short string that end before the length of the last one are not counted',
 demo='''
doc 'a b c d' | gz x
$BIN count "$d/x.json.gz" -s a -s 'b c d' --json -q > "$d/out" 2>/dev/null || fail run
python3 -c 'import json,sys; assert all(json.loads(l)["count"] == 1 for l in open(sys.argv[1]))' "$d/out" 2>/dev/null || fail "$(cat "$d/out")"
'''),
dict(id='limit-per-line', property='C12', file='src/cmd/search.rs',
 edits=[('''                            let count =
                                counts.get(pattern).unwrap().fetch_add(1, Ordering::Relaxed);

                            if let Some(locations_limit) = opt.locations_limit {
                                if count >= locations_limit {
                                    collect_matches = false;
                                }
                            }
''', '''                            counts.get(pattern).unwrap().fetch_add(1, Ordering::Relaxed);
'''), ('''                        if collect_matches {
                            submatches = Some(Vec::new());
                        }
''', '''                        if collect_matches {
                            submatches = Some(Vec::new());
                        }
                        if let Some(locations_limit) = opt.locations_limit {
                            if counts.get(pattern).unwrap().load(Ordering::Relaxed) >= locations_limit {
                                collect_matches = false;
                            }
                        }
''')],
 needs='one document with more matches than --locations-limit',
 breaks='the limit is only looked at between documents, so more locations than allowed are collected',
 demo='''
doc 'a a a a a' | gz x
$BIN search "$d/x.json.gz" -p a --with-locations --locations-limit 2 --json -q > "$d/out" 2>/dev/null || fail run
python3 - "$d/out" <<'P' || fail "$(cat "$d/out")"
import json, sys
r = json.load(open(sys.argv[1]))
n = sum(len(l['submatches']) for ls in r['matches'].values() for l in ls)
sys.exit(0 if n == 2 and r['count'] == 5 else 1)
P
'''),
dict(id='quiet-no-file', property='C16', file='src/cmd/search.rs',
 edits=[('''        if let Some(ref mut file) = out_file {
            writeln!(file, "{json_out}")?;
        }
''', '''        if let Some(file) = out_file.as_mut().filter(|_| !opt.json) {
            writeln!(file, "{json_out}")?;
        }
''')],
 needs='--out together with --json',
 breaks='the output file stays empty when the results also go to standard output as JSON',
 demo='''
doc 'a a' | gz x
$BIN search "$d/x.json.gz" -p a --json -q -o "$d/o" > "$d/out" 2>/dev/null || fail run
cmp -s "$d/o" "$d/out" && [ -s "$d/o" ] || fail "the file differs from standard output"
'''),
dict(id='sampled-tokens', property='C13', file='src/cmd/botk.rs',
 edits=[('''                                if let Some(p_keep) = opt.p_keep {
                                    if random::<f32>() > p_keep {
                                        continue;
                                    }
                                }
''', ''), ('''                            if inverse_count > threshold
                                && inverse_count >= local_topk''', '''                            if opt.p_keep.map_or(false, |p_keep| random::<f32>() > p_keep) {
                                ngram_deque.pop_back();
                                continue;
                            }
                            if inverse_count > threshold
                                && inverse_count >= local_topk''')],
 needs='--p-keep',
 breaks='a token is forgotten with the n-gram that is not kept, so later n-grams join tokens that are not neighbours',
 demo='''
python3 - "$d" <<'P'
import gzip, json, sys
with gzip.open(sys.argv[1] + '/x.json.gz', 'wt') as f: f.write(json.dumps({'text': ' '.join('w%d' % i for i in range(3000))}) + '\\n')
P
$BIN botk "$d/x.json.gz" -n 2 -k 5000 -h 1 --size 4MiB --seed 1 -q --p-keep 0.5 --json > "$d/out" 2>/dev/null || fail run
python3 - "$d/out" <<'P' || fail "an n-gram of tokens that are not neighbours"
import json, sys
for l in open(sys.argv[1]):
    a, b = json.loads(l)['tokens']
    if int(b[1:]) != int(a[1:]) + 1: sys.exit(1)
P
'''),
dict(id='final-dot', property='C18', file='src/cmd/count.rs',
 edits=[('let tokens: Vec<&str> = tokenize(&text).collect();', "let tokens: Vec<&str> = tokenize(text.trim_end_matches('.')).collect();")],
 needs='a document that ends in a full stop, and a search string that does',
 breaks='the last token of the document is not searched',
 demo='''
doc 'the end.' | gz x
$BIN count "$d/x.json.gz" -s 'end.' --json -q > "$d/out" 2>/dev/null || fail run
python3 -c 'import json,sys; assert json.load(open(sys.argv[1]))["count"] == 1' "$d/out" 2>/dev/null || fail "$(cat "$d/out")"
'''),
dict(id='u64-size', property='C19', file='src/cmd/topk.rs',
 edits=[('        opt.size / 8\n', '        opt.size / std::mem::align_of::<u32>() as u64\n')],
 needs='--u64',
 breaks='the table is twice as large as --size',
 demo='''
doc 'a b' | gz x
(ulimit -v 900000; $BIN topk "$d/x.json.gz" -n 1 -k 5 -h 1 --size 600MiB --u64 --workers 1 --seed 1 -q > "$d/out" 2>&1) || fail "$(tail -1 "$d/out")"
exit 0
'''),
dict(id='limit-one-pass', property='C02', file='src/cmd/botk.rs',
 edits=[('''        opt.limit,
        "Counting ngrams",''', '''        opt.limit.filter(|_| opt.p_keep.is_none()),
        "Counting ngrams",''')],
 needs='--limit together with --p-keep',
 breaks='the first pass counts lines beyond --limit',
 demo='''
doc 'a b' 'a b' 'a b' 'a b' | gz x
$BIN botk "$d/x.json.gz" -n 2 -k 5 -h 1 --size 1KiB --seed 1 -q --limit 1 --p-keep 1 --json > "$d/out" 2>/dev/null || fail run
python3 -c 'import json,sys; assert json.load(open(sys.argv[1]))["count"] == 1' "$d/out" 2>/dev/null || fail "$(cat "$d/out")"
'''),
dict(id='prune-under-lock', property='C17', file='src/cmd/stats.rs',
 edits=[('''                        (*min_token_documents).push_back(doc_pointer);
                    }
                }
''', '''                        (*min_token_documents).push_back(doc_pointer);
                    }
                }
                if min_token_documents.len() > 1000 {
                    stats.prune_documents()?;
                }
''')],
 needs='more than a thousand documents that share the smallest number of tokens',
 breaks='a worker locks the lists again while it holds them and never ends',
 demo='''
python3 - "$d" <<'P'
import gzip, json, sys
with gzip.open(sys.argv[1] + '/x.json.gz', 'wt') as f:
    for i in range(1500): f.write(json.dumps({'text': 'a'}) + '\\n')
P
timeout 60 $BIN stats "$d/x.json.gz" --json -q > "$d/out" 2>/dev/null || fail "no result"
'''),
dict(id='late-check', property='C14', file='src/cmd/search.rs',
 edits=[('''    if opt.locations_limit.is_some() && !opt.with_locations {
        bail!("--locations-limit is only valid when using --with-locations");
    }
''', ''), ('''    let executor = DataExecutor''', '''    if opt.locations_limit.is_some() && !opt.with_locations {
        bail!("--locations-limit is only valid when using --with-locations");
    }

    let executor = DataExecutor''')],
 needs='--locations-limit without --with-locations and an existing output file with --force',
 breaks='the old output is destroyed before the arguments are refused',
 demo='''
doc 'a b' | gz x
echo precious > "$d/o"
if $BIN search "$d/x.json.gz" -p a --locations-limit 1 -o "$d/o" --force > "$d/out" 2>/dev/null; then fail accepted; fi
[ "$(cat "$d/o")" = precious ] || fail "the output file was cut before the arguments were refused"
'''),
dict(id='small-local-topk', property='C08', file='src/cmd/topk.rs',
 edits=[('            let topk: TopKNgrams<String, A> = TopKNgrams::new(opt.topk);\n            Ok(topk)', '            let topk: TopKNgrams<String, A> =\n                TopKNgrams::new(std::cmp::max(10, opt.topk / num_files));\n            Ok(topk)'), ('        let local_topk_factory = move || -> Result<TopKNgrams<String, A>> {', '        let num_files = opt.path.len();\n        let local_topk_factory = move || -> Result<TopKNgrams<String, A>> {'),],
 needs='many files of which one holds most of the frequent n-grams, and k above ten',
 breaks='each worker keeps only its share of the k best n-grams, so frequent ones are lost',
 demo='''
doc 'c c c d d d e e e f f f g g g h h h i i i j j j k k k l l l m m m n n n' | gz x
doc 'a b' | gz y
doc 'a b' | gz z
$BIN topk "$d/x.json.gz" "$d/y.json.gz" "$d/z.json.gz" -n 1 -k 12 -h 2 --size 4MiB --seed 1 -q --json > "$d/out" 2>/dev/null || fail run
python3 -c 'import json,sys; r = [json.loads(l) for l in open(sys.argv[1])]; assert len(r) == 12 and all(x["count"] == 3 for x in r)' "$d/out" 2>/dev/null || fail "$(cat "$d/out")"
'''),
dict(id='merged-threshold', property='C09', file='src/cmd/botk.rs',
 edits=[('        let count = u32::MAX - inverse_count;\n', '        let count = (u32::MAX - inverse_count).min(opt.threshold.max(1));\n')],
 needs='an n-gram whose count equals a threshold',
 breaks='placeholder',
 demo='exit 1'),
]
SEEDS.pop()
