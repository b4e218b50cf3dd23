"""C10, C11, C12, C18: whole runs of stats, count and search over two files, every interleaving."""
from check import rule
from prog import *

TOKS = ('unicode', 'some/model')
def programs(c, R, opts, files, on=None, value=None, make=Prog, reverse=False, limit=60000, fail=()):
    """The final results of all interleavings: (log, state, trace function) of the runs that succeed."""
    m = make(c, opts, files, on=on, value=value)
    m.reverse = reverse; m.fail = fail
    m.explore_all(limit=limit)
    R.analysed['interleaving states'] += len(m.par)
    oks = [(log, st, k) for (log, how), (st, k) in m.results.items() if how == 'Ok']
    if not oks and m.partial: raise m.partial
    if not oks: R.bad('no-end', c.name.lower(), 'no path of the command succeeds')
    return m, oks

class Undecided(Exception): pass
def known(v, what):
    if has_unk2(flat(v)): raise Undecided('the value of %s is not known' % what)
    return v
def flat(v):
    if isinstance(v, (list, tuple)): return tuple(flat(x) for x in v)
    if isinstance(v, dict): return tuple(flat(x) for x in v.values())
    return v

def field_names(F):
    """Structs of the crate: name -> names of the fields."""
    out = {}
    for t in F.types:
        if t['k'] == 'adt' and t.get('local') and not t.get('enum') and t.get('variants'): out[t['p'].split('::')[-1]] = [f[0] for f in t['variants'][0][2]]
    return out

def named(v, names):
    """Structs replaced by dictionaries of their fields, sequences by tuples."""
    if isinstance(v, tuple) and v:
        if v[0] == 'S':
            h = v[1].split('::')[0]
            if h in names and len(names[h]) == len(v[2]): return {n: named(x, names) for n, x in zip(names[h], v[2])}
            return tuple(named(x, names) for x in v[2])
        if v[0] == 'V': return tuple(named(x, names) for x in v[1])
        if v[0] == 'record': return {k: named(x, names) for k, x in v[1]}
        if v[0] == 'Some' and len(v) == 2: return named(v[1], names)
        if isinstance(v[0], tuple): return tuple(named(x, names) for x in v)
        if len(v) == 2 and isinstance(v[0], str) and isinstance(v[1], tuple) and v[1][:1] in (('V',), ('S',)): return (v[0], named(v[1], names))
    return v

def shown(log):
    """Values in the readable output, one list per output call."""
    return [[v[1] for v in e[1] if isinstance(v, tuple) and v[:1] == ('v',)] for e in log if e[0] == 'out']

# ---------------------------------------------------------------- count
CFILES = {'p1': (('a', 'a', 'a', 'b'), None, (), ('b', 'a', 'b'), ('c',)), 'p2': (('b',), ('a', 'b', 'a', 'a'))}
SEARCH = ('a', 'a|a', 'b|a|b', 'a|b', 'a|b', 'x', 'b|a|a|b', 'a|a|a|b')
def occurrences(seq): return sum(1 for ds in CFILES.values() for d in ds if d for i in range(len(d) - len(seq) + 1) if d[i:i + len(seq)] == seq)

@rule('C11', 'sim:Count')
def count_exact(c, R):
    for tok in TOKS:
        for search, js in ((('a',), True), (SEARCH[2:5], False), (('b|a', 'a|b|a'), True), (SEARCH, True)):
            want = {}
            for s in search:
                q = tuple(s.split('|'))
                want[V_(q)] = {'tokens': V_(q), 'count': occurrences(q), 'string': ' '.join(q) if tok == 'unicode' else ('decoded', V_(('id', w) for w in q), True)}
            m, oks = programs(c, R, {'search': V_(search), 'tokenizer': tok, 'json': js, 'out': NONE if js else some('o.jsonl')}, CFILES)
            for log, st, k in oks:
                def bad(r, w): R.bad(r, 'count', w, m.trace_all(k))
                R.ob('count', 'searches %s' % (search,))
                for ch in ('out',) if js else ('file',):
                    rs = records(log, ch)
                    known([r.get('tokens') for r in rs], 'the reported tokens')
                    if sorted(repr(r.get('tokens')) for r in rs) != sorted(map(repr, want)):
                        bad('reported-once', 'the searches %s are reported as %s' % (list(search), [r.get('tokens') for r in rs])); break
                    for r in rs:
                        w = want[r['tokens']]; known([r.get(f) for f in w], 'a reported record')
                        for f in ('count', 'string'):
                            if r.get(f) != w[f]: bad('record', 'the sequence %s is reported with %s %s instead of %s' % (w['tokens'][1], f, brief(r.get(f)), brief(w[f]))); break
                if not js:
                    es = known(shown(log), 'the readable output')
                    for w in want.values():
                        if not any(w['string'] in e and w['count'] in e for e in es): bad('text', 'the readable output does not show %s with its count %d' % (w['tokens'][1], w['count'])); break
                if R.violations: return
            if m.partial: raise m.partial
def brief(v): return repr(v)[:120]

# ---------------------------------------------------------------- search
SFILES = {'p1': (('x',), None, ('y',), ('z',)), 'p2': (('u',), ('v',))}
MATCHES = {('p', 'p1', 0): ((0, 2), (5, 7)), ('q', 'p1', 0): ((1, 4),), ('p', 'p1', 3): ((3, 3),), ('p', 'p2', 1): ((2, 6),), ('q', 'p1', 2): ()}

class Search(Prog):
    def default(self, st, x, E):
        s = x.name.rsplit('::', 1)[-1]
        if x.name == 'Regex::new': return (st, ('Ok', ('regex', E(x.args[0]))))
        if s in ('find_iter', 'captures_iter', 'find', 'is_match') and x.name.startswith('Regex'):
            r, t = E(x.args[0]), E(x.args[1])
            while isinstance(r, tuple) and r[:1] == ('slot',): r = r[3]
            if isinstance(r, tuple) and r[:1] == ('regex',) and isinstance(t, tuple) and t[:1] == ('text',):
                ms = MATCHES.get((r[1],) + t[1:], ())
                if s == 'find_iter': return self.makef(st, x, [('match', a, b) for a, b in ms])
                if s == 'is_match': return (st, bool(ms))
                if s == 'find': return (st, some(('match',) + ms[0]) if ms else NONE)
        return super().default(st, x, E)
    def hook(self, st, t, E):
        if t.op == 'call' and t.a[0].startswith('Match::') and len(t.a) == 3:
            v = E(t.a[2]); s = t.a[0][7:]
            if isinstance(v, tuple) and v[:1] == ('match',):
                if s in ('start', 'end'): return v[1 if s == 'start' else 2]
                if s == 'range': return S('Range::Range', v[1], v[2])
                if s == 'len': return v[2] - v[1]
                if s == 'is_empty': return v[1] == v[2]
        return super().hook(st, t, E)

@rule('C12', 'sim:Search')
def search_exact(c, R):
    names = field_names(c.F)
    real = {}
    for (p, f, i), ms in MATCHES.items():
        for a, b in ms: real.setdefault(p, []).append((f, i + 1, ('text', f, i), a, b))
    for loc_, lim, js, pats, rev in ((False, NONE, True, ('p', 'q'), False), (True, NONE, True, ('p', 'q'), False), (True, some(2), True, ('p', 'q'), True), (True, some(0), True, ('p',), False), (True, some(1), False, ('p',), False),
                               (True, some(4), True, ('p', 'q'), False), (False, NONE, False, ('p', 'q', 'p'), False), (True, NONE, False, ('p', 'r'), True)):
        m, oks = programs(c, R, {'pattern': V_(pats), 'with-locations': loc_, 'locations-limit': lim, 'json': js, 'out': NONE if js else some('o')}, SFILES, make=Search, reverse=rev)
        for log, st, k in oks:
            def bad(r, w): R.bad(r, 'search', w, m.trace_all(k))
            R.ob('search', 'locations %s, limit %s' % (loc_, lim))
            rs = [named(('record', tuple(r.items())), names) for r in records(log, 'out' if js else 'file')]
            ps = known([r.get('pattern') for r in rs], 'the reported pattern')
            if sorted(map(repr, ps)) != sorted(map(repr, set(pats))): bad('reported-once', 'the patterns %s are reported as %s' % (list(pats), ps)); break
            for r in rs:
                p = r['pattern']; want = real.get(p, [])
                if known(r.get('count'), 'a count') != len(want): bad('count', 'the pattern %s with %d matches is reported with count %s' % (p, len(want), r.get('count'))); break
                if not loc_: continue
                got = []
                ms = r.get('matches')
                if ms is None or ms is UNK: 
                    if ms is None: bad('no-locations', 'the record of %s has no locations' % p); break
                    raise Undecided('the locations are not known')
                known(ms, 'the locations')
                fs = [f for f, _ in ms]
                if len(set(fs)) != len(fs): bad('file-twice', 'the file %s appears twice' % fs); break
                for f, ls in ms:
                    for l in ls:
                        for sm in l.get('submatches', ()): got.append((f, l.get('line_num'), l.get('text'), sm.get('start_col'), sm.get('end_col')))
                wrong = [g for g in got if g not in want]
                if wrong: bad('location', 'the pattern %s has no match at %s' % (p, wrong[0])); break
                if len(set(got)) != len(got): bad('location-twice', 'a match of %s is located twice' % p); break
                n = len(want) if lim == NONE else min(lim[1], len(want))
                if len(got) != n: bad('locations', '%d of the %d matches of %s are located, with %s' % (len(got), len(want), p, 'no limit' if lim == NONE else 'limit %d' % lim[1])); break
            if R.violations: return
            if not js:
                es = shown(log)
                for p in set(pats):
                    if not any(p in e and len(real.get(p, ())) in e for e in es):
                        known(es, 'the readable output'); bad('text', 'the readable output does not show the pattern %s with its count %d' % (p, len(real.get(p, ())))); return
                if loc_ and lim == NONE:
                    for p in set(pats):
                        for f, ln, t, a, b in real.get(p, ()):
                            if not any(f in e and ln in e and t in e for e in es): known(es, 'the readable output'); bad('text', 'the readable output does not show the match of %s in line %d of %s' % (p, ln, f)); return
        if m.partial: raise m.partial

# ---------------------------------------------------------------- stats
DOCS = ({'p1': (('a', 'b'), None, ('c',)), 'p2': (('d', 'e'), ('f',))},
        {'p1': (('a',), ('b', 'c', 'd'), ('e', 'f')), 'p2': (('g', 'h'),)},
        {'p1': (('a', 'b', 'c'), ('d', 'e', 'f'), ('g', 'h', 'i', 'j')), 'p2': (('k', 'l', 'm'), ('n', 'o', 'p', 'q'))},
        {'p1': (), 'p2': (None, (), ('a',))}, {'p1': (('a', 'b'),), 'p2': (('c',),)})

@rule('C10', 'sim:Stats')
def stats_exact(c, R):
    names = field_names(c.F)
    for files, tok, js, fail in ((DOCS[0], TOKS[0], True, ()), (DOCS[1], TOKS[1], True, ()), (DOCS[0], TOKS[1], False, ()), (DOCS[3], TOKS[0], True, ()), (DOCS[2], TOKS[0], True, ()),
                                 (DOCS[1], TOKS[0], True, (('p1', 2),)), (DOCS[4], TOKS[1], True, (('p1', 1), ('p2', 1)))):
        m, oks = programs(c, R, {'tokenizer': tok, 'json': js, 'out': NONE if js else some('o')}, files, fail=fail, limit=400000)
        docs = [(p, i + 1, len(d)) for p in files for i, d in enumerate(files[p]) if d is not None]
        hi, lo = max(d[2] for d in docs), min(d[2] for d in docs)
        want = {'total_tokens': sum(d[2] for d in docs), 'total_documents': sum(map(len, files.values())), 'total_bytes': sum(m.bytes(p, i) for p in files for i in range(len(files[p]))),
                'document_max_tokens': hi, 'document_min_tokens': lo}
        lists = {'max_token_documents': [d for d in docs if d[2] == hi], 'min_token_documents': [d for d in docs if d[2] == lo]}
        for log, st, k in oks:
            def bad(r, w): R.bad(r, 'stats', w, m.trace_all(k))
            R.ob('stats', 'corpus %s, %s' % (files, 'with a failed attempt' if fail else 'no failures'))
            rs = [v[1] for e in log if e[0] == ('out' if js else 'file') for v in e[1] if isinstance(v, tuple) and v[:1] == ('v',)]
            rs = [named(v, names) for v in rs]; rs = [r for r in rs if isinstance(r, dict)]
            if len(rs) != 1: raise Undecided('the record of stats is not known')
            r = rs[0]
            for f, w in want.items():
                if f not in r: bad('record', 'the record has no %s' % f); break
                if known(r[f], f) != w: bad('total', '%s is %s instead of %s' % (f, brief(r[f]), w)); break
            for f, w in lists.items():
                if f not in r: bad('record', 'the record has no %s' % f); break
                got = known(r[f], f)
                if not all(isinstance(g, dict) for g in got): raise Undecided('the documents of %s are not known' % f)
                got = [(g.get('path'), g.get('line'), g.get('num_tokens')) for g in got]
                miss = [d for d in w if d not in got]; more = [d for d in got if d not in w]
                if more: bad('extreme', '%s names %s, which is no such document' % (f, more[0])); break
                if miss: bad('extreme-missing', '%s does not name %s' % (f, miss[0])); break
                if len(set(got)) != len(got): bad('extreme-twice', '%s names a document twice' % f); break
            if not js and not R.violations:
                vs = [v for e in shown(log) for v in e]; known(vs, 'the readable output')
                got = collections.Counter(v for v in vs if isinstance(v, (int, str)))
                exp = collections.Counter(want.values()) + collections.Counter(x for l in lists.values() for d in l for x in d)
                miss = exp - got
                if miss: bad('text', 'the readable output lacks %s (each value the record has, with the documents)' % sorted(map(str, miss))); return
                more = [p for p in files if got[p] > exp[p]]
                if more: bad('text', 'the readable output names %s too often' % more[0])
            if R.violations: return
        if m.partial: raise m.partial
