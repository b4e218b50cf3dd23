"""C13 and the worker half of C08 and C09: what the workers of topk, botk and unique hand to the
counting table and to the collections, per document of uninterpreted tokens."""
from check import rule
from rust import *
from sim import *

# word segments of the documents of one file: None = no text
DOCS = (('one', ' ', 'two', '\t\n', 'one', '.', ' ', 'Three', '  ', 'one', ' ', 'two'), None, (), (' ', '\u00a0'), ('four',), ('five', ' ', 'six', '\u3000', 'one'), ('\u00c9t\u00e9', '\u200b', 'a\u00a0b'))
PRE = (('one', 'two', 'one', '.', '##three', 'one', 'two'), None, (), ('\u0120', ' '), ('four',), ('five', 'six', '[UNK]'), ('',))
def words(d): return tuple(w for w in d if not w.isspace() and w)
OPS = ('NgramCounter::increment', 'NgramCounter::decrement', 'NgramCounter::max_count', 'NgramCounter::min_count')
NULLABLE = ('NgramCounter', 'TopKNgrams')

class Worker(Sim):
    """A worker reading one file.  Rule state: (lines read, log, choices)."""
    def __init__(self, c, start, opts, on=None, limit=NONE, docs=DOCS, pre=PRE, value=None):
        self.docs = docs; self.pre = pre; self.on = on; self.finals = {}
        o = {'limit': limit, 'threshold': 0}; o.update(opts)
        super().__init__(c, start, o, Worker.step, value, typemax=(1 << 64) - 1)
        self.kinds = set()
    def step(self, st, x, E):
        n = x.name; objs, its, u = st
        if x.kind == 'return':
            if not x.node.succ: self.finals.setdefault((u, objs), self.c.here)
            return None
        if x.kind != 'call': return self.on(self, st, x, E) if self.on else None
        if n == 'BufRead::read_line':
            if u[0] >= len(self.docs): return (st, ('Ok', 0))
            return [((objs, its, (u[0] + 1,) + u[1:]), ('Ok', 7))]
        if n == 'de::from_str':
            if not u[0]: return None
            i = u[0] - 1
            # documents whose text is absent for one kind of tokenizer are absent for the other
            return (st, ('Ok', S('DataInstance::DataInstance', NONE if self.docs[i] is None else some(('text', i)))))
        s = n.rsplit('::', 1)[-1]
        if s in ('split_word_bounds', 'unicode_words', 'encode', 'encode_fast', 'split_whitespace', 'split_word_bound_indices'):
            t = next((v for v in (E(a) for a in x.args) if isinstance(v, tuple) and v[:1] == ('text',)), None)
            if t is None: return None
            if s == 'split_word_bounds': self.kinds.add('unicode'); return self.make(st, x, self.docs[t[1]])
            if s == 'encode' or s == 'encode_fast':
                self.kinds.add('pretrained')
                return (st, ('Ok', ('enc', t[1])))
            return self.make(st, x, tuple('?'))
        if s in ('get_tokens',):
            e = E(x.args[0])
            if isinstance(e, tuple) and e[:1] == ('enc',): return (st, V_(self.pre[e[1]]))
        return self.on(self, st, x, E) if self.on else None
    def go(self, init=()):
        i = [((), (), (0,) + tuple(init))]
        try: self.run(i, self.ev)
        except TooMany as ex:
            # the complete exploration is out of reach: look for a violation on a part of the paths
            self.partial = ex
            try: self.run(i, self.ev, limit=30000, dfs=True)
            except TooMany: pass
        return self.finals
    partial = None

def table_step(m, st, x, E):
    objs, its, u = st
    if x.name in OPS:
        a = tuple(m.freeze(st, E(y)) for y in x.args)
        k = (u[0] - 1, x.name, a[1], a[2] if len(a) > 2 else None)
        return [((objs, its, (u[0], u[1] + (k,)) + u[2:]), m.count(k))]
    if x.name == 'TopKNgrams::drain': return (st, V_(()))
    if x.name == 'Atomic::load': return None
    return None

def windows(toks, n): return [toks[i:i + n] for i in range(len(toks) - n + 1)]

def runs(c, w, n, cmd):
    """The table operations of one worker with n-grams of size n: set of logs."""
    m = Worker(c, w, {'ngram': n, 'topk': 2, 'k': 2, 'p-keep': NONE}, table_step)
    m.count = lambda k: 0
    f = m.go([()])
    return m, {u[1]: key for (u, _), key in f.items()}

def passes(c):
    """The workers of a command."""
    return c.workers

@rule('C13', 'sim:Topk', 'sim:Botk', 'sim:Unique')
def ngram_windows(c, R):
    seen = {}
    for w in c.workers:
        base = None
        for n in (1, 2, 3, 5):
            m, logs = runs(c, w, n, c.name)
            where = 'worker of %s' % c.name.lower()
            if not logs: R.bad('no-end', where, 'no path reaches the end of the file without a failure'); break
            for log, key in logs.items():
                perdoc = [[] for _ in m.docs]
                for d, op, ng, by in log: perdoc[d].append((ng, op))
                toks = [tuple(t for ng, op in p for t in (ng[1] if isinstance(ng, tuple) and ng[:1] == ('V',) else (UNK,))) for p in perdoc]
                if n == 1:
                    bad = next((d for d, p in enumerate(perdoc) if any(not (isinstance(ng, tuple) and ng[:1] == ('V',) and len(ng[1]) == 1) for ng, _ in p)), None)
                    if bad is not None: R.bad('size', where, 'with n = 1 the n-grams of a document are %s' % (show_log(perdoc[bad]),), m.c.trace(key)); break
                    exp = [words(d or ()) if 'unicode' in m.kinds else tuple(p or ()) for d, p in zip(m.docs, m.pre)]
                    if base is not None and base != toks or [len(t) for t in toks] != [len(t) for t in exp]:
                        bad = next(d for d in range(len(toks)) if len(toks[d]) != len(exp[d]) or base is not None and base[d] != toks[d])
                        R.bad('single', where, 'with n = 1 a document of %d tokens gives %d n-grams' % (len(exp[bad]), len(toks[bad])), m.c.trace(key)); break
                    base = toks
                    R.ob('windows', where + ', n = 1')
                    continue
                if base is None: break
                bad = None
                for d, p in enumerate(perdoc):
                    got = [ng[1] if isinstance(ng, tuple) and ng[:1] == ('V',) else ng for ng, _ in p]
                    R.ob('windows', where + ', n = %d' % n)
                    if got != windows(base[d], n): bad = d; break
                if bad is not None:
                    R.bad('windows', where, 'with n = %d a document with the tokens %s gives %s' % (n, list(base[bad]), show_log(perdoc[bad])), m.c.trace(key)); break
            seen.setdefault(n, set()).update(frozenset((d, ng) for d, op, ng, by in l) for l in logs)
            if m.partial and not R.violations: raise m.partial
        # whatever is drawn when n-grams are sampled
        one = (('one', ' ', 'two', 'one', 'three'),); pre = (('one', 'two', 'one', 'three'),)
        for n in (2, 3):
            m = Worker(c, w, {'ngram': n, 'topk': 2, 'k': 2, 'p-keep': some(0.5), 'threshold': (1 << 32) - 1 if c.name == 'Botk' else 0}, table_step, docs=one, pre=pre)
            m.typemax = (1 << 32) - 1
            m.count = lambda k: (1 << 32) - 2
            for (u, _), key in m.go([()]).items():
                R.ob('windows', 'worker of %s, n = %d, sampled' % (c.name.lower(), n))
                got = [ng[1] if isinstance(ng, tuple) and ng[:1] == ('V',) else ng for d, op, ng, by in u[1]]
                if got != windows(one[0][0:1] + one[0][2:], n): R.bad('windows', 'worker of %s' % c.name.lower(), 'with n = %d and --p-keep a document with the tokens one two one three gives %s' % (n, [list(y) if isinstance(y, tuple) else '?' for y in got]), m.c.trace(key)); break
            if m.partial and not R.violations: raise m.partial
    if c.name == 'Botk':
        ops = {x.name for x in c.events if x.name in OPS}
        if 'NgramCounter::decrement' not in ops or 'NgramCounter::max_count' not in ops: raise Missing('passes of botk')

def show_log(p): return [list(ng[1]) if isinstance(ng, tuple) and ng[:1] == ('V',) else '?' for ng, _ in p][:8]

class Iter(Sim):
    """A function of the library's n-gram iterator.  Rule state: (fields of the iterator, arguments)."""
    def __init__(self, c, ends):
        self.ends = ends; super().__init__(c, c.entry, {}, Iter.step, Iter.hook, typemax=(1 << 64) - 1)
    def hook(self, st, t, E):
        fields, args = st[2][:2]
        if t.op == 'sym' and isinstance(t.a[0], str) and t.a[0].startswith('arg'):
            i = int(t.a[0][3:])
            if fields is not None: return ('self',) if i == 0 else None
            return args[i] if i < len(args) else None
        if t.op == 'deref' and t.a[0].op == 'sym' and t.a[0].a[0] == 'arg0' and fields is not None: return S('Ngrams::Ngrams', *fields)
        if t.op == 'fld' and E(t.a[0]) == SRC: return SRC      # the pointer in the box
        return None
    def step(self, st, x, E):
        if x.kind == 'return' and x.ctx.parent is None:
            self.ends.append((st, E(x.args[0]), E(x.args[1]) if len(x.args) > 1 else UNK, self.c.trace())); return 'end'
        return None

SRC = ('obj', 'source')
@rule('C13', 'lib')
def library_iterator(f, R):
    F = f[0]
    nx = [b for b in F.bodies.values() if b['n'] == 'Iterator::next' and b['p'].startswith('wimbd::ngrams::') and not b['closure']]
    nw = [b for b in F.bodies.values() if b['n'] == 'Ngrams::new']
    fs = [b for b in F.bodies.values() if b['n'] == 'ngrams::ngrams' and not b['closure']]
    if not nx or not nw: raise Gone('the n-gram iterator of the library')
    for b in nx:
        c = Fn(F, b)
        for n in (1, 2, 3, 4, 5):
            starts = []
            for w in nw:
                ends = []; m = Iter(Fn(F, w), ends)
                m.run([(fz({SRC: ()}), (), (None, (SRC, n)))], m.ev)
                for st, v, _, tr in ends:
                    R.ob('library constructor', loc(w['span']))
                    if isinstance(v, tuple) and v[0] == 'S' and SRC in v[2]: starts.append((v[2], st[0]))
            if not starts: raise Gone('Ngrams::new')
            for w in fs:
                ends = []; m = Iter(Fn(F, w), ends)
                m.run([((), (), (None, (('text', 0), n, o))) for o in (NONE, some(('tokenizer',)))], m.ev)
                for st, v, _, tr in ends:
                    if not (isinstance(v, tuple) and v[:1] == ('Ok',) and isinstance(v[1], tuple) and v[1][:1] == ('S',)): continue
                    R.ob('library entry point', loc(w['span']))
                    src = starts[0][0].index(SRC)
                    for i, (y, z) in enumerate(zip(v[1][2], starts[0][0])):
                        if i != src and y is not UNK and isinstance(z, int) and y != z: R.bad('library-entry', loc(w['span']), 'ngrams(text, %d) makes an iterator of another size' % n, tr)
            for toks in ((), ('a',), ('a', 'b'), ('a', 'a', 'a'), ('a', 'b', 'c', 'a', 'b'), tuple('abcdefab')):
                for fields, objs in dict.fromkeys(starts):
                    o = dict(objs); o[SRC] = toks
                    states = [((fz(o), ()), fields, ())]
                    for _ in range(len(toks) + 2):
                        new = []
                        for (objs2, its), fl, got in states:
                            ends = []; m = Iter(c, ends)
                            m.run([(objs2, its, (fl, ()))], m.ev)
                            for st, v, me, tr in ends:
                                def bad(r, wh): R.bad(r, loc(b['span']), 'n-grams of size %d of %s: %s' % (n, list(toks), wh), tr)
                                if v == NONE or not (isinstance(me, tuple) and me[:1] == ('S',)):
                                    R.ob('library iterator', 'n = %d' % n)
                                    exp = [V_(y) for y in windows(toks, n)]
                                    if v != NONE or has_unk2(got): bad('library-undecided', 'what the iterator gives is not known')
                                    elif list(got) != exp: bad('library-windows', 'the iterator gives %s' % [list(y[1]) for y in got])
                                else: new.append(((st[0], st[1]), me[2], got + (m.freeze(st, v[1]),)))
                        states = new
                        if not states: break
                    if states: R.bad('library-windows', loc(b['span']), 'n-grams of size %d of %s: more than the tokens allow' % (n, list(toks)))
