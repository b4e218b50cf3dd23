"""C18: one tokenizer, the one --tokenizer selects, for every text of a run."""
from check import rule
from rules_ngrams import *
from rules_rank import Passes
from mainsim import Main, RX

SPLIT = ('split_word_bounds', 'unicode_words', 'split_whitespace', 'split_word_bound_indices', 'split_ascii_whitespace', 'unicode_word_indices')
ENC = ('encode', 'encode_fast', 'encode_char_offsets', 'encode_batch')
NAMES = ('unicode', 'some/model', 'Unicode', 'unicode-x')
class Undecided(Exception): pass

def kind_of(x):
    s = x.name.rsplit('::', 1)[-1]
    if x.kind != 'call': return None
    if s in SPLIT: return 'unicode'
    if s in ENC and ('okeniz' in x.name or 'okeniz' in str(x.x)): return 'pretrained'
    return None

class Tok(Passes):
    """The main thread with a chosen --tokenizer: what it loads, which workers it starts, what it tokenizes itself."""
    def __init__(self, c, name, R):
        self.tname = name; self.R = R; self.started = {}; self.own = {}; self.loaded = set()
        super().__init__(c, {'k': 4, 'topk': 4, 'tokenizer': name, 'size': 1000, 'hashes': 2, 'ngram': 2, 'threshold': 20, 'p-keep': NONE, 'search': V_(('s one', 's two')), 'u64': False}, on=lambda *a: None)
    def follow(self, n, i, m, E, v):
        # counters of loops without a known bound are widened
        return frozenset(p for p in super().follow(n, i, m, E, v) if not (type(p[1]) is int and 2 < p[1] < 1 << 31))
    def step(self, st, x, E):
        r = Tok.on2(self, st, x, E)
        return r if r is not None else super().step(st, x, E)
    @staticmethod
    def on2(self, st, x, E):
        objs, its, u = st
        if x.kind in ('call', 'spawn') or x.name in ('ThreadPool::execute', 'thread::spawn'):
            for q, fa, lb in x.node.succ:
                if lb == 'spawn': self.started.setdefault(q, self.c.here)
        if x.kind != 'call': return None
        s = x.name.rsplit('::', 1)[-1]
        # after its only pass a command does not tokenize
        if x.name == 'ThreadPool::join' and self.c.name != 'Botk' or s in ('token_to_id', 'decode') or s in ('recv', 'next') and len(self.started) > 1 and E(iterated(x.args[0])) == RX: return 'end'
        if s in ('from_pretrained', 'from_file', 'from_bytes') and 'okeniz' in x.name:
            v = E(x.args[0])
            self.R.ob('loaded', where(x))
            if self.tname == 'unicode': self.R.bad('loaded', where(x), 'a tokenizer is loaded although --tokenizer is unicode', self.c.trace(self.c.here))
            elif v != self.tname: self.R.bad('other-tokenizer', where(x), 'loads %s for --tokenizer %s' % ('a tokenizer that does not follow from the option' if v is UNK else repr(v), self.tname), self.c.trace(self.c.here))
            return [(st, ('Ok', ('tokenizer',)))]
        k = kind_of(x)
        if k:
            a = [E(y) for y in x.args]
            t = next((v for v in a if isinstance(v, str)), None)
            self.R.ob('own text', where(x))
            self.kind(x, k)
            if t is None or t not in ('s one', 's two'): self.R.bad('search-text', where(x), 'tokenizes %s instead of a search string' % ('something else' if t is None else repr(t)), self.c.trace(self.c.here))
            if k == 'unicode': return self.make(st, x, ('s', ' ', 'one'))
            special(self, x, a)
            return (st, ('Ok', ('enc', t)))
        if s == 'get_tokens': return (st, V_(('s', 'one')))
        if x.name.startswith('TopKNgrams::'): return (st, ('coll',))
        return None
    def kind(self, x, k):
        want = 'unicode' if self.tname == 'unicode' else 'pretrained'
        if k != want: self.R.bad('wrong-tokenizer', where(x), 'with --tokenizer %s a text is split by the %s tokenizer' % (self.tname, k), self.c.trace(self.c.here))

def special(m, x, a):
    if len(a) > 2 and a[2] is not UNK and a[2]: m.R.bad('special-tokens', where(x), 'the tokenizer adds tokens that are not in the text', m.c.trace(m.c.here))
    elif len(a) > 2 and a[2] is UNK: m.R.bad('special-tokens', where(x), 'whether the tokenizer adds tokens that are not in the text is not determined', m.c.trace(m.c.here))

class Reads(Worker):
    """A worker: what it tokenizes."""
    def __init__(self, c, start, R, unicode):
        self.R = R; self.unicode = unicode; self.texts = {}
        super().__init__(c, start, {'ngram': 1, 'topk': 2, 'k': 2, 'p-keep': NONE, 'tokenizer': 'unicode' if unicode else 'some/model', 'search': V_(('one',))})
    def step(self, st, x, E):
        objs, its, u = st
        k = kind_of(x)
        if k:
            a = [E(y) for y in x.args]
            t = next((v for v in a if isinstance(v, tuple) and v[:1] == ('text',)), None)
            self.R.ob('text', where(x))
            if t is None: self.R.bad('part-of-text', where(x), 'what is tokenized is not the whole text of the document', self.c.trace(self.c.here)); return 'end'
            if k == 'pretrained': special(self, x, a)
            self.kinds.add(k)
            u = (u[0], u[1] | {t[1]})
            if t[1] != u[0] - 1: self.R.bad('other-text', where(x), 'the text of another document is tokenized', self.c.trace(self.c.here))
            st = (objs, its, u)
            if k == 'unicode': return self.make(st, x, self.docs[t[1]])
            return (st, ('Ok', ('enc', t[1])))
        if x.name in OPS: return (st, 0)
        if x.kind == 'call' and x.name.rsplit('::', 1)[-1] in ('push', 'push_back', 'coll_add', 'insert') and any(has_unk2(self.freeze(st, E(y))) for y in x.args[1:]): return (st, UNK)
        return Worker.step(self, st, x, E)
    def follow(self, n, i, m, E, v): return frozenset(p for p in super().follow(n, i, m, E, v) if not (type(p[1]) is int and 2 < p[1] < 1 << 31))

@rule('C18', 'sim:Topk', 'sim:Botk', 'sim:Unique', 'sim:Count', 'sim:Stats')
def one_tokenizer(c, R):
    starts = {}
    for name in NAMES:
        m = Tok(c, name, R)
        m.run([((), (), ())], m.ev)
        R.ob('selection', '%s --tokenizer %s' % (c.name.lower(), name))
        if not m.started: raise Missing('%s starts no job' % c.name)
        for q in m.started: starts.setdefault(q, set()).add(name)
    docs = {i for i, d in enumerate(DOCS) if d is not None}
    for w in c.workers:
        if w not in starts: continue
        for u in (True, False):
            names = [n for n in starts[w] if (n == 'unicode') == u]
            if not names: continue
            m = Reads(c, w, R, u)
            m.step1 = Reads.step
            d0 = ((), (), (0, frozenset()))
            try: m.run([d0], m.ev)
            except TooMany as ex:
                m.partial = ex
                try: m.run([d0], m.ev, limit=30000, dfs=True)
                except TooMany: pass
            here = 'worker of %s' % c.name.lower()
            want = {'unicode'} if u else {'pretrained'}
            R.ob('worker', here)
            if m.kinds != want:
                bad = m.kinds - want
                R.bad('wrong-tokenizer', here, 'with --tokenizer %s a job splits texts by the %s tokenizer' % (names[0], ' and the '.join(sorted(bad))) if bad else 'a job tokenizes nothing')
            for (fu, objs), key in m.finals.items():
                R.ob('every text', here)
                miss = docs - fu[1]
                if miss: R.bad('text-missed', here, 'a document with text is not tokenized', c.trace(key)); break
            if m.partial and not R.violations: raise m.partial

@rule('C18', 'sim:Topk', 'sim:Botk', 'sim:Unique')
def tokens_unchanged(c, R):
    for w in c.workers:
        m, logs = runs(c, w, 1, c.name)
        here = 'worker of %s' % c.name.lower()
        for log, key in logs.items():
            per = [[] for _ in m.docs]
            for d, op, ng, by in log: per[d].append(ng)
            for d, (dc, p) in enumerate(zip(m.docs, m.pre)):
                exp = [V_((t,)) for t in (words(dc or ()) if 'unicode' in m.kinds else tuple(p or ()))]
                got = per[d]
                R.ob('tokens', here)
                if has_unk2(tuple(got)): raise Undecided('%s: the tokens of a document are not known' % here)
                if got != exp:
                    R.bad('tokens', here, 'the tokens of %s are taken to be %s' % (repr((dc if 'unicode' in m.kinds else p))[:80], [g[1][0] for g in got][:8]), c.trace(key)); return
