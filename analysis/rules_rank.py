"""C08 and C09: candidates, their admission, and the ranked report of topk and botk."""
from check import rule
from rules_ngrams import *
from rules_output import channel
from rules_seed import Undecided
MAXU = {'u32': (1 << 32) - 1, 'u64': (1 << 64) - 1}
DOC2 = (('x', ' ', 'y'),); PRE2 = (('x', 'y'),)

class Admission(Worker):
    """Rule state: (lines, log); log entries (operation, n-gram, value)."""
    def __init__(self, c, start, opts, counts, lm, sm):
        self.counts = counts; self.lm = lm; self.sm = sm
        super().__init__(c, start, opts, Admission.on_event, docs=DOC2, pre=PRE2, value=Admission.hook)
        self.dead = None
    def hook(self, st, t, E):
        if t.op == 'fld' and t.a[1] == 'TopKNgrams' and t.a[2] == 'min_count': return self.lm
        return None
    def on_event(self, st, x, E):
        objs, its, u = st; n = x.name
        def log(k, objs=objs): return (objs, its, (u[0], u[1] + (k,)) + u[2:])
        if n in OPS:
            a = tuple(self.freeze(st, E(y)) for y in x.args)
            out = []
            prev = next((e for e in reversed(u[1]) if e[0] in OPS), None)
            again = n in ('NgramCounter::max_count', 'NgramCounter::min_count') and prev is not None and prev[1] == a[1] and prev[0] == 'NgramCounter::increment'
            for v in ((prev[3],) if again else self.counts): out.append((log((n, a[1], a[2] if len(a) > 2 else None, v)), v))
            return out
        if n == 'TopKNgrams::new':
            o = ('new', 'coll'); d = dict(objs); d[o] = ()
            return [((fz(d), its, u), o)]
        if n == 'TopKNgrams::insert':
            ng, v = self.freeze(st, E(x.args[1])), E(x.args[2])
            d = dict(objs); o = ('new', 'coll')
            d[o] = tuple(y for y in d.get(o, ()) if y[2][0] != ng) + (S('tuple', ng, v),)
            return [(log(('insert', ng, None, v), fz(d)), UNK)]
        if n == 'TopKNgrams::drain':
            xs = dict(objs).get(('new', 'coll'), ())
            d = dict(objs); d[('new', 'coll')] = (); o = ('new', x.ret.id); d[o] = xs
            p = dict(its); p.pop((o, None), None)
            u2 = (u[0], u[1] + (('drain', xs, None, None),)) + u[2:]
            return [((fz(d), fz(p), u2), o)]
        if n == 'TopKNgrams::min_count': return None
        if n in ('SyncSender::send', 'Sender::send', 'SyncSender::try_send'):
            v = self.freeze(st, E(x.args[1]))
            return [(log(('send', v[2][0], None, v[2][1]) if isinstance(v, tuple) and v[:2] == ('S', 'tuple') else ('send', UNK, None, UNK)), ('Ok', UNK))]
        if n.rsplit('::', 1)[-1] in ('random', 'gen', 'random_range', 'gen_range', 'gen_bool', 'random_bool') and x.ret is not None and x.ret.op == 'call':
            return [(log(('random', None, None, None)), UNK)]
        if n.startswith('Atomic::load'):
            if x.x.get('rs') == 'bool': return (st, False)
            return (st, self.sm)
        return None

def one_gram(ng): return isinstance(ng, tuple) and ng[:1] == ('V',) and len(ng[1]) == 1

def admission(c, w, R, botk):
    where = '%s worker' % c.name.lower()
    M = MAXU['u32']
    if botk: combos = [(t, lm, sm, pk) for t in (1, 2, 3, M) for lm in (1, M - 2) for sm in (1, M - 2, M - 1) for pk in (NONE,)] + [(M, 1, 1, some(0.5))]
    else: combos = [(t, lm, sm, NONE) for t in (1, 2) for lm in (1, 3) for sm in (1, 3, 4)]
    found = False
    for t, lm, sm, pk in combos:
        counts = (M - 1, M - 2, M - 3) if botk else (1, 2, 3, 4)
        m = Admission(c, w, {'ngram': 1, 'topk': 5, 'k': 5, 'threshold': t, 'p-keep': pk}, counts, lm, sm)
        m.typemax = M if botk else (1 << 64) - 1
        f = m.go([()])
        if not f: R.bad('no-end', where, 'no path reaches the end of the file without a failure'); return
        T = M - t if botk else t
        ctx = 'threshold %d, own minimum %s, shared minimum %s' % (t, lm, sm)
        for (u, objs), key in f.items():
            log = u[1]; tr = lambda: c.trace(key)
            R.ob('admission', where)
            if UNK in [y for e in log for y in e]: R.bad('undecided', where, 'an operation with unknown arguments: %s' % [e[0] for e in log if UNK in e], tr()); return
            ops = [e for e in log if e[0] in OPS]
            look = [e for e in ops if e[3] is not None]
            drains = [e for e in log if e[0] == 'drain']
            for i, e in enumerate(log):
                if e[0] in ('NgramCounter::increment', 'NgramCounter::decrement') and e[2] != 1: R.bad('amount', where, 'an occurrence counts %s' % e[2], tr()); return
                if botk and e[0] == 'NgramCounter::decrement': continue
                if e[0] in OPS:
                    found = True
                    v = e[3]
                    if v > T and v >= lm and v >= sm:
                        nxt = next((j for j in range(i + 1, len(log)) if log[j][0] in OPS), len(log))
                        seg = log[i + 1:]
                        if not any(z[0] == 'insert' and z[1] == e[1] and z[3] == v for z in seg):
                            if pk != NONE and any(z[0] == 'random' for z in log[i + 1:nxt]): continue
                            R.bad('discarded', where, 'an n-gram with %s is not kept (%s)' % (name(v, M, botk), ctx), tr()); return
                if e[0] == 'insert' and not any(z[0] in OPS and z[1] == e[1] and z[3] == e[3] for z in log[:i]):
                    R.bad('kept-count', where, 'an n-gram is kept with a count the table did not return for it (%s)' % ctx, tr()); return
            if any(e[0] == 'insert' for e in log):
                found = True
                if not drains: R.bad('not-merged', where, 'the candidates of a file are not handed on', tr()); return
                last = max(i for i, e in enumerate(log) if e[0] == 'insert')
                if not any(e[0] == 'drain' for e in log[last:]): R.bad('not-merged', where, 'candidates are added after the last hand-over', tr()); return
            items = [tuple(y[2]) for e in drains for y in e[1]]
            sent = [(e[1], e[3]) for e in log if e[0] == 'send']
            for ng, v in items:
                if v > T and v >= sm and (ng, v) not in sent: R.bad('not-sent', where, 'a candidate with %s is not handed on (%s)' % (name(v, M, botk), ctx), tr()); return
            for ng, v in sent:
                if (ng, v) not in items: R.bad('sent-other', where, 'what is handed on is not a candidate with its count', tr()); return
                if v <= T: R.bad('below-threshold', where, 'a candidate with %s is reported with threshold %d' % (name(v, M, botk), t), tr()); return
    return found

def name(v, M, botk): return 'count %d' % (M - v if botk else v)

@rule('C08', 'sim:Topk')
def topk_workers(c, R):
    if not [w for w in c.workers if admission(c, w, R, False)] and not R.violations: raise Missing('workers of topk that admit candidates')

@rule('C09', 'sim:Botk')
def botk_workers(c, R):
    if not [w for w in c.workers if admission(c, w, R, True)] and not R.violations: raise Missing('workers of botk that admit candidates')

def capacities(c, R):
    """A worker's own collection holds at least k n-grams."""
    found = 0
    for w in c.workers:
        for k in (1, 2, 3, 5, 10, 11, 63, 64, 65, 100, 1000, 1025, 100001):
            for files in (1, 3, 1000):
                got = []
                def hook(m, st, t, E):          # a number of files or lines
                    return files if t.op == 'call' and repr(t).split('(')[0] in ('Vec::len', 'slice::len', '[T]::len') else None
                def on(m, st, x, E):
                    if x.kind == 'call' and x.name == 'TopKNgrams::new': got.append((x, E(x.args[0]))); return 'end'
                    if x.kind == 'call' and x.name == 'BufRead::read_line': return 'end'
                    return None
                m = Worker(c, w, {'ngram': 1, 'topk': k, 'k': k, 'threshold': 1, 'p-keep': NONE}, on, docs=(), pre=(), value=hook)
                m.go([()])
                for x, v in got:
                    found += 1
                    R.ob('capacity', where(x))
                    if isinstance(v, int) and v < k: R.bad('capacity', where(x), 'with -k %d the collection of a worker holds only %d n-grams' % (k, v)); return
                    if not isinstance(v, int): raise Undecided('the capacity of the collection of a worker at ' + where(x))
    if not found: raise Missing('collections of the workers')

@rule('C08', 'sim:Topk')
def topk_capacity(c, R): capacities(c, R)

@rule('C09', 'sim:Botk')
def botk_capacity(c, R): capacities(c, R)

# ---------------------------------------------------------------- the main thread
from mainsim import *
RECV = (S('tuple', V_(('e', 'f')), 5), S('tuple', V_(('g', 'h')), 2), S('tuple', V_(('e', 'f')), 7))

def final(c, R, botk):
    # the final collection holds exactly k n-grams
    found = 0
    for k in (1, 2, 10, 11, 63, 64, 65, 100, 1000, 1025, 100001):
        got = []
        def on(m, st, x, E):
            if x.kind == 'call' and x.name == 'TopKNgrams::new': got.append((x, E(x.args[0]))); return 'end'
            return None
        m = Main(c, {'topk': k, 'k': k, 'tokenizer': 'unicode', 'size': 1000, 'hashes': 2, 'ngram': 2, 'u64': False, 'threshold': 1, 'json': True, 'out': NONE, 'p-keep': NONE}, rx=(), on=on)
        m.go()
        for x, v in got:
            found += 1; R.ob('capacity', where(x))
            if isinstance(v, int) and v != k: R.bad('capacity', where(x), 'with -k %d the final collection holds %d n-grams' % (k, v)); return
            if not isinstance(v, int): raise Undecided('the capacity of the final collection at ' + where(x))
    if not found: raise Missing('the final collection of ' + c.name.lower())
    for k in (4, 2): report(c, R, botk, k)

def report(c, R, botk, K):
    cmd = c.name.lower(); M = MAXU['u32']
    vals = (M - 1, M - 4, M - 4, M - 6) if botk else (9, 4, 4, 2)
    ngs = (('a', 'b'), ('c', 'd'), ('b', 'a'), ('e', 'c'))
    ngs, vals = ngs[:K], vals[:K]
    items = tuple(S('tuple', V_(g), v) for g, v in zip(ngs, vals))
    recv = tuple(S('tuple', y[2][0], M - y[2][1]) for y in RECV) if botk else RECV
    def on(m, st, x, E):
        if x.kind != 'call': return None
        if x.name == 'TopKNgrams::new': return [(st, ('coll',))]
        if x.name == 'TopKNgrams::insert': return [(m.log(st, ('insert', m.plain(st, E(x.args[1])), E(x.args[2]))), UNK)]
        if x.name == 'TopKNgrams::drain': return m.make(m.log(st, ('drain',)), x, items)
        if x.name.startswith('Atomic::load') and x.x.get('rs') != 'bool': return (st, 1)
        return None
    for tok, u64, (json_, out) in [(t, u, o) for t in ('unicode', 'some/model') for u in ((False,) if botk else (False, True)) for o in ((True, NONE), (False, NONE), (False, some('o.jsonl')))]:
        m = Main(c, {'topk': K, 'k': K, 'tokenizer': tok, 'size': 1000, 'hashes': 2, 'ngram': 2, 'u64': u64, 'threshold': 20 if botk else 1, 'json': json_, 'out': out, 'p-keep': NONE}, rx=recv, on=on)
        m.typemax = M if botk else (1 << 64) - 1
        ends = m.go(); n = 0
        for (log, how), key in ends.items():
            if how != 'Ok': continue
            n += 1
            def bad(r, w): R.bad(r, 'report of ' + cmd, w, c.trace(key))
            R.ob('report', cmd)
            got = [e for e in log if e[0] == 'received']; ins = [(e[1], e[2]) for e in log if e[0] == 'insert']
            exp = sorted((y[2] for y in recv), key=repr)
            i = next((i for i, e in enumerate(log) if e[0] == 'drain'), None)
            if len(got) != len(recv): bad('not-received', 'a run that succeeds took %d of %d candidates' % (len(got), len(recv))); break
            if sorted(ins, key=repr) != exp: bad('not-merged', 'the candidates %s reach the final collection as %s' % (brief(exp), brief(ins))); break
            if i is None or any(e[0] in ('insert', 'received') for e in log[i:]): bad('drained-early', 'the final collection is drained before every candidate has arrived'); break
            want = []
            for k, (g, v) in enumerate(zip(ngs, vals)):
                s = ' '.join(g) if tok == 'unicode' else ('decoded', V_(('id', w) for w in g), True)
                want.append({'tokens': V_(g), 'string': s, 'count': M - v if botk else v, 'rank': k + 1})
            ch = 'file' if out != NONE else 'out'
            if json_ or out != NONE:
                rs = records(log, ch)
                if len(rs) != len(want): bad('records', '%d entries give %d records' % (len(want), len(rs))); break
                d = next(((a, b) for a, b in zip(rs, want) if any(a.get(k) != b[k] for k in b)), None)
                if d is not None:
                    k = next(k for k in d[1] if d[0].get(k) != d[1][k])
                    bad('record', 'entry %d is reported with %s %s instead of %s' % (d[1]['rank'], k, brief(d[0].get(k)), brief(d[1][k]))); break
            else:
                outs = [[v[1] for v in e[1] if isinstance(v, tuple) and v[:1] == ('v',)] for e in log if e[0] == 'out']
                flat = [v for e in outs for v in e]; pos = 0; wrong = None
                for w in want:
                    try:
                        p = flat.index(w['string'], pos)
                    except ValueError: wrong = (w, 'its text'); break
                    ev = next(e for e in outs if w['string'] in e) if len([e for e in outs if w['string'] in e]) == 1 else flat
                    for k in ('count', 'rank'):
                        if w[k] not in ev: wrong = (w, k)
                    pos = p + 1
                if wrong: bad('text', 'the readable output shows entry %d without %s' % (wrong[0]['rank'], wrong[1])); break
        else:
            if not n: R.bad('no-end', 'report of ' + cmd, 'no path of the main thread succeeds')

def brief(v): return repr(v)[:120]

@rule('C08', 'sim:Topk')
def topk_main(c, R): final(c, R, False)

@rule('C09', 'sim:Botk')
def botk_main(c, R): final(c, R, True)

@rule('C09', 'sim:Botk')
def two_passes(c, R):
    """No job that looks counts up is started before all counting jobs have ended without a failure."""
    import collections
    kind = {}
    for w in c.workers:
        seen = {w}; st = [w]; ops = set()
        while st:
            n = st.pop()
            ops |= {x.name for x in n.events if x.name in OPS}
            for q, fa, lb in n.succ:
                if q not in seen and lb != 'spawn': seen.add(q); st.append(q)
        kind[w] = ops
    if not any('NgramCounter::decrement' in k for k in kind.values()) or not any(k & {'NgramCounter::max_count', 'NgramCounter::min_count'} for k in kind.values()): raise Missing('the two passes of botk')
    def on(m, st, x, E):
        objs, its, u = st
        sp = [q for q, fa, lb in x.node.succ if lb == 'spawn'] if x.kind == 'spawn' or x.name in ('ThreadPool::execute', 'thread::spawn') else []
        for q in sp:
            k = kind.get(q, set()); started, joined, checked, failed = u
            R.ob('pass order', where(x))
            if k & {'NgramCounter::max_count', 'NgramCounter::min_count'}:
                if started and not joined: R.bad('lookup-before-join', where(x), 'a job that looks counts up starts while counting jobs may be running', c.trace(m.c.here))
                elif started and failed: R.bad('lookup-after-failure', where(x), 'a job that looks counts up starts although a counting job has failed', c.trace(m.c.here))
                elif started and not checked: R.bad('lookup-unchecked', where(x), 'a job that looks counts up starts without looking at the failures of the counting jobs', c.trace(m.c.here))
                return 'end'
            if 'NgramCounter::decrement' in k: u = (True, False, False, False)
        if sp: return (objs, its, u), UNK
        if x.kind != 'call': return None
        if x.name == 'ThreadPool::join' or x.name in ('JoinHandle::join',): return (objs, its, (u[0], True, u[2], u[3])), UNK
        if x.name == 'ThreadPool::panic_count': return (st, 0)
        if x.name.startswith('Atomic::load') and x.x.get('rs') == 'bool':
            return [((objs, its, (u[0], u[1], u[2] or u[1], u[3] or f and u[1])), f) for f in ((False, True) if u[1] else (False,))]
        if x.name.startswith('TopKNgrams::'): return (st, ('coll',))
        return None
    for tok in ('unicode', 'some/model'):
        m = Passes(c, {'k': 4, 'tokenizer': tok, 'size': 1000, 'hashes': 2, 'ngram': 2, 'threshold': 20, 'p-keep': NONE}, on=on)
        m.run([((), (), (False, False, False, False))], m.ev)

class Passes(Main):
    def log(self, st, e, objs=None): return (st[0] if objs is None else objs, st[1], st[2])
    def step(self, st, x, E):
        if x.kind == 'return' and not x.node.succ: return 'end'
        if x.kind == 'spawn' or x.name == 'ThreadPool::execute':
            r = self.on(self, st, x, E)
            if r is not None: return r
        return super().step(st, x, E)
