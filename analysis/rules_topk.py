"""C07: the top-k collection, over all sequences of insertions up to a bound on k, keys and counts."""
from check import rule
from rust import *
from machine import *
from rules_counter import bodies, short

KEYS = ('a', 'b', 'c')
COUNTS = (1, 2, 3)

class Coll(Heap):
    """State: (objects, positions, (fields at entry, arguments, ghost))."""
    def __init__(self, c): super().__init__(c, Coll.value)
    def value(self, st, t, E):
        fields, args, ghost = st[2]
        if t.op == 'sym':
            if t.a[0] == 'arg0': return ('self',) if fields is not None else args[0]
            if t.a[0] == 'arg1': return args[0] if len(args) else UNK
            if t.a[0] == 'arg2': return args[1] if len(args) > 1 else UNK
        if t.op == 'deref' and t.a[0].op == 'sym' and t.a[0].a[0] == 'arg0' and fields is not None: return ('S', 'TopKNgrams::TopKNgrams', fields)
        if t.op == 'call' and t.a[0] == 'Atomic::new': return ('obj', 'atomic', t.a[1] if t.a[1] is not None else t.id)
        return self.heap_value(st, t, E)
    def order(self, v): return v[2] if isinstance(v, tuple) and len(v) == 3 and v[0] == 'S' else repr(v)
    def is_map(self, o): return self.kinds.get(o) == 'map'
    kinds = {}
    def step(self, st, x, E):
        objs = dict(st[0])
        if x.name == 'Atomic::new' and x.kind == 'call':
            o = E(x.ret); v = E(x.args[0]); objs[o] = ('atomic', v)
            return [((fz(objs), st[1], st[2]), o)]
        if x.name.startswith('Atomic::') and x.kind == 'call':
            o = E(x.args[0])
            if isinstance(o, tuple) and o in objs and objs[o] and objs[o][0] == 'atomic':
                old = objs[o][1]; s = x.name[8:]
                a = [E(y) for y in x.args[1:]]
                new = {'load': old, 'store': a[0] if a else None, 'swap': a[0] if a else None}.get(s)
                if s in ('fetch_max', 'fetch_min') and UNK not in (a[0], old): new = max(old, a[0]) if s == 'fetch_max' else min(old, a[0])
                if new is None: return None
                objs[o] = ('atomic', new)
                return [((fz(objs), st[1], st[2]), old)]
        r = self.heap_step(st, x, E)
        if r is None:
            # comparisons and copies of keys
            return None
        return [((a, b, st[2]), v) for a, b, v in r]

@rule('C07', 'bin')
def collection(f, R):
    F = f[0]
    news, ins, dr, mc = (bodies(F, 'TopKNgrams::' + n) for n in ('new', 'insert', 'drain', 'min_count'))
    for n, b in (('new', news), ('insert', ins), ('drain', dr), ('min_count', mc)):
        if not b: raise Gone('TopKNgrams::%s is not used by any command' % n)
    for b in ins:
        ty = F.types[b['locals'][1]]['args'][0]
        same = lambda bs, ret=False: next((z for z in bs if (z['locals'][0] == ty if ret else F.types[z['locals'][1]].get('args', [None])[0] == ty)), None)
        n, d, m = same(news, True), same(dr), same(mc)
        if None in (n, d, m): raise Gone('TopKNgrams<%s>: constructor, drain or min_count are missing' % short(F, b['locals'][3]))
        one(F, n, b, d, m, R)

def one(F, new, ins, dr, mc, R):
    ty = short(F, ins['locals'][3])
    name = 'TopKNgrams<%s>' % ty
    t = F.types[new['locals'][0]]; fnames = [q[0] for q in t['variants'][0][2]]
    cn, ci, cd, cm = Fn(F, new), Fn(F, ins), Fn(F, dr), Fn(F, mc)
    for k in (1, 2):
        # the empty collection
        start = []
        m = Coll(cn)
        def ev(st, x, E):
            if x.kind == 'return':
                v = E(x.args[0])
                if not (isinstance(v, tuple) and v[0] == 'S') or any(has_unk(y) for y in v[2]): R.bad('constructor', loc(new['span']), 'the state of a new collection is not known: %r' % (v,)); return None
                start.append((v[2], st[0])); return None
            r = m.step(st, x, E)
            return r if r is not None else (st, UNK)
        m.run([((), (), (None, (k,), ()))], ev)
        if len(start) != 1: raise Gone('%s::new' % name)
        fields, objs = start[0]
        m2 = Coll(cm); pub = []
        def ev2(st, x, E):
            if x.kind == 'return': pub.append(E(x.args[0])); return None
            r = m2.step(st, x, E)
            return r if r is not None else (st, UNK)
        m2.run([(objs, (), (fields, (), ()))], ev2)
        if len(pub) != 1 or pub[0] not in dict(objs): R.bad('published-minimum', loc(mc['span']), 'min_count does not hand out the published minimum'); return
        pub = pub[0]
        mins = [i for i, v in enumerate(fields) if fnames[i] != 'k' and isinstance(v, int) and not isinstance(v, bool) and 'min' in fnames[i]]
        # k is what the caller gave
        kk = [i for i, v in enumerate(fields) if fnames[i] == 'k']
        if dict(objs)[pub] != ('atomic', 1): R.bad('initial-minimum', loc(new['span']), 'the published minimum of a new collection is not 1')
        setobj = [v for i, v in enumerate(fields) if isinstance(v, tuple) and v[0] in ('new', 'obj') and 'BTreeSet' in tyname(F, t, i)]
        mapobj = [v for i, v in enumerate(fields) if isinstance(v, tuple) and v[0] in ('new', 'obj') and 'HashMap' in tyname(F, t, i)]
        if not setobj: raise Gone('%s holds no ordered set of counts and n-grams' % name)
        setobj = setobj[0]
        seen = {}; front = [(fields, objs, tuple((q, 0) for q in KEYS), False)]
        seen[front[0]] = None
        mi = Coll(ci)
        def describe(s): return 'k=%d holding %s' % (k, sorted((y[2][1], y[2][0]) for y in dict(s[1])[setobj]))
        while front:
            inits = [(s[1], (), (s[0], (key, cnt), s[2:])) for s in front for key in KEYS for cnt in COUNTS]
            nxt = []
            def ev3(st, x, E):
                if x.kind == 'return' and x.ctx.parent is None:
                    v = E(x.args[1]); args = st[2][1]; best, full = st[2][2]
                    def bad(r, w): R.bad(r, loc(ins['span']), '%s with k=%d after inserting %r with %d: %s' % (name, k, args[0], args[1], w), ci.trace())
                    if not (isinstance(v, tuple) and v[0] == 'S') or any(has_unk(y) for y in v[2]): bad('insert-undecided', 'state unknown'); return None
                    R.ob('insert', name)
                    b = dict(best); b[args[0]] = max(b[args[0]], args[1])
                    s = dict(st[0]); held = s[setobj]
                    pairs = [(y[2][1], y[2][0]) for y in held]
                    d = dict(pairs)
                    if len(d) != len(pairs): bad('held-twice', 'an n-gram is held twice: %s' % pairs); return None
                    if len(pairs) > k: bad('too-many', '%d n-grams are held' % len(pairs)); return None
                    for q, c in pairs:
                        if b[q] != c: bad('count', '%r is held with %s although its highest count is %d' % (q, c, b[q])); return None
                    left = [q for q in KEYS if b[q] and q not in d]
                    low = min(d.values()) if d else None
                    for q in left:
                        if len(d) < k or b[q] > low: bad('left-out', '%r with %d is left out of %s' % (q, b[q], pairs)); return None
                    for o in mapobj:
                        if sorted(s[o]) != sorted(pairs): bad('index', 'the index of held n-grams %s differs from %s' % (s[o], pairs)); return None
                    full = full or len(pairs) >= k
                    p = s[pub][1]
                    for what, p in [('published', p)] + [(fnames[i], v[2][i]) for i in mins]:
                        if p is UNK or low is not None and p > low: bad('minimum-too-high', 'the %s minimum is %s, the smallest held count %s' % (what, p, low)); return None
                        if not full and p != 1: bad('minimum-too-early', 'the %s minimum is %s before the collection was full' % (what, p)); return None
                        if p < 1: bad('minimum', 'the %s minimum is %s' % (what, p)); return None
                    key = (v[2], st[0], fz(b), full)
                    if key not in seen: seen[key] = None; nxt.append(key)
                    return None
                r = mi.step(st, x, E)
                return r if r is not None else (st, UNK)
            mi.run(inits, ev3)
            front = nxt
            if len(seen) > 20000: R.bad('undecided', name, 'too many states'); return
        # draining
        md = Coll(cd); n = [0]
        def ev4(st, x, E):
            if x.kind == 'return' and x.ctx.parent is None:
                n[0] += 1
                o = E(x.args[0]); v = E(x.args[1]); s = dict(st[0]); pairs = st[2][2]
                def bad(r, w): R.bad(r, loc(dr['span']), '%s with k=%d holding %s: %s' % (name, k, list(pairs), w), cd.trace())
                R.ob('drain', name)
                out = s.get(o, () if isinstance(o, tuple) and o[:1] == ('new',) else None)
                if out is None or any(has_unk(y) for y in out): bad('drain-undecided', 'what is returned is not known'); return None
                got = [(y[2][0], y[2][1]) for y in out]
                if sorted(got) != sorted(pairs): bad('drained', 'returns %s' % got); return None
                if any(got[i][1] < got[i + 1][1] for i in range(len(got) - 1)): bad('drain-order', 'returns %s' % got); return None
                cur = v[2][fields.index(setobj)]
                if s.get(cur, () if isinstance(cur, tuple) and cur[:1] == ('new',) else 1) or any(s.get(v[2][fields.index(q)]) for q in mapobj): bad('not-emptied', 'the collection is not empty afterwards'); return None
                for what, p in [('published', s[pub][1])] + [(fnames[i], v[2][i]) for i in mins]:
                    if p != 1: bad('not-reset', 'the %s minimum is %s afterwards' % (what, p)); return None
                return None
            r = md.step(st, x, E)
            return r if r is not None else (st, UNK)
        inits = [];
        for s in seen:
            pairs = tuple((y[2][1], y[2][0]) for y in dict(s[1])[setobj])
            inits.append((s[1], (), (s[0], (), pairs)))
        md.run(list(dict.fromkeys(inits)), ev4)
        if not n[0]: R.bad('no-result', loc(dr['span']), 'drain never returns')

def tyname(F, t, i):
    q = F.types[t['variants'][0][2][i][1]]
    return q.get('adt') or q.get('short') or q.get('s') or ''
