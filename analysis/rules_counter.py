"""C05: the counting table of NgramCounter, function by function."""
import hashlib, re
from check import rule
from rust import *
from machine import *
from ceval import UNK, NONE, some

WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128}
def short(F, t): return F.types[t].get('short')

def bodies(F, name):
    return [b for b in F.bodies.values() if b['local'] and not b['closure'] and b['n'] == name]

def selfty(F, b, i=1):
    """The (monomorphic) struct type behind an argument or the result."""
    t = F.types[b['locals'][i]]
    while t['k'] == 'ref': t = F.types[t['args'][0]]
    return t.get('s') or t.get('p')

def layout(F, b):
    """What the fields of the table hold, from its constructor: name -> size, hashes, table or hashers."""
    adt = selfty(F, b)
    out = {}
    for n in bodies(F, 'NgramCounter::new'):
        c = Fn(F, n)
        for x in c.events:
            if x.kind != 'return': continue
            for v in c.expand(x.args[0]):
                if v.op == 'struct' and v.a[0][3] == 'Ok': v = v.a[1][0]
                for v in c.expand(v):
                    if v.op != 'struct' or v.a[0][1] != 'NgramCounter': continue
                    t = next((t for t in F.types if t.get('adt') == 'NgramCounter' and t.get('variants')), None)
                    names = [f[0] for f in t['variants'][0][2]]
                    for f, y in zip(names, v.a[1]):
                        y = peel(y)
                        if y.op == 'sym': out[f] = {'arg0': 'size', 'arg1': 'hashes'}.get(y.a[0], y.a[0])
                        else:
                            d = c.deep(y)
                            names2 = {z.a[0] for z in d if z.op in ('call', 'mut')} | {q.a[0] for z in d if z.op == 'mut' for q in subterms(z) if q.op == 'call'}
                            if any(q.startswith('Atomic::new') or q.endswith('from_elem') for q in names2): out[f] = 'table'
                            elif any(q.startswith('RandomState::') for q in names2): out[f] = 'hashers'
        if out: return out
    return out

def digest(*a): return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:8], 'big')

class Table(Machine):
    S = 97; TOK = 2
    def __init__(self, c, lay, H, typemax, by=None):
        self.lay = lay; self.H = H; self.M = typemax; self.by = by
        super().__init__(c, Table.value, typemax=typemax)
    def value(self, st, t, E):
        if t.op == 'sym':
            if t.a[0] == 'arg0': return ('self',)
            if t.a[0] == 'arg1': return ('ngram',)
            if t.a[0] == 'arg2' and self.by is not None: return self.by
            return UNK
        if t.op == 'fld' and t.a[1] == 'NgramCounter':
            k = self.lay.get(t.a[2])
            return {'size': self.S, 'hashes': self.H, 'table': ('table',), 'hashers': ('hashers',)}.get(k, UNK)
        if t.op == 'mut':
            old = E(t.a[2])
            if t.a[0] in ('Hash::hash', 'Hasher::write', 'Hash::hash_slice') and isinstance(old, tuple) and old[0] == 'H':
                vs = [E(y) for y in t.a[3:]]
                return ('H', old[1], old[2] + tuple(vs)) if UNK not in vs else UNK
            return UNK
        if t.op == 'call':
            n = t.a[0]; a = t.a[2:]
            s = n.rsplit('::', 1)[-1]
            if s in ('len', 'is_empty') and a:
                b = E(a[0]); k = {('table',): self.S, ('hashers',): self.H, ('ngram',): self.TOK}.get(b) if isinstance(b, tuple) else None
                return UNK if k is None else k == 0 if s == 'is_empty' else k
            if s in ('index', 'get', 'get_unchecked') and len(a) == 2:
                b = E(a[0]); i = E(a[1])
                if i is UNK or not isinstance(b, tuple): return UNK
                k = {('table',): ('cell', self.S), ('hashers',): ('B', self.H), ('ngram',): ('tok', self.TOK)}.get(b)
                if k is None or not isinstance(i, int): return UNK
                if i < 0 or i >= k[1]: return NONE if s == 'get' else ('outside',)
                return some((k[0], i)) if s == 'get' else (k[0], i)
            if s in ('as_slice', 'deref', 'as_ref', 'borrow', 'iter', 'into_iter') and len(a) >= 1:
                y = E(a[0])
                if y in (('table',), ('hashers',), ('ngram',)): return y
            if n == 'BuildHasher::build_hasher':
                b = E(a[0])
                return ('H', b[1], ()) if isinstance(b, tuple) and b[0] == 'B' else UNK
            if n == 'BuildHasher::hash_one':
                b = E(a[0]); v = E(a[1])
                return digest(b[1], (v,)) if isinstance(b, tuple) and b[0] == 'B' and v is not UNK else UNK
            if n == 'Hasher::finish':
                h = E(a[0])
                return digest(h[1], h[2]) if isinstance(h, tuple) and h[0] == 'H' else UNK
            if s in ('try_from', 'try_into'):
                v = E(a[0])
                return ('Ok', v) if v is not UNK else UNK
            if s in ('from', 'into', 'clone', 'to_owned', 'as_') and len(a) == 1: return E(a[0])
            if s in ('max_value',) and not a: return self.M
        return UNK

KINDS = {('table',): ('cell', 'S'), ('hashers',): ('B', 'H'), ('ngram',): ('tok', 'TOK')}
def step(m, its, x, E):
    """Iterator events over the table, the hash functions or the tokens: (its, value) or None."""
    if x.name.endswith(('::iter', '::into_iter', '::as_iter')) and x.args:
        b = E(x.args[0])
        if b in KINDS: return {**its, b: 0}, UNK
    if x.name == 'Iterator::next':
        t = peel(x.args[0])
        b = E(t.a[0]) if t.op == 'call' and False else E(iterated(t))
        if b in KINDS:
            k, lim = KINDS[b]; i = its.get(b, 0)
            if i < getattr(m, lim): return {**its, b: i + 1}, some((k, i))
            return {**its, b: 0}, NONE
    return None
def iterated(t):
    t = peel(t)
    while t.op == 'call' and t.a[0] == 'iter': t = peel([y for y in t.a if isinstance(y, V)][0])
    return t
def fz(d): return tuple(sorted(d.items(), key=repr))

def addsat(M, by): return lambda v: min(v + by, M)
def subsat(M, by): return lambda v: max(v - by, 0)

def analyse(F, b, lay, kind, R, cells):
    ret = b['locals'][0] if kind == 'max_count' else b['locals'][3]
    w = WIDTH.get(short(F, ret))
    if w is None: raise Gone('%s: counts of type %s' % (b['n'], short(F, ret)))
    M = (1 << w) - 1
    c = Fn(F, b)
    name = '%s<%s>' % (b['n'], short(F, ret))
    for H, D, bys in ((1, (0, 1, 2, 3, 5, M - 3, M - 2, M - 1, M), (1, 2, 3) if kind != 'max_count' else (None,)), (2, (0, 1, 7, M - 1, M), (1,)), (3, (0, 1, M), (1,))):
        for by in bys:
            m = Table(c, lay, H, M, by)
            f = {'increment': addsat, 'decrement': subsat}.get(kind)
            f = f(M, by) if f else None
            want = [cell(i) for i in range(H)]
            done = [0]
            def ev(st, x, E):
                its, seen = dict(st[0]), dict(st[1])
                def bad(r, t): R.bad(r, loc(x.span) if x.span else name, '%s (%d hash functions, by %s): %s' % (name, H, by, t), c.trace())
                if x.kind == 'return':
                    v = E(x.args[0]); done[0] += 1
                    R.ob('result', name)
                    for i in set(want):
                        k = seen.get(i, (0, None))
                        if k[0] != (want.count(i) if f else k[0]) or i not in seen:
                            bad('cell-missed' if k[0] < want.count(i) else 'cell-twice', 'the cell of a hash function is %s' % ('not accessed' if i not in seen else 'updated %d times instead of %d' % (k[0], want.count(i))))
                            return None
                    vals = [seen[i][1] for i in set(want)]
                    exp = min(vals) if kind == 'increment' else max(vals)
                    if v is UNK: bad('result', 'the result is not the %s of the cells' % ('minimum' if kind == 'increment' else 'maximum'))
                    elif v != exp: bad('result', 'returns %r where the cells are %s' % (v, vals))
                    return None
                r = step(m, its, x, E)
                if r is not None: return (fz(r[0]), st[1]), r[1]
                if x.name.startswith('Atomic::') and x.kind == 'call' and x.args:
                    p = E(x.args[0])
                    if p is UNK or p[0] != 'cell':
                        if p == ('outside',): bad('index-outside', 'a cell outside the table')
                        else: bad('cell-unknown', 'an access that is not to the cell of a hash function')
                        return None
                    i = p[1]
                    if i not in want:
                        bad('other-cell', 'an access to a cell that belongs to none of the hash functions over all tokens'); return None
                    R.ob('access', loc(x.span))
                    n, last = seen.get(i, (0, None))
                    op = x.name[8:]
                    if op == 'load':
                        dom = D
                        if n and kind == 'increment': dom = [d for d in D if d >= last] or [last]
                        if n and kind == 'decrement': dom = [d for d in D if d <= last] or [last]
                        return [((st[0], fz({**seen, i: (n, d)})), d) for d in dom]
                    if not f:
                        bad('look-up-writes', 'a look-up changes the table'); return None
                    if op.startswith('compare_exchange'):
                        old, new = E(x.args[1]), E(x.args[2])
                        if old is UNK or new is UNK: bad('update-unknown', 'the new count does not follow from the old one'); return None
                        out = [((st[0], fz({**seen, i: (n, d)})), ('Err', d)) for d in D if d != old or op.endswith('weak')]
                        if new != f(old):
                            bad('wrong-update', 'a count of %s becomes %s instead of %s' % (old, new, f(old))); return None
                        if n >= want.count(i): bad('cell-twice', 'a cell is updated more often than hash functions map to it'); return None
                        return out + [((st[0], fz({**seen, i: (n + 1, new)})), ('Ok', old))]
                    if op in ('fetch_add', 'fetch_sub', 'fetch_max', 'fetch_min', 'fetch_or', 'fetch_and'):
                        d = E(x.args[1]); out = []
                        if d is UNK: bad('update-unknown', 'the new count does not follow from the old one'); return None
                        for old in D:
                            new = {'fetch_add': (old + d) % (M + 1), 'fetch_sub': (old - d) % (M + 1), 'fetch_max': max(old, d), 'fetch_min': min(old, d), 'fetch_or': old | d, 'fetch_and': old & d}[op]
                            if new != f(old): bad('wraps', '%s takes a count of %s to %s instead of %s, which other threads can see' % (op, old, new, f(old))); return None
                            out.append(((st[0], fz({**seen, i: (n + 1, new)})), old))
                        return out
                    bad('lost-update', '%s overwrites what other threads counted since' % op); return None
                if x.name in ('Index::index', 'IndexMut::index_mut') and E(x.ret) == ('outside',):
                    bad('index-outside', 'an index outside the table or the hash functions'); return None
                return st, UNK
            try: m.run([((), ())], ev)
            except TooMany: R.bad('undecided', name, 'too many cases'); return
            if not done[0]: R.bad('no-result', name, '%s never returns with %d hash functions' % (name, H))

@rule('C05', 'bin')
def counting(f, R):
    F = f[0]
    lay = {}
    found = {}
    for kind in ('increment', 'decrement', 'max_count', 'nonzero'):
        bs = bodies(F, 'NgramCounter::' + kind)
        if not bs: raise Gone('NgramCounter::%s is not used by any command' % kind)
        for b in bs:
            lay = lay or layout(F, b)
            found.setdefault(kind, []).append(b)
    for k in ('table', 'hashers'):
        if k not in lay.values(): raise Gone('NgramCounter::new builds no %s' % k)
    # the cell of an n-gram: one function of all its tokens, the same in every operation
    allcells = {}
    for kind in ('increment', 'decrement', 'max_count'):
        for b in found[kind]:
            allcells[b['id']] = address(F, b, lay, R)
    ref = next(iter(allcells.values()))
    for kind in ('increment', 'decrement', 'max_count'):
        for b in found[kind]:
            R.ob('same-cells', b['n'])
            if allcells[b['id']] != ref: R.bad('different-cells', b['n'], 'addresses other cells than %s for the same n-gram' % found['increment'][0]['n'])
    global cell
    cell = lambda i: ref[3][i]
    for kind in ('increment', 'decrement', 'max_count'):
        for b in found[kind]: analyse(F, b, lay, kind, R, ref)
    for b in found['nonzero']: occupied(F, b, lay, R)

def address(F, b, lay, R):
    """The cells accessed with 1..3 hash functions, in order of the hash functions."""
    out = {}
    for H in (1, 2, 3):
        c = Fn(F, b)
        res = []
        m = Table(c, lay, H, (1 << 64) - 1, 1)
        def ev(st, x, E):
            r = step(m, dict(st[0]), x, E)
            if r is not None: return (fz(r[0]), st[1]), r[1]
            if x.kind == 'return': res.append(st[1]); return None
            cells = st[1]
            if x.name.startswith('Atomic::') and x.kind == 'call' and x.args:
                p = E(x.args[0])
                if p is not UNK and p[0] == 'cell' and p[1] not in cells: cells = cells + (p[1],)
                if x.name.startswith('Atomic::compare'): return (st[0], cells), ('Ok', E(x.args[1]))
                return (st[0], cells), 0
            if x.name == 'Hasher::finish' or x.name == 'BuildHasher::hash_one':
                y = peel(x.args[0]); h = E(y)
                R.ob('hash', loc(x.span))
                if isinstance(h, tuple) and h[0] == 'H':
                    want = tuple(('tok', i) for i in range(m.TOK))
                    if h[2] not in (want, (('ngram',),)):
                        R.bad('tokens-not-hashed', loc(x.span), '%s hashes %d of %d tokens' % (b['n'], len(set(h[2])), m.TOK), c.trace())
                elif x.name == 'Hasher::finish': R.bad('hash-unknown', loc(x.span), '%s: the hash is not that of the tokens' % b['n'], c.trace())
            return st, UNK
        m.run([((), ())], ev)
        sets = {tuple(sorted(r)) for r in res}
        R.ob('address', b['n'])
        if len(sets) != 1:
            R.bad('address', b['n'], 'the cells of an n-gram are not determined by its hashes'); return {1: None, 2: None, 3: [0, 1, 2]}
        s = res[0]
        if len(s) != H:
            R.bad('hash-functions', b['n'], '%d of %d hash functions are used' % (len(s), H))
            return {1: None, 2: None, 3: list(range(3))}
        out[H] = s
    return out

def occupied(F, b, lay, R):
    c = Fn(F, b)
    class T(Table): S = 3
    M = (1 << 8) - 1
    m = T(c, lay, 1, M)
    name = b['n']; done = [0]
    def ev(st, x, E):
        its, vals = dict(st[0]), dict(st[1])
        def bad(r, t): R.bad(r, loc(x.span) if x.span else name, t, c.trace())
        if x.kind == 'return':
            v = E(x.args[0]); done[0] += 1
            n = sum(1 for k in vals.values() if k > 0)
            R.ob('occupied', name)
            if len(vals) != m.S: bad('cell-missed', 'only %d of %d cells are looked at' % (len(vals), m.S))
            elif v != n: bad('occupied', '%s cells are counted where %d are not zero (%s)' % ('an unknown number of' if v is UNK else v, n, sorted(vals.values())))
            return None
        r = step(m, its, x, E)
        if r is not None: return (fz(r[0]), st[1]), r[1]
        if x.name.startswith('Atomic::') and x.kind == 'call' and x.args:
            p = E(x.args[0])
            if p is UNK or p[0] != 'cell': bad('cell-unknown', 'not a cell of the table'); return None
            if x.name != 'Atomic::load': bad('look-up-writes', 'counting the occupied cells changes the table'); return None
            return [((st[0], fz({**vals, p[1]: d})), d) for d in (0, 1, 2, M)]
        return st, UNK
    m.run([((), ())], ev)
    if not done[0]: R.bad('no-result', name, 'never returns')
