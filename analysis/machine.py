"""Path-sensitive analysis of one function over a finite abstract domain: the joins and call results
of the event graph take values of small representative domains (all of them wherever a value is not
determined), containers take the abstract contents the rule gives them.  All paths are covered; the
exploration is a worklist over (node, rule state, values of live joins)."""
import collections
from absint import V, mk, subterms, show, Engine, NEW
from ceval import Eval, UNK, NONE, some
from rust import Cmd, loc, peel, deep

class Fn(Cmd):
    """One function analysed on its own, its arguments unknown."""
    def __init__(self, F, body, args=None):
        self.F = F; self.name = body['n']; self.body = body
        e = Engine(F, ('return',)); e.cmd = 'fn'; e.allphis = True
        e.run(body['id'], args)
        # what the first argument refers to at the end becomes a second argument of the return event
        for n in e.nlist:
            for x in n.events:
                if x.kind == 'return' and body['argc'] and x.ctx.parent is None:
                    s0 = mk('sym', 'arg0', body['names'].get('1', ''))
                    x.args = x.args + (x.state.store.get(('t', s0)) or mk('deref', s0),)
        self.e = e; self.nodes = e.nlist; self.entry = e.entry; self.options = set()
        self.events = [x for n in self.nodes for x in n.events]
        self.workers = []

_atoms = {}
def atoms(t):
    """Joins and call sites the value of a term depends on."""
    r = _atoms.get(t)
    if r is None:
        r = frozenset(x if x.op == 'phi' or x.op == 'call' and x.a[1] is None else ('s' if x.op == 'call' else 'o', x.a[1] if x.op == 'call' else x.a[0])
                      for x in subterms(t) if x.op == 'phi' or x.op == 'call' or x.op == 'old' and x.a[1] == 1)
        _atoms[t] = r
    return r

def cont_id(x, i=0):
    """Identity of the object an argument refers to."""
    r = x.raw[i] if isinstance(x.raw, tuple) and i < len(x.raw) else None
    if r is None: r = x.args[i]
    if r.op == 'ref': return (r.a[0], tuple(p[1] if len(p) > 1 else p for p in r.a[1] if p[0] != '*'))
    return peel(r)

class TooMany(Exception): pass

class Machine:
    spawned = False     # whether the code of spawned threads is part of the region
    def __init__(self, c, hook, start=None, nodes=None, typemax=None, env0=None):
        """hook(machine, state, term, eval) -> value or UNK for terms the evaluator does not know."""
        self.c = c; self.hook = hook; self.typemax = typemax; self.env0 = dict(env0 or {})
        self.start = start or c.entry
        self.live()

    def live(self):
        c = self.c; e = c.e
        seen = {self.start}; st = [self.start]; spawn = self.spawned
        while st:
            n = st.pop()
            for m, fa, lb in n.succ:
                if (lb != 'spawn' or spawn) and m not in seen: seen.add(m); st.append(m)
        use = {}
        for n in seen:
            u = set()
            for x in n.events:
                for t in x.args: u |= atoms(t)
            for m, fa, lb in n.succ:
                for t, v in fa: u |= atoms(t)
            use[n] = u
        L = {n: set(use[n]) for n in seen}
        ch = True
        pred = collections.defaultdict(list)
        for n in seen:
            for i, (m, fa, lb) in enumerate(n.succ):
                if m in seen and (lb != 'spawn' or spawn): pred[m].append((n, i))
        work = collections.deque(seen); inw = set(seen)
        while work:
            m = work.popleft(); inw.discard(m)
            for n, i in pred[m]:
                add = set(); defs = {}
                for P, v in e.edgephi.get((n.id, i), ()): defs[P] = v
                for a in L[m]:
                    if a in defs: add |= atoms(defs[a])
                    else:
                        add.add(a)
                        if isinstance(a, tuple) and a[0] == 'o': add.add(('s', a[1]))
                if not add <= L[n]:
                    L[n] |= add
                    if n not in inw: inw.add(n); work.append(n)
        self.L = L; self.region = seen

    def evaluator(self, env, st):
        d = dict(self.env0); sites = {}; olds = {}
        for a, v in env:
            if isinstance(a, V): d[a] = v
            elif a[0] == 's': sites[a[1]] = v
            else: olds[a[1]] = v
        def h(t, E):
            if t.op == 'call' and t.a[1] is not None and t.a[1] in sites: return sites[t.a[1]]
            if t.op == 'old': return olds.get(t.a[0], UNK) if t.a[1] == 1 else UNK
            return self.hook(self, st, t, E)
        E = Eval(self.c, d, h); E.typemax = self.typemax; E.strictphi = True
        return E

    def event(self, s, x, v, ev):
        """Successors (state, environment) of one event."""
        pure = x.kind == 'call' and x.ret is not None and x.ret.op == 'call' and x.ret.a[1] is None
        if pure: v = frozenset(p for p in v if p[0] is not x.ret)
        r = ev(s, x, self.evaluator(v, s))
        if r is None: return []
        out = []
        for s2, val in (r if isinstance(r, list) else [r]):
            v2 = v
            if pure:
                if val is not UNK: v2 = v | {(x.ret, val)}
            elif x.site is not None and x.ret is not None and x.ret.op == 'call' and x.ret.a[1] is not None:
                was = next((p[1] for p in v if p[0] == ('s', x.site)), UNK)
                v2 = frozenset(p for p in v if p[0] != ('s', x.site) and p[0] != ('o', x.site))
                if was is not UNK: v2 |= {(('o', x.site), was)}
                if val is not UNK: v2 |= {(('s', x.site), val)}
            out.append((s2, v2))
        return out

    def follow(self, n, i, m, E, v):
        """The environment after the edge i from n to m."""
        live = self.L[m]; d = {a: w for a, w in v if a in live}
        for P, t in self.c.e.edgephi.get((n.id, i), ()):
            if P not in live: continue
            w = E(t)
            if has_unk(w): d.pop(P, None)
            else: d[P] = w
        return frozenset(d.items())

    def run(self, inits, ev, edge=None, limit=60000, dfs=False):
        """ev(state, event, eval) -> None (path ends) or list of (state, value of the call)."""
        par = {}; work = collections.deque()
        for st in inits:
            k = (self.start, st, frozenset())
            if k not in par: par[k] = None; work.append(k)
        self.par = self.c.par = par
        while work:
            k = work.pop() if dfs else work.popleft()
            n, st, env = k
            self.c.here = k
            cur = [(st, env)]
            for x in n.events:
                nx = []
                for s, v in cur: nx += self.event(s, x, v, ev)
                cur = list(dict.fromkeys(nx))
                if not cur: break
            for s, v in cur:
                E = self.evaluator(v, s)
                for i, (m, fa, lb) in enumerate(n.succ):
                    if lb == 'spawn' or not E.feasible(fa): continue
                    s2 = s
                    if edge is not None:
                        s2 = edge(s, n, m, fa, E)
                        if s2 is None: continue
                    env2 = self.follow(n, i, m, E, v)
                    k2 = (m, s2, env2)
                    if k2 not in par:
                        par[k2] = k; work.append(k2)
                        if len(par) > limit: raise TooMany(self.c.name)
        return par

def has_unk(w):
    if w is UNK: return True
    try: hash(w)
    except TypeError: return True
    return False

# ---------------------------------------------------------------- containers
import re
ORDERED = ('BTreeSet', 'BTreeMap')
def fz(d): return frozenset(d.items())
def fzm(d): return tuple(sorted(d.items(), key=repr))

def S_(head, *vals): return ('S', head, tuple(vals))
class Heap(Machine):
    """State: (objects, iterator positions, rule state).  Objects are tuples (sequences, sorted sets) or
    frozen maps, named by where they were made."""
    def objof(self, t, E):
        v = E(t)
        return v if isinstance(v, tuple) and v and v[0] in ('obj', 'new') else None
    def iterator(self, t, o):
        """The value of an iterator made by the call t over o."""
        if isinstance(o, tuple) and o and o[0] == 'it': return o
        while isinstance(o, tuple) and o and o[0] == 'slot': o = o[3]
        if not (isinstance(o, tuple) and o and o[0] in ('new', 'obj', 'V')): return UNK
        how = next((y.a[0] for y in t.a[2:] if isinstance(y, V) and y.op == 'const' and len(y.a) > 1 and y.a[1] == 'how'), None)
        return ('it', o, t.id, how)
    def heap_value(self, st, t, E):
        """Values of terms that denote containers."""
        if t.op == 'mut': 
            o = E(t.a[2])
            return o if isinstance(o, tuple) and o and o[0] in ('obj', 'new') else UNK
        if t.op == 'call':
            n = t.a[0]
            if NEW.match(n) or n in ('Default::default', 'collect'): return ('new', t.id)
            if n == 'iter' and len(t.a) > 2 and isinstance(t.a[2], V): return self.iterator(t, E(t.a[2]))
            if n == 'drained' and len(t.a) > 2 and isinstance(t.a[2], V): return E(t.a[2])
            if n == 'drain': return UNK
            s = n.rsplit('::', 1)[-1]
            if n in ('Rc::new', 'Arc::new', 'Box::new', 'Cow::Owned'): return E(t.a[2])
            if s in ('clone', 'to_owned', 'to_vec', 'deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow', 'into', 'from', 'as_slice', 'into_boxed_slice', 'cloned', 'copied', 'to_string', 'as_str', 'iter_obj') and len(t.a) == 3: return E(t.a[2])
            if s in ('len', 'is_empty'):
                o = self.objof(t.a[2], E)
                if o is not None and o in dict(st[0]): return len(dict(st[0])[o]) if s == 'len' else not dict(st[0])[o]
        if t.op == 'deref':
            v = E(t.a[0])
            if isinstance(v, tuple) and v and v[0] == 'slot': return v[3]
            return v
        return UNK
    def heap_step(self, st, x, E):
        """(objects, positions, value) for an operation on a container, None if it is none."""
        n = x.name
        if x.kind == 'store':
            # through a slot of a map
            p = x.args[0]
            if p.op == 'deref':
                v = E(p.a[0])
                if isinstance(v, tuple) and v and v[0] == 'slot':
                    objs = dict(st[0]); m = dict(objs[v[1]]); w = E(x.args[1]); m[v[2]] = w
                    objs[v[1]] = fzm(m)
                    return [(fz(objs), st[1], UNK)]
            return None
        if x.kind != 'call': return None
        if x.ret is not None and x.ret.op == 'call' and (NEW.match(n) or n in ('Default::default', 'collect')):
            objs = dict(st[0]); o = ('new', x.ret.id); objs[o] = ()
            its = dict(st[1]); its.pop((o, None), None)
            return [(fz(objs), fz(its), o)]
        if n in ('Iterator::next', 'DoubleEndedIterator::next_back') and x.args:
            t = peel(x.args[0]); v = E(t); tag = how = None
            if isinstance(v, tuple) and v and v[0] == 'it': o, tag, how = v[1:]
            else: o = v
            while isinstance(o, tuple) and o and o[0] == 'slot': o = o[3]
            objs = dict(st[0])
            if not (isinstance(o, tuple) and o): return None
            if o[0] == 'V': objs[o] = o[1]
            elif o[0] not in ('new', 'obj'): return None
            if o not in objs: return None
            its = dict(st[1]); key = (o, tag); i, j = its.get(key, (0, 0)); xs = objs[o]
            if i + j < len(xs):
                b = n != 'Iterator::next'
                its[key] = (i, j + 1) if b else (i + 1, j)
                v = xs[len(xs) - 1 - j] if b else xs[i]
                if self.is_map(o): v = v[0] if how in ('keys', 'into_keys') else v[1] if how in ('values', 'into_values') else ('slot', o) + v if how == 'values_mut' else ('S', 'tuple', (v[0], ('slot', o) + v)) if how == 'iter_mut' else ('S', 'tuple', v)
                return [(st[0], fz(its), some(v))]
            its[key] = (len(xs), 0)
            return [(st[0], fz(its), NONE)]
        if n == 'prim::nth' and x.args:
            # retain: every element once, in order
            o = self.objof(x.args[0], E); objs = dict(st[0])
            if o is None or o not in objs: return None
            its = dict(st[1]); key = (o, 'retain'); i, j = its.get(key, (0, 0)); xs = objs[o]
            if i < len(xs):
                its[key] = (i + 1, 0)
                return [(st[0], fz(its), some(xs[i] if not self.is_map(o) else S_('tuple', *xs[i])))]
            its.pop(key, None)
            return [(st[0], fz(its), NONE)]
        if n == 'prim::retain_remove' and x.args:
            o = self.objof(x.args[0], E); objs = dict(st[0]); its = dict(st[1]); key = (o, 'retain')
            if o is None or o not in objs or key not in its: return None
            i = its[key][0] - 1; its[key] = (i, 0); objs[o] = objs[o][:i] + objs[o][i + 1:]
            return [(fz(objs), fz(its), UNK)]
        if n in ('mem::replace', 'mem::swap', 'mem::take'): return None
        if not x.args: return None
        o = self.objof(x.args[0], E); objs = dict(st[0])
        if x.ret is not None and x.ret.op == 'call' and x.ret.a[0] == 'iter':
            v = self.iterator(x.ret, E(x.args[0]))
            if v is UNK: return None
            its = dict(st[1]); its.pop((v[1], v[2]), None)
            return [(st[0], fz(its), v)]
        if n == 'coll_add' and o is not None and o[0] == 'new': objs.setdefault(o, ())
        if o is None or o not in objs: return None
        a = [E(y) for y in x.args[1:]]
        xs = objs[o]; ty, _, s = n.rpartition('::')
        if s == 'drain':
            lo, hi = 0, len(xs)
            if a:
                r = a[0]
                if not (isinstance(r, tuple) and r[:1] == ('S',)) or UNK in r[2]: return None
                h = r[1].rsplit('::', 1)[-1]
                if h == 'RangeFrom': lo = r[2][0]
                elif h == 'RangeTo': hi = r[2][0]
                elif h == 'Range': lo, hi = r[2][:2]
                elif h != 'RangeFull': return None
            if not lo <= hi <= len(xs): return []
            q = ('new', x.ret.id); its = dict(st[1]); its.pop((q, None), None)
            objs[q] = xs[lo:hi]; objs[o] = xs[:lo] + xs[hi:]
            self.same_kind(q, o)
            return [(fz(objs), fz(its), q)]
        if s in ('iter', 'into_iter', 'iter_mut', 'keys', 'values'):
            its = dict(st[1]); its.pop((o, None), None); return [(st[0], fz(its), o)]
        def res(new, v):
            objs[o] = new; return [(fz(objs), st[1], v)]
        if any(y is UNK for y in a): return [(st[0], st[1], UNK)] if s in ('with_capacity', 'reserve') else None
        if s == 'len': return res(xs, len(xs))
        if s == 'is_empty': return res(xs, not xs)
        if s == 'clear': return res((), UNK)
        if ty.endswith(('HashMap', 'BTreeMap')):
            m = dict(xs); k = a[0] if a else None
            if s in ('get_mut',): return res(xs, some(('slot', o, k, m[k])) if k in m else NONE)
            if s in ('get',): return res(xs, some(m[k]) if k in m else NONE)
            if s == 'contains_key': return res(xs, k in m)
            if s == 'insert':
                old = some(m[k]) if k in m else NONE
                m[k] = a[1]; return res(fzm(m), old)
            if s == 'remove':
                old = some(m[k]) if k in m else NONE
                m.pop(k, None); return res(fzm(m), old)
            return None
        if ty.endswith(('BTreeSet', 'HashSet')):
            k = a[0] if a else None
            if s == 'insert': return res(tuple(sorted(set(xs) | {k}, key=self.order)), k not in xs)
            if s == 'remove': return res(tuple(y for y in xs if y != k), k in xs)
            if s == 'take': return res(tuple(y for y in xs if y != k), some(k) if k in xs else NONE)
            if s == 'contains': return res(xs, k in xs)
            if s == 'first': return res(xs, some(xs[0]) if xs else NONE)
            if s == 'last': return res(xs, some(xs[-1]) if xs else NONE)
            if s == 'pop_first': return res(xs[1:], some(xs[0]) if xs else NONE)
            if s == 'pop_last': return res(xs[:-1], some(xs[-1]) if xs else NONE)
            return None
        if s in ('push', 'push_back', 'coll_add'): return res(xs + (a[0],), UNK)
        if s == 'push_front': return res((a[0],) + xs, UNK)
        if s in ('pop', 'pop_back'): return res(xs[:-1], some(xs[-1]) if xs else NONE)
        if s == 'pop_front': return res(xs[1:], some(xs[0]) if xs else NONE)
        if s in ('front', 'first', 'peek'): return res(xs, some(xs[0]) if xs else NONE)
        if s in ('back', 'last'): return res(xs, some(xs[-1]) if xs else NONE)
        if s == 'truncate': return res(xs[:a[0]], UNK)
        if s == 'reverse': return res(xs[::-1], UNK)
        if s == 'insert' and isinstance(a[0], int): return res(xs[:a[0]] + (a[1],) + xs[a[0]:], UNK)
        if s == 'remove' and isinstance(a[0], int):
            if a[0] >= len(xs): return []
            v = xs[a[0]]
            return res(xs[:a[0]] + xs[a[0] + 1:], some(v) if ty.endswith('VecDeque') else v)
        if s in ('index', 'get') and a and isinstance(a[0], int):
            if a[0] >= len(xs): return [] if s == 'index' else res(xs, NONE)
            return res(xs, xs[a[0]] if s == 'index' else some(xs[a[0]]))
        if s in ('reserve', 'shrink_to_fit', 'make_contiguous', 'as_slice', 'deref'): return res(xs, UNK)
        return None
    def order(self, v): return repr(v)
    def is_map(self, o): return False
    def same_kind(self, new, old): pass

def iterated(t):
    t = peel(t)
    while t.op == 'call' and t.a[0] == 'iter': t = peel([y for y in t.a if isinstance(y, V)][0])
    return t

def where(x):
    """The place in the crate an event belongs to."""
    s = loc(x.span)
    c = x.ctx
    while s.startswith('/') and c is not None and c.parent is not None:
        t = c.parent.body['blocks'][c.site[0]]['t']
        s = loc(t[5]) if t[0] == 'call' and len(t) > 5 else s
        c = c.parent
    return s
