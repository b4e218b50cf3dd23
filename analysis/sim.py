"""Workers and the main thread of a command over representative values: the options take chosen
values, tokens and texts are distinct uninterpreted symbols, containers take their contents from what
the code does to them, calls do not fail unless the rule lets them, and everything else takes every
value."""
import re
from machine import *
from ceval import UNK, NONE, some
from rust import peel

def S(head, *vals): return ('S', head, tuple(vals))
def V_(vals): return ('V', tuple(vals))

class Sim(Heap):
    """State: (objects, positions, rule state)."""
    def __init__(self, c, start, opts=None, step=None, value=None, typemax=None, calls=None):
        self.opts = dict(opts or {}); self.step1 = step; self.value1 = value
        super().__init__(c, Sim.value, start=start, typemax=typemax)
        self.types = c.F.types
        self._outer = {}
    # -- values
    def value(self, st, t, E):
        if self.value1 is not None:
            r = self.value1(self, st, t, E)
            if r is not None: return r
        op = t.op
        if op == 'sym' and t.a[0] == 'opt': return self.opts.get(t.a[1], UNK)
        if op == 'phi':
            if t.a[0] not in self.ids: return self.outer(st, t, E)
            return UNK
        if op == 'idx':
            xs = self.seq(st, E(t.a[0])); i = E(t.a[1]) if isinstance(t.a[1], V) else UNK
            return xs[i] if xs is not None and isinstance(i, int) and 0 <= i < len(xs) else UNK
        if op == 'struct' and t.a[0][0] == 'array': return V_(E(y) for y in t.a[1])
        if op == 'call' and t.a[0] == 'vec!' and len(t.a) > 1: return E(t.a[-1])
        if op == 'call':
            n = t.a[0]; s = n.rsplit('::', 1)[-1]
            if n == 'Index::index' and len(t.a) > 3:
                xs = self.seq(st, E(t.a[2])); i = E(t.a[3])
                if xs is not None:
                    if isinstance(i, int) and i < len(xs): return xs[i]
                    if isinstance(i, tuple) and len(i) == 3 and i[0] == 'S' and not any(y is UNK for y in i[2]):
                        h = i[1].rsplit('::', 1)[-1]; a = i[2]
                        if h == 'Range': return V_(xs[a[0]:a[1]])
                        if h == 'RangeFrom': return V_(xs[a[0]:])
                        if h == 'RangeTo': return V_(xs[:a[0]])
                        if h == 'RangeFull': return V_(xs)
                return UNK
            if s in ('eq', 'ne') and len(t.a) == 4:
                a = self.freeze(st, E(t.a[2])); b = self.freeze(st, E(t.a[3]))
                if has_unk2(a) or has_unk2(b): return UNK
                return (a == b) == (s == 'eq')
            if len(t.a) > 2:
                a = [E(y) for y in t.a[2:]]
                if isinstance(a[0], str):
                    v = self.string(s, a)
                    if v is not UNK: return v
            if s in ('len', 'is_empty') and len(t.a) == 3:
                xs = self.seq(st, E(t.a[2]))
                if xs is not None: return len(xs) if s == 'len' else not xs
        return self.heap_value(st, t, E)
    def outer(self, st, t, E):
        """A join of the code before this part: one value if all its sources agree."""
        r = self._outer.get(t)
        if r is None:
            roots = set(); seen = set(); q = [t]
            while q:
                x = q.pop()
                if x in seen: continue
                seen.add(x)
                if x.op == 'phi': q.extend(self.c.e.phi.get(x, ()))
                elif x.op == 'either': q.extend(x.a[0])
                elif x.op == 'mut': q.append(x.a[2])
                elif x.op == 'undef' or x.op == 'old': pass
                else: roots.add(x)
            r = self._outer[t] = tuple(roots)
        vs = {self.fz1(E(x)) for x in r}
        return vs.pop() if len(vs) == 1 else UNK
    def fz1(self, v): return v
    def live(self):
        super().live(); self.ids = {n.id for n in self.region}
    # -- contents
    def seq(self, st, v):
        """Contents of a sequence value."""
        if isinstance(v, tuple) and v:
            if v[0] == 'V': return v[1]
            if v[0] in ('new', 'obj'): return dict(st[0]).get(v)
            if v[0] == 'slot': return self.seq(st, v[3])
        return None
    def freeze(self, st, v, d=6):
        """The value with the containers in it replaced by their contents."""
        if not isinstance(v, tuple) or not v or d == 0: return v
        if v[0] in ('new', 'obj'):
            objs = dict(st[0])
            if v in objs and isinstance(objs[v], tuple): return V_(self.freeze(st, x, d - 1) for x in objs[v])
            return v
        if v[0] == 'V': return V_(self.freeze(st, x, d - 1) for x in v[1])
        if v[0] == 'S': return ('S', v[1], tuple(self.freeze(st, x, d - 1) for x in v[2]))
        if v[0] in ('Some', 'Ok', 'Err') and len(v) == 2: return (v[0], self.freeze(st, v[1], d - 1))
        return v
    def deref_slot(self, v): return v[3] if isinstance(v, tuple) and v and v[0] == 'slot' else v
    # -- effects
    def ev(self, st, x, E):
        r = self.step1(self, st, x, E) if self.step1 is not None else None
        if r == 'end': return None
        if r is not None: return r
        return self.default(st, x, E)
    def default(self, st, x, E):
        if x.kind in ('drop', 'return'): return (st, UNK)
        if x.kind == 'lock': return (st, UNK)
        n = x.name
        if n == 'Atomic::new':
            o = ('obj', 'atomic', x.site if x.site is not None else x.ret.id)
            objs = dict(st[0]); objs[o] = ('atomic', E(x.args[0]))
            return [((fz(objs), st[1], st[2]), o)]
        if n.startswith('Atomic::') and x.kind == 'call':
            return self.atomic(st, x, E)
        r = self.heap_step(st, x, E)
        if r is not None: return [((a, b, st[2]), v) for a, b, v in r]
        if x.kind != 'call': return (st, UNK)
        if n in ('mem::size_of', 'mem::align_of', 'mem::size_of_val', 'mem::align_of_val'):
            w = size_of(self.types, x.x)
            if w is not None: return (st, w)
        # nothing fails by itself
        if x.x and x.x.get('rt') == 'Result': return (st, ('Ok', UNK))
        s = n.rsplit('::', 1)[-1]
        a0 = E(x.args[0]) if x.args else UNK
        if s in ('chars', 'char_indices', 'bytes') and isinstance(a0, str) and x.ret is not None:
            return self.make(st, x, {'chars': tuple(a0), 'char_indices': tuple(S('tuple', i, ch) for i, ch in enumerate(a0)), 'bytes': tuple(a0.encode())}[s])
        if s in ('windows', 'chunks', 'chunks_exact') and len(x.args) == 2 and x.ret is not None:
            xs = self.seq(st, a0); k = E(x.args[1])
            if xs is not None and isinstance(k, int):
                if s == 'windows': ys = [xs[i:i + k] for i in range(len(xs) - k + 1)]
                else: ys = [xs[i:i + k] for i in range(0, len(xs), k)]
                if s == 'chunks_exact': ys = [y for y in ys if len(y) == k]
                return self.make(st, x, [V_(y) for y in ys])
        v = E(x.ret) if x.ret is not None and x.ret.op == 'call' and x.ret.a[1] is None else UNK
        return (st, v)
    def make(self, st, x, xs):
        """The call returns a new sequence."""
        o = ('new', x.ret.id); objs = dict(st[0]); objs[o] = tuple(xs); its = dict(st[1]); its.pop((o, None), None)
        return [((fz(objs), fz(its), st[2]), o)]
    def string(self, s, a):
        if s == 'is_whitespace': return a[0].isspace()
        if s == 'is_alphanumeric': return a[0].isalnum()
        if s == 'is_alphabetic': return a[0].isalpha()
        if s == 'trim': return a[0].strip()
        if s == 'trim_start': return a[0].lstrip()
        if s == 'trim_end': return a[0].rstrip()
        if s in ('to_lowercase', 'to_ascii_lowercase'): return a[0].lower()
        if s in ('to_uppercase', 'to_ascii_uppercase'): return a[0].upper()
        if s == 'is_empty': return not a[0]
        if s == 'len': return UNK      # tokens are of any length
        if s in ('to_string', 'to_owned', 'into', 'from', 'clone', 'as_str', 'into_boxed_str', 'into_string', 'as_ref', 'borrow', 'deref',
                 'to_string_lossy', 'display', 'to_path_buf', 'as_path', 'as_os_str', 'into_path_buf', 'into_owned', 'into_os_string', 'to_os_string', 'as_mut_str'): return a[0]
        if s == 'to_str': return some(a[0])
        return UNK
    def atomic(self, st, x, E):
        objs = dict(st[0]); o = E(x.args[0]); s = x.name[8:]
        if not (isinstance(o, tuple) and o in objs and objs[o] and objs[o][0] == 'atomic'):
            # flags of failures elsewhere are not set
            return (st, False if s == 'load' and x.x.get('rs') == 'bool' else UNK)
        old = objs[o][1]; a = [E(y) for y in x.args[1:]]
        M = self.typemax or (1 << 64) - 1
        def num2(f): return UNK if old is UNK or a[0] is UNK else f(old, a[0])
        if s == 'load': return (st, old)
        if s == 'into_inner': return (st, old)
        new = {'store': lambda: a[0], 'swap': lambda: a[0], 'fetch_add': lambda: num2(lambda p, q: (p + q) & M), 'fetch_sub': lambda: num2(lambda p, q: (p - q) & M),
               'fetch_max': lambda: num2(max), 'fetch_min': lambda: num2(min)}.get(s)
        if new is None:
            objs[o] = ('atomic', UNK); return (((fz(objs)), st[1], st[2]), UNK)
        objs[o] = ('atomic', new())
        return [((fz(objs), st[1], st[2]), old if s != 'store' else UNK)]

def size_of(types, xx):
    """Bytes of the primitive type a call of size_of is about."""
    f = (xx or {}).get('f') or {}
    a = f.get('args') or []
    if not a or not isinstance(a[0], int): return None
    t = types[a[0]]
    m = next((m for m in (re.match(r'^(?:[\w:]*Atomic<?)?([uif])(8|16|32|64|128|size)>?$', str(t.get(k) or ''), re.I) for k in ('short', 's')) if m), None)
    return None if not m else 8 if m.group(2) == 'size' else int(m.group(2)) // 8

def has_unk2(v):
    if v is UNK: return True
    if isinstance(v, tuple): return any(has_unk2(y) for y in v)
    return False
