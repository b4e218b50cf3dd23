"""The main thread of a command with chosen options and results: what it does with each result and
what it prints."""
from sim import *
from rules_output import channel
from rust import pieces
import re

RX = ('obj', 'rx')
class Main(Sim):
    """Rule state: log of (kind, ...)."""
    def __init__(self, c, opts, rx=(), on=None, value=None, paths=('p1',)):
        self.rx = tuple(rx); self.on = on; self.value2 = value; self.ends = {}; self.paths = tuple(paths)
        self.unicode = opts.get('tokenizer') == 'unicode'
        o = {'path': V_(paths), 'json': True, 'quiet': False, 'out': NONE, 'limit': NONE, 'file-limit': NONE, 'force': False, 'seed': NONE, 'workers': NONE}
        o.update(opts)
        super().__init__(c, c.entry, o, type(self).step, type(self).hook, typemax=(1 << 64) - 1)
    def hook(self, st, t, E):
        if t.op == 'fld' and t.a[0].op == 'call' and t.a[0].a[0] in ('mpsc::sync_channel', 'mpsc::channel') and t.a[2] == '1': return RX
        if t.op == 'call' and len(t.a) > 2:
            s = t.a[0].rsplit('::', 1)[-1]
            if s == 'join' and 'Path' not in t.a[0] and len(t.a) == 4:
                xs = self.seq(st, E(t.a[2])); sep = E(t.a[3])
                xs = None if xs is None else [self.deref_slot(y) for y in xs]
                if xs is not None and isinstance(sep, str) and all(isinstance(y, str) for y in xs): return sep.join(xs)
                return None
            if t.a[0] in ('fmt::format', 'io::format'):
                vs = self.out(st, None, E, pieces(t))
                if all(isinstance(v, str) for v in vs): return ''.join(vs)
                if len(vs) == 1 and isinstance(vs[0], tuple) and vs[0][:1] == ('v',): return vs[0][1]
                return ('fmt', vs)
            if s in ('separate_with_commas', 'separate_with_underscores', 'separate_with_spaces', 'style', 'cyan', 'bold', 'green', 'yellow', 'red', 'dim', 'blue', 'magenta', 'white', 'bright', 'HumanCount', 'HumanBytes') and len(t.a) == 3: return E(t.a[2])
        return self.value2(self, st, t, E) if self.value2 is not None else None
    def out(self, st, x, E, ps):
        vs = []
        for p in ps:
            if isinstance(p, str): vs.append(p)
            elif p[1] is None: vs.append(UNK)
            else:
                v = self.plain(st, E(p[1]))
                if isinstance(v, tuple) and v[:1] == ('fmt',): vs += v[1]
                else: vs.append(('v', v))
        return tuple(vs)
    def plain(self, st, v, d=10):
        """A value with containers replaced by their contents and JSON values by what they hold."""
        if d == 0 or not isinstance(v, tuple) or not v: return v
        if v[0] == 'fmt': return v
        if v[0] == 'slot': return self.plain(st, v[3], d - 1)
        if v[0] in ('new', 'obj'):
            m = dict(st[0]).get(v)
            if m is None: return UNK
            if isinstance(m, tuple) and m and m[0] == 'atomic': return self.plain(st, m[1], d - 1)
            return V_(self.plain(st, y, d - 1) for y in m)
        if v[0] == 'V': return V_(self.plain(st, y, d - 1) for y in v[1])
        if v[0] == 'S':
            if v[1] == 'Value::Object':
                m = dict(st[0]).get(v[2][0])
                if m is None: return UNK
                return ('record', tuple(sorted((k, self.plain(st, y, d - 1)) for k, y in m)))
            if v[1].startswith('Value::') and len(v[2]) == 1: return self.plain(st, v[2][0], d - 1)
            return ('S', v[1], tuple(self.plain(st, y, d - 1) for y in v[2]))
        if len(v) == 2 and isinstance(v[0], str) and not isinstance(v[1], str): return (v[0], self.plain(st, v[1], d - 1))
        if all(isinstance(y, str) for y in v): return v
        return tuple(self.plain(st, y, d - 1) for y in v)
    def log(self, st, e, objs=None): return (st[0] if objs is None else objs, st[1], st[2] + (e,))
    def step(self, st, x, E):
        n = x.name; s = n.rsplit('::', 1)[-1]
        if x.kind == 'return':
            v = E(x.args[0]) if x.args else UNK
            if x.node.succ: return None
            self.ends.setdefault((st[2], v[0] if isinstance(v, tuple) and v else '?'), self.c.here)
            return 'end'
        if n == 'process::exit': return 'end'
        if x.kind == 'call':
            if n in ('Iterator::next',) or s in ('recv', 'try_recv', 'recv_timeout'):
                o = E(iterated(x.args[0]))
                if o == RX:
                    xs = dict(st[0]).get(RX, self.rx); d = dict(st[0])
                    if not xs: return [(self.log(st, ('closed',)) if not st[2] or st[2][-1] != ('closed',) else st, NONE if s == 'next' else ('Err', UNK))]
                    d[RX] = xs[1:]
                    return [(self.log(st, ('received', xs[0]), fz(d)), some(xs[0]) if s == 'next' else ('Ok', xs[0]))]
            if s in ('iter', 'into_iter', 'try_iter') and x.args and E(x.args[0]) == RX: return [(st, RX)]
            if n == 'value::to_value': return [(st, ('Ok', E(x.args[0])))]
            if n == 'Map::new' or n.endswith('Map::with_capacity'):
                d = dict(st[0]); o = ('new', x.ret.id); d[o] = (); return [((fz(d), st[1], st[2]), o)]
            if n == 'Map::insert':
                o = E(x.args[0]); d = dict(st[0])
                if o in d:
                    m = dict(d[o]); m[self.key(E(x.args[1]))] = E(x.args[2]); d[o] = fzm(m); return [((fz(d), st[1], st[2]), UNK)]
            if n in ('ser::to_string', 'ser::to_vec', 'ser::to_string_pretty'): return [(st, ('Ok', E(x.args[0])))]
            if s in ('is_file', 'exists', 'try_exists') and x.args and E(x.args[0]) in self.paths: return [(st, True if s != 'try_exists' else ('Ok', True))]
            if s == 'is_dir': return [(st, False)]
            if s == 'token_to_id': return [(st, some(('id', E(x.args[1]))))]
            if s == 'decode' and len(x.args) == 3:
                v = self.plain(st, E(x.args[1]))
                return [(st, ('Ok', ('decoded', v, E(x.args[2]))))]
            ch, ps = channel(self.c, x)
            if ch is not None: return [(self.log(st, (ch, self.out(st, x, E, ps))), ('Ok', UNK))]
        if self.on is not None: return self.on(self, st, x, E)
        return None
    def key(self, k): return k
    def go(self):
        d = {('obj', 'rx'): self.rx}
        self.run([(fz(d), (), ())], self.ev)
        return self.ends

def records(log, ch=None):
    """The records in the output of a log."""
    out = []
    for e in log:
        if e[0] in ('out', 'file') and (ch is None or e[0] == ch):
            for v in e[1]:
                if isinstance(v, tuple) and v[:1] == ('v',) and isinstance(v[1], tuple) and v[1][:1] == ('record',): out.append(dict(v[1][1]))
    return out
