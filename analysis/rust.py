"""Queries on the event graph of one command: pruned path exploration, provenance of values, the
meaning of format strings, and the tables of command line options."""
import os, sys, json, collections, re
import absint
from absint import Facts, Engine, V, mk, show, subterms, UNDEF, TRUE, FALSE

HERE = os.path.dirname(os.path.abspath(__file__))
COMMANDS = ('Topk', 'Botk', 'Count', 'Search', 'Stats', 'Unique')

class Missing(Exception):
    """A construct the command cannot do without was not found."""
class Gone(Exception):
    """A function named in a rule is not there (renamed, or replaced by something unknown): not decided."""

class Violation:
    def __init__(self, rule, where, what, trace=()):
        self.rule = rule; self.where = where; self.what = what; self.trace = list(trace)
    def key(self): return self.rule + ':' + self.where
    def text(self):
        return '%s at %s: %s' % (self.rule, self.where, self.what) + ''.join('\n    via ' + t for t in self.trace)

def loc(span):
    s = span or '?'
    for p in ('/repo/',):
        if s.startswith(p): s = s[len(p):]
    return s

# ---------------------------------------------------------------- options
def option_tables(F):
    """(options type, field) -> option name, and name -> declaration, from the derived clap code."""
    names = {}; decl = collections.defaultdict(dict)
    for b in F.bodies.values():
        if b['n'] not in ('StructOpt::from_clap', 'StructOptInternal::augment_clap'): continue
        if not b['local'] or b['closure']: continue
        e = Engine(F).run(b['id'])
        mod = b['p'].split('::{')[0]
        for n in e.nlist:
            for ev in n.events:
                if b['n'] == 'StructOpt::from_clap' and ev.kind == 'return':
                    v = ev.args[0]
                    ty = F.types[b['locals'][0]]
                    if v.op != 'struct' or ty['k'] != 'adt' or ty.get('enum'): continue
                    for (fn, ft), x in zip(ty['variants'][0][2], v.a[1]):
                        for t in deep(e, x):
                            if t.op == 'call' and t.a[0].startswith('ArgMatches::') and len(t.a) > 3:
                                k = peel(t.a[3])
                                if k.op == 'const': names[(ty['p'], fn)] = (k.a[0], x)
                elif ev.kind == 'call' and ev.name == 'App::arg':
                    d = {}
                    t = ev.args[1]
                    while t.op == 'call' and t.a[0].startswith('Arg::'):
                        d.setdefault(t.a[0][5:], peel(t.a[3]).a[0] if len(t.a) > 3 and peel(t.a[3]).op == 'const' else None)
                        t = t.a[2]
                    if t.op == 'call' and t.a[0] == 'Arg::with_name': d['name'] = peel(t.a[2]).a[0] if peel(t.a[2]).op == 'const' else None
                    decl[mod][ev.span, d.get('long'), d.get('help')] = (ev, d)
    return names, decl

def peel(t):
    while True:
        if t.op in ('&', 'deref'): t = t.a[0]
        elif t.op == 'cast': t = t.a[1]
        else: return t

def deep(e, v, limit=4000):
    """All terms v may be built from, through joins."""
    seen = set(); st = [v]
    while st and len(seen) < limit:
        x = st.pop()
        if isinstance(x, V):
            if x in seen: continue
            seen.add(x)
            if x.op == 'phi': st.extend(e.phi.get(x, ()))
            st.extend(x.a)
        elif isinstance(x, (tuple, frozenset)): st.extend(x)
    return seen

# ---------------------------------------------------------------- a command
class Cmd:
    def __init__(self, F, name, optnames, snap=(), opaque=(), allphis=False):
        self.F = F; self.name = name
        e = Engine(F, snap); e.cmd = name
        e.optnames = optnames; e.opaque_names = frozenset(opaque); e.allphis = allphis
        e.run(F.entry)
        self.e = e
        self.nodes = e.nlist
        self.entry = e.entry
        self.options = {v for v in optnames.values()}
        self.events = [ev for n in self.nodes for ev in n.events]
        self._reach = {}
        self.workers = []
        seen = set()
        for n in self.nodes:
            for m, fa, lb in n.succ:
                if lb == 'spawn' and m.id not in seen: seen.add(m.id); self.workers.append(m)

    def opt(self, name): return mk('sym', 'opt', name)

    def find(self, *names, thread=None, kind=None):
        return [e for e in self.events if (not names or e.name in names) and (thread is None or e.thread == thread) and (kind is None or e.kind == kind)]

    def expand(self, v, depth=8):
        """The values a term may stand for, joins resolved."""
        out = []; seen = set(); st = [v]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if x.op == 'phi': st.extend(self.e.phi.get(x, ()))
            elif x.op == 'either': st.extend(x.a[0])
            else: out.append(x)
        return out

    def same(self, a, b):
        """Whether a (read earlier) and b (read later) are one value, up to joins in between."""
        if a is b: return True
        seen = set(); st = [b]
        while st:
            x = st.pop()
            if x is a: return True
            if x in seen: continue
            seen.add(x)
            if x.op == 'phi': st.extend(self.e.phi.get(x, ()))
            elif x.op == 'either': st.extend(x.a[0])
        xs = {y for y in self.expand(a) if y.op != 'undef'}; ys = {y for y in self.expand(b) if y.op != 'undef'}
        return bool(xs) and (xs <= ys)

    def deep(self, v): return deep(self.e, v)

    # -- path exploration
    def explore(self, starts, init, ev, edge=None, threads=False, track=None, eval0=None):
        """Runs a finite automaton over all paths.  ev(state, event) -> state, list of states or None
        (path ends); edge(state, node, succ, facts, label) -> state or None.  Returns parent links.
        With track (a set of joins), the constants these hold are followed along each path and
        branches they exclude are not taken; eval0 gives known values of other terms."""
        from ceval import Eval, UNK, NONE
        par = {}
        self.par = par; work = collections.deque()
        self.env = None
        evals = {}
        env0 = dict(eval0 or {})
        def evaluator(env):
            r = evals.get(env)
            if r is None:
                d = dict(env0); d.update((P, w) for _, P, w in env)
                r = evals[env] = Eval(self, d)
            return r
        E0 = frozenset()
        for n in starts:
            k = (n, init, E0)
            if k not in par: par[k] = None; work.append(k)
        while work:
            k = work.popleft()
            n, s, env = k
            self.env = evaluator(env) if track or env0 else None
            ss = [s]
            for x in n.events:
                nx = []
                for q in ss:
                    self.here = k
                    r = ev(q, x)
                    if r is None: continue
                    if isinstance(r, list): nx += r
                    else: nx.append(r)
                ss = nx
                if not ss: break
            for q in ss:
                for i, (m, fa, lb) in enumerate(n.succ):
                    if lb == 'spawn' and not threads: continue
                    self.here = k
                    env2 = env
                    if track or env0:
                        E = evaluator(env)
                        if not E.feasible(fa): continue
                        ep = self.e.edgephi.get((n.id, i)) if track else None
                        if ep:
                            d = {l: (P, w) for l, P, w in env}
                            for P, v in ep:
                                if P not in track: continue
                                w = E(v)
                                if isinstance(w, bool) or isinstance(w, int) and -2 <= w <= 3 or w == NONE: w = w
                                elif isinstance(w, int) and (1 << 63) <= w < (1 << 64): w = (1 << 64) - 1     # practically unlimited, also after counting down
                                elif isinstance(w, tuple) and w and w[0] in ('Some', 'Ok', 'Err'): w = (w[0], UNK)
                                elif v.op == 'struct' and v.a[0][0] == 'adt' and v.a[0][1] in ('Option', 'Result'): w = (v.a[0][3], UNK) if v.a[0][3] != 'None' else NONE
                                else: w = UNK
                                if w is UNK: d.pop(P.a[1], None)
                                else: d[P.a[1]] = (P, w)
                            env2 = frozenset((l, P, w) for l, (P, w) in d.items())
                    r = q if edge is None else edge(q, n, m, fa, lb)
                    if r is None: continue
                    k2 = (m, r, env2)
                    if k2 not in par: par[k2] = k; work.append(k2)
        return par

    def flags(self, nodes=None):
        """Joins whose constants decide branches (in the given nodes)."""
        out = set(); st = []
        inside = None if nodes is None else set(nodes)
        for n in self.nodes:
            for m, fa, lb in n.succ:
                # also a branch taken right after a call has returned
                if inside is not None and n not in inside and m not in inside: continue
                for t, v in fa: st += [x for x in subterms(t) if x.op == 'phi']
        while st:
            x = st.pop()
            if x in out: continue
            ss = self.e.phi.get(x, ())
            if not any(y.op in ('const', 'phi') or y.op == 'bin' or y.op == 'struct' for y in ss): continue
            if len(ss) > 8: continue
            out.add(x)
            for y in ss: st += [z for z in subterms(y) if z.op == 'phi']
        return out

    def trace(self, key=None, par=None, last=24):
        """Source lines of the path that led to key (default: the one being explored)."""
        par = par or self.par
        key = key or self.here
        path = []
        while key is not None:
            path.append(key); key = par.get(key)
        out = []
        for n, s, _ in reversed(path):
            for x in n.events:
                if not x.span: continue
                l = loc(x.span)
                if l.startswith('/'): continue
                t = '%s %s' % (l, x.name)
                if not out or out[-1] != t: out.append(t)
        return out[-last:]

    def assume(self, **kw):
        """Edge filter for assumed option values: json=True/False or out=Some/None via strings."""
        tab = {}
        for k, v in kw.items():
            o = self.opt(k.replace('_', '-'))
            if isinstance(v, bool): tab[o] = v
            else: tab[mk('discr', o)] = {'Some': 1, 'None': 0}[v]
        def ok(facts):
            for t, x in facts:
                w = tab.get(t)
                if w is None:
                    w = self.implied(t, tab)
                    if w is None: continue
                if isinstance(x, tuple):
                    if w in x[1]: return False
                elif x != w: return False
            return True
        return ok

    def implied(self, t, tab):
        """Value of a condition on an option under the assumptions, if it has one."""
        if t.op == 'call' and t.a[0] in ('Option::is_none', 'Option::is_some'):
            w = tab.get(mk('discr', peel(t.a[2])))
            if w is not None: return bool(w) == (t.a[0] == 'Option::is_some')
        if t.op == 'bin' and t.a[0] == 'Eq' and t.a[2].op == 'const':
            w = tab.get(t.a[1])
            if w is not None: return int(w) == t.a[2].a[0]
        return None

# ---------------------------------------------------------------- format strings
def pieces(t, d=8):
    """The text a term denotes: list of str and (how, term)."""
    t0 = t
    while t.op in ('&', 'deref'): t = t.a[0]
    if d == 0: return [('?', t)]
    if t.op == 'const' and t.a[1] == 'str': return [t.a[0]]
    if t.op == 'const' and t.a[1] == 'bytes':
        try: return [t.a[0].decode()]
        except Exception: return [('?', t)]
    if t.op == 'call':
        n = t.a[0]
        if n in ('fmt::format', 'io::format'): return pieces(t.a[2], d)
        if n == 'Arguments::from_str': return pieces(t.a[2], d)
        if n in ('Arguments::new', 'Arguments::new_v1', 'Arguments::new_const'):
            tpl = peel(t.a[2]); arr = peel(t.a[3]) if len(t.a) > 3 else None
            if tpl.op != 'const': return [('?', t)]
            xs = arr.a[1] if arr is not None and arr.op == 'struct' else ()
            return merge(template(tpl.a[0], xs, d))
        if n in ('ToString::to_string',) and len(t.a) > 2: return [('display', peel(t.a[2]))]
    return [('display', t)]

def template(b, args, d):
    out = []; i = 0; nxt = 0
    if isinstance(b, str): b = b.encode('latin-1', 'replace')
    while i < len(b):
        c = b[i]; i += 1
        if c == 0: break
        if c < 0x80: out.append(b[i:i + c].decode('utf-8', 'replace')); i += c
        elif c == 0x80:
            k = b[i] | b[i + 1] << 8; i += 2
            out.append(b[i:i + k].decode('utf-8', 'replace')); i += k
        else:
            opts = None
            if c & 1: i += 4; opts = 'f'
            if c & 2: i += 2; opts = 'w'
            if c & 4: i += 2; opts = 'p'
            k = nxt
            if c & 8: k = b[i] | b[i + 1] << 8; i += 2
            nxt = k + 1
            a = peel(args[k]) if k < len(args) else None
            if a is None: out.append(('?', None)); continue
            if a.op == 'call' and a.a[0].startswith('Argument::new_'):
                how = a.a[0][len('Argument::new_'):]
                if how == 'display' and opts is None: out += pieces(a.a[2], d - 1)
                else: out.append((how + (opts or ''), peel(a.a[2])))
            else: out.append(('?', a))
    return out

def merge(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and out and isinstance(out[-1], str): out[-1] += p
        else: out.append(p)
    return out

# ---------------------------------------------------------------- loading
_loaded = None
def load(path=None):
    global _loaded
    if _loaded is None:
        sys.setrecursionlimit(20000)
        F = Facts(path or os.environ.get('WIMBD_FACTS') or '/tmp/bin.json')
        names, decl = option_tables(F)
        _loaded = (F, names, decl)
    return _loaded

def optname_map(names, decl):
    """(options type, field) -> long name of the option (short or argument name without one)."""
    long = {}
    for m, ds in decl.items():
        for ev, d in ds.values():
            if d.get('name'): long[m, d['name']] = (d.get('long') or d.get('short') or d['name']).lstrip('-')
    return {k: long.get((k[0].rsplit('::', 1)[0], v[0]), v[0]) for k, v in names.items()}
