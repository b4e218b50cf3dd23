"""A whole command: the main thread and the jobs it starts, interleaved at every access to what they
share, over small documents of uninterpreted tokens.  Nothing fails in these runs (failures are C01)."""
from mainsim import *
from rules_ngrams import words
import re, time
STARTED = time.time(); BUDGET = 700      # seconds after which an exploration is given up (undecided)

SENDS = ('SyncSender::send', 'Sender::send', 'SyncSender::try_send')
class Prog(Main):
    """State: (objects, positions of the running thread's iterators, log)."""
    spawned = True; reverse = False; partial = None; fail = ()      # fail: (path, line) whose first read fails
    def __init__(self, c, opts, files, on=None, value=None, typemax=None):
        """files: path -> documents; a document is None (no text) or a tuple of tokens."""
        self.files = files; self.on2 = on; self.cur = 0
        self.mapids = set(); self._lines = {}
        super().__init__(c, dict({'path': V_(tuple(files)), 'workers': some(2)}, **opts), on=Prog.event2, value=value, paths=tuple(files))
        if typemax: self.typemax = typemax
        self.results = {}
    # -- values
    def hook(self, st, t, E):
        if t.op == 'fld' and t.a[0].op == 'call' and t.a[0].a[0] in ('mpsc::sync_channel', 'mpsc::channel'): return RX if t.a[2] == '1' else ('tx',)
        if t.op == 'call' and t.a[0] in ('Mutex::new', 'RwLock::new', 'RefCell::new', 'Cell::new') and len(t.a) > 2: return E(t.a[2])
        if t.op in ('struct',) and t.a[0][0] == 'adt' and t.a[0][1] in ('Mutex', 'RwLock', 'MutexGuard', 'Arc', 'Rc', 'Box', 'NonNull', 'Cow') and t.a[1]: return E(t.a[1][0])
        if t.op == 'fld' and t.a[1] in ('MutexGuard', 'Mutex', 'RwLock', 'Arc', 'Box', 'NonNull', 'Unique'): 
            v = E(t.a[0])
            if isinstance(v, tuple) and v[:1] in (('new',), ('obj',)): return v
        if t.op == 'locked' and len(t.a) > 2: return E(t.a[2])
        return super().hook(st, t, E)
    def is_map(self, o): return o[0] == 'new' and o[1] in self.mapids
    def same_kind(self, new, old):
        if self.is_map(old): self.mapids.add(new[1])
    def key(self, k): return k
    def objof(self, t, E):
        v = E(t)
        while isinstance(v, tuple) and v and v[0] == 'slot': v = v[3]
        return v if isinstance(v, tuple) and v and v[0] in ('obj', 'new') else None
    def fresh(self, st, i):
        objs = st if isinstance(st, dict) else dict(st[0])
        n = 0
        while ('new', i, self.cur, n) in objs: n += 1
        return ('new', i, self.cur, n)
    # -- events
    def event(self, s, x, v, ev):
        if x.kind != 'lock': return super().event(s, x, v, ev)
        o = self.lock_of(x, self.evaluator(v, s))
        v2 = frozenset(p for p in v if p[0] != ('s', x.site))
        return [(s, v2 | {(('s', x.site), o)} if o is not None else v2)]
    def event2(self, st, x, E): return self.on2(self, st, x, E) if self.on2 is not None else None
    def default(self, st, x, E):
        n = x.name; s = n.rsplit('::', 1)[-1]; objs = dict(st[0])
        if x.kind == 'call' and x.ret is not None and x.ret.op == 'call' and (NEW.match(n) or n in ('Default::default', 'collect')):
            o = self.fresh(objs, x.ret.id); objs[o] = ()
            if n.startswith(('HashMap', 'BTreeMap')) or (x.x or {}).get('rt') in ('HashMap', 'BTreeMap'): self.mapids.add(x.ret.id)
            its = dict(st[1]); its.pop((o, None), None)
            return [((fz(objs), fz(its), st[2]), o)]
        if n == 'Atomic::new':
            o = ('obj', 'atomic', x.site if x.site is not None else x.ret.id); k = 0
            while o + (self.cur, k) in objs: k += 1
            o += (self.cur, k); objs[o] = ('atomic', E(x.args[0]))
            return [((fz(objs), st[1], st[2]), o)]
        if x.kind == 'lock': return [((fz(objs), st[1], st[2]), UNK)]
        if x.kind == 'drop': st = self.release(st, x, E); return (st, UNK)
        if s in ('get_mut', 'as_mut', 'into_inner') and n.startswith(('Mutex', 'Arc', 'Rc', 'RwLock')): return (st, ('Ok', E(x.args[0])) if 'lock' in n or 'Mutex' in n else some(E(x.args[0])))
        # maps with containers as values
        if x.kind == 'call' and n.endswith('Map::entry'):
            o = self.objof(x.args[0], E)
            if o is None or o not in objs: return (st, UNK)
            return (st, ('entry', o, self.key2(st, E(x.args[1]))))
        if n == 'prim::entry_vacant':
            e = E(x.args[0]); return (st, UNK if not (isinstance(e, tuple) and e[:1] == ('entry',)) else e[2] not in dict(objs[e[1]]))
        if x.kind == 'call' and n.startswith('Entry::or_') or n in ('OccupiedEntry::into_mut', 'prim::entry_get', 'prim::entry_put'):
            e = E(x.args[0])
            if not (isinstance(e, tuple) and e[:1] == ('entry',)): return (st, UNK)
            m = dict(objs[e[1]]); k = e[2]
            if k not in m:
                v = E(x.args[1]) if len(x.args) > 1 else UNK
                if v is UNK:
                    rs = (x.x or {}).get('rs') or ''
                    if re.search(r'(Vec|VecDeque|HashMap|HashSet|BTreeMap|BTreeSet|String)\b', rs):
                        v = self.fresh(objs, x.ret.id); objs[v] = ()
                        if re.search(r'&mut (\w+::)*(HashMap|BTreeMap)', rs): self.mapids.add(x.ret.id)
                    elif re.search(r'[ui](size|\d+)$', rs): v = 0
                m[k] = v; objs[e[1]] = fzm(m)
            return [((fz(objs), st[1], st[2]), ('slot', e[1], k, m[k]))]
        if x.kind == 'call' and re.match(r'(HashMap|BTreeMap)::(insert|get|get_mut|remove|contains_key)$', n) or n == 'Index::index' and x.args and self.is_map_(objs, E(x.args[0])):
            o = self.objof(x.args[0], E)
            if o is None or o not in objs: return (st, UNK)
            k = self.key2(st, E(x.args[1])); m = dict(objs[o])
            if has_unk2(k): return (st, UNK)
            if s == 'insert':
                old = some(m[k]) if k in m else NONE
                m[k] = E(x.args[2]); objs[o] = fzm(m)
                return [((fz(objs), st[1], st[2]), old)]
            if s == 'contains_key': return (st, k in m)
            if s == 'remove':
                old = some(m.pop(k)) if k in m else NONE
                objs[o] = fzm(m); return [((fz(objs), st[1], st[2]), old)]
            if s == 'get': return (st, some(m[k]) if k in m else NONE)
            if s == 'index': return (st, m[k]) if k in m else []
            return (st, some(('slot', o, k, m[k])) if k in m else NONE)
        # files and lines
        f = ('file', self.cur)
        if n == 'File::open':
            p = E(x.args[0])
            if p in self.files: objs[f] = (p, 0); return [((fz(objs), st[1], st[2]), ('Ok', UNK))]
        if n == 'BufRead::read_line' and f in objs:
            p, i = objs[f]
            if (p, i) in self.fail and ('failed', p, i) not in objs:
                objs[('failed', p, i)] = True; return [((fz(objs), st[1], st[2]), ('Err', UNK))]
            if i >= len(self.files[p]): return (st, ('Ok', 0))
            objs[f] = (p, i + 1)
            return [((fz(objs), st[1], st[2]), ('Ok', self.bytes(p, i)))]
        if s in ('len', 'is_empty', 'trim', 'trim_end', 'trim_end_matches') and n.startswith(('str', 'String')) and f in objs and objs[f][1]:
            p, i = objs[f]; a0 = E(x.args[0]); tr = isinstance(a0, tuple) and a0[:1] == ('trimmed',)
            if tr or self.is_line(x.args[0]):
                if s == 'len': return (st, self.bytes(p, i - 1) - (1 if tr else 0))
                return (st, False if s == 'is_empty' else ('trimmed', p, i - 1))
        if n == 'de::from_str' and f in objs and objs[f][1]:
            p, i = objs[f]; i -= 1
            return (st, ('Ok', S('DataInstance::DataInstance', NONE if self.files[p][i] is None else some(('text', p, i)))))
        if s in ('split_word_bounds', 'unicode_words', 'encode', 'encode_fast', 'split_whitespace', 'split_word_bound_indices'):
            t = next((v for v in (E(a) for a in x.args) if isinstance(v, tuple) and v[:1] == ('text',) or isinstance(v, str)), None)
            if t is None: return (st, UNK)
            ws = tuple(t.split('|')) if isinstance(t, str) else self.files[t[1]][t[2]]
            if s == 'split_word_bounds': return self.makef(st, x, ws)
            if s in ('encode', 'encode_fast'): return (st, ('Ok', ('enc', t, ws)))
            return self.makef(st, x, ('?',))
        if s == 'get_tokens':
            e = E(x.args[0])
            if isinstance(e, tuple) and e[:1] == ('enc',): return (st, V_(e[2]))
        if n in SENDS:
            v = self.freeze(st, E(x.args[1])); objs[RX] = (v,) + objs.get(RX, ()) if self.reverse else objs.get(RX, ()) + (v,)
            return [((fz(objs), st[1], st[2]), ('Ok', UNK))]
        if n == 'ThreadPool::panic_count': return (st, 0)
        if s == "file_name": return (st, some("f"))
        if n == "num_cpus::get": return (st, 4)
        return super().default(st, x, E)
    def is_map_(self, objs, v):
        while isinstance(v, tuple) and v and v[0] == 'slot': v = v[3]
        return isinstance(v, tuple) and v[:1] == ('new',) and self.is_map(v)
    def key2(self, st, k): return self.freeze(st, k)
    def bytes(self, p, i): return 40 + 7 * i + 100 * sorted(self.files).index(p)
    def is_line(self, t):
        """Whether a term is the buffer a line was read into."""
        r = self._lines.get(t)
        if r is None:
            seen = set(); q = [t]; r = False
            while q and not r:
                y = q.pop()
                if y in seen: continue
                seen.add(y)
                if y.op == 'mut' and y.a[0] == 'BufRead::read_line': r = True
                elif y.op == 'phi': q.extend(self.c.e.phi.get(y, ()))
                elif y.op == 'either': q.extend(y.a[0])
                elif y.op == 'mut': q.append(y.a[2])
                elif y.op in ('&', 'ref', 'deref', 'fld', 'proj', 'struct'): q += [z for z in y.a if isinstance(z, V)]
                elif y.op == 'call' and y.a[0].rsplit('::', 1)[-1] in ('deref', 'as_str', 'clone', 'as_ref', 'borrow', 'to_string', 'to_owned') and len(y.a) > 2: q.append(y.a[2])
            self._lines[t] = r
        return r
    def makef(self, st, x, xs):
        o = self.fresh(st, x.ret.id); objs = dict(st[0]); objs[o] = tuple(xs)
        return [((fz(objs), st[1], st[2]), o)]
    # -- threads
    def shared(self, st, x, E, objs):
        """Whether another thread can tell when this event happens."""
        if x.kind == 'lock':
            o = self.lock_of(x, E); return o is not None
        if x.name.startswith('Atomic::') and x.name != 'Atomic::new' and x.kind == 'call':
            o = E(x.args[0])
            if not (isinstance(o, tuple) and o[:2] == ('obj', 'atomic') and o[3] == 0 and o in objs): return False
            if self.nth: self.access.setdefault(o, set()).add(self.op_kind(x))
            return o in self.conflicts
        if self.waits(x, E): return True
        return False
    def op_kind(self, x):
        s = x.name[8:]
        if s == 'load' or s in ('fetch_add', 'fetch_max', 'fetch_min', 'fetch_or', 'fetch_and') and ('s', x.site) not in self.used: return s
        return 'other'
    def lock_of(self, x, E):
        v = E(x.args[0]) if x.args else UNK
        return v if isinstance(v, tuple) and v and v[0] in ('new', 'obj') else None
    def waits(self, x, E):
        if x.name in ('ThreadPool::join', 'JoinHandle::join'): return 'join'
        if (x.name == 'Iterator::next' or x.name.startswith('Receiver::recv')) and x.args and E(iterated(x.args[0])) == RX: return 'recv'
        return None
    def enabled(self, x, E, objs, tid, threads):
        w = self.waits(x, E)
        others = any(t[0] != tid for t in threads)
        if w == 'join': return not others
        if w == 'recv': return not others      # the order of arrival is that of the jobs, or its reverse
        if x.kind == 'lock':
            o = self.lock_of(x, E)
            return o is None or not any(k[:1] == ('held',) and k[1] == o for k in objs)
        return True
    def explore_all(self, limit=60000):
        """Explores the interleavings at all accesses that do not commute with those of other threads."""
        self.used = set().union(*self.L.values()); self.conflicts = set()
        while True:
            self.access = {}; self.results = {}
            try: self.explore1(limit)
            except TooMany as ex: self.partial = ex; return
            new = {o for o, k in self.access.items() if len(k) > 1 or 'other' in k} - self.conflicts
            if not new: return
            self.conflicts |= new
    def explore1(self, limit):
        init = ((0, self.start, 0, frozenset(), ()),)
        k0 = (fz({RX: ()}), (), init)
        par = {k0: None}; work = [k0]; self.par = par; self.memo = {}; self.steps = 0; self.limit = limit
        while work:
            k = work.pop()
            for k2, path in self.step_all(k):
                if k2 not in par:
                    par[k2] = (k, path); work.append(k2)
                    if len(par) > limit or len(par) % 64 == 0 and time.time() - STARTED > BUDGET: raise TooMany(self.c.name)
    def at_shared(self, k, th):
        """The event the thread is about to execute, if another thread can tell when it happens."""
        tid, n, i, env, its = th; self.cur = tid
        if i >= len(n.events): return None
        x = n.events[i]
        return x if self.shared((k[0], its, k[1]), x, self.evaluator(env, (k[0], its, k[1])), dict(k[0])) else None
    def step_all(self, k):
        objs, log, threads = k
        self.nth = len(threads) > 1
        od = dict(objs); opts = []
        for th in threads:
            x = self.at_shared(k, th)
            if x is None: opts = [th]; break
            tid, n, i, env, its = th
            if self.enabled(x, self.evaluator(env, (objs, its, log)), od, tid, threads): opts.append(th)
        out = []
        for th in opts: out += self.segment(k, th)
        return out
    def segment(self, k, th):
        """One thread runs up to its next access to something shared: what it does depends only on what it
        can reach."""
        objs, log, threads = k; tid = th[0]
        d = dict(objs); view = set(); work = [o for a, v in th[3] for o in self.refs(v)] + [p[0] for p in th[4]]
        for o in d:
            if self.garbage(o):
                if o[2 if o[0] == 'new' else 3] == tid: work.append(o)
            elif not (o[0] == 'file' and o[1] != tid) and o[0] != 'held': work.append(o)
        while work:
            o = work.pop()
            if o in view or o not in d: continue
            view.add(o); work += self.refs(d[o])
        for o in d:
            if o[0] == 'held' and o[1] in view: view.add(o)
        key = (frozenset((o, d[o]) for o in view), log, th, len(threads) > 1)
        r = self.memo.get(key)
        if r is None: r = self.memo[key] = self.run_segment(k, key, view)
        rest = tuple(t for t in threads if t[0] != tid); out = []
        for (objs2, log2, ths2), path in r:
            d2 = {o: v for o, v in d.items() if o not in view}; d2.update(objs2)
            ths = tuple(sorted(rest + ths2, key=lambda t: t[0]))
            o3, t3 = self.collect(fz(d2), ths)
            out.append(((o3, log2, t3), path))
        return out
    def run_segment(self, k, key, keep):
        view, log, th, others = key; tid = th[0]; self.base = k; self.keep = keep
        start = (view, log, (th,)); seen = {start: None}; work = [start]; out = []
        while work:
            q = work.pop()
            me = next((t for t in q[2] if t[0] == tid), None)
            self.nth = others or len(q[2]) > 1
            if me is None or q is not start and self.at_shared(q, me) is not None:
                path = []; z = q
                while z is not None: path.append(next(((t[1], t[2]) for t in z[2] if t[0] == tid), None)); z = seen[z]
                out.append((q, (tid,) + tuple(path[::-1]))); continue
            for q2 in self.step_one(q, me):
                if q2 not in seen:
                    seen[q2] = q; work.append(q2); self.steps += 1
                    if self.steps > 5 * self.limit or self.steps % 64 == 0 and time.time() - STARTED > BUDGET: raise TooMany(self.c.name)
        return out
    def step_one(self, k, th):
        """One thread runs up to its next access to something shared, or to a branch."""
        objs, log, threads = k
        tid, n, i, env, its = th; self.cur = tid; self.c.here = k
        rest = tuple(t for t in threads if t[0] != tid)
        cur = [((objs, its, log), env)]; out = []; started = []
        first = True
        while i < len(n.events):
            x = n.events[i]
            if not first:
                keep = []
                for st, v in cur:
                    if self.shared(st, x, self.evaluator(v, st), dict(st[0])): out.append(self.conf(st, rest, (tid, n, i, v, st[1])))
                    else: keep.append((st, v))
                cur = keep
            first = False
            nx = []
            for st, v in cur:
                if x.kind == 'return' and not n.succ:
                    if tid == 0:
                        E = self.evaluator(v, st); w = E(x.args[0]) if x.args else UNK
                        self.finish_(st, w, self.base)
                    else: out.append((self.scrub(st[0], tid), st[2], rest))
                    continue
                nx += self.event(st, x, v, self.ev)
            cur = list(dict.fromkeys(nx)); i += 1
            if not cur: break
        for st, v in cur:
            E = self.evaluator(v, st); new = []
            for j, (m, fa, lb) in enumerate(n.succ):
                if lb == 'spawn' and E.feasible(fa):
                    nxt = dict(st[0]).get(('jobs',), 0) + 1 + len(new)
                    new.append((nxt, m, 0, self.follow(n, j, m, E, v), frozenset()))
            if new:
                d = dict(st[0]); d[('jobs',)] = d.get(('jobs',), 0) + len(new); st = (fz(d), st[1], st[2])
            if not n.succ and tid != 0: out.append((self.scrub(st[0], tid), st[2], rest)); continue
            for j, (m, fa, lb) in enumerate(n.succ):
                if lb == 'spawn' or not E.feasible(fa): continue
                s2 = self.on_edge(st, n, m, fa, E)
                if s2 is None: continue
                out.append(self.conf(s2, rest + tuple(new), (tid, m, 0, self.follow(n, j, m, E, v), s2[1])))
        return out
    def on_edge(self, st, n, m, fa, E):
        """Locks are taken; they are never poisoned in these runs."""
        for t, v in fa:
            if t.op != 'lockres': continue
            x = next((x for x in n.events if x.kind == 'lock' and x.site == t.a[0]), None)
            if x is None: continue
            if v == 'Err' and 'try_' not in x.name: return None
            o = self.lock_of(x, E)
            if o is None or v == 'Err': continue
            d = dict(st[0])
            if ('held', o) in d: return None
            d[('held', o)] = self.cur; st = (fz(d), st[1], st[2])
        return st
    def release(self, st, x, E):
        """The guards a dropped value owns are given back."""
        gs = [y for a in x.args if isinstance(a, V) for y in subterms(a) if y.op == 'struct' and y.a[0][0] == 'adt' and y.a[0][1].endswith('Guard')]
        if not gs: return st
        d = dict(st[0]); ch = False
        for g in gs:
            o = E(g)
            if ('held', o) in d and d[('held', o)] == self.cur: del d[('held', o)]; ch = True
        return (fz(d), st[1], st[2]) if ch else st
    def collect(self, objs, threads, keep=()):
        """Objects nobody refers to any more are forgotten."""
        d = dict(objs); live = set(); work = []
        for th in threads:
            for a, v in th[3]: work += self.refs(v)
        for o, v in d.items():
            if not self.garbage(o) and o[:1] != ('held',): work += self.refs(v)
        while work:
            o = work.pop()
            if o in live: continue
            live.add(o)
            if o in d: work += self.refs(d[o])
        dead = [o for o in d if self.garbage(o) and o not in live and o not in keep]
        if not dead: return objs, threads
        dead = set(dead)
        return fz({o: v for o, v in d.items() if o not in dead}), tuple(th[:4] + (frozenset(p for p in th[4] if p[0][0] not in dead),) for th in threads)
    def garbage(self, o): return isinstance(o, tuple) and (len(o) == 4 and o[0] == 'new' or o[:2] == ('obj', 'atomic'))
    def refs(self, v):
        r = self._refs.get(v)
        if r is None:
            out = []; q = [v]
            while q:
                y = q.pop()
                if isinstance(y, tuple):
                    if self.garbage(y): out.append(y)
                    else: q.extend(y)
            r = self._refs[v] = tuple(set(out))
        return r
    _refs = {}
    def scrub(self, objs, tid):
        """What is left of a thread that has ended."""
        return objs
    def conf(self, st, rest, th):
        ths = tuple(sorted(rest + (th,), key=lambda t: t[0]))
        objs, ths = self.collect(st[0], ths, self.keep)
        return (objs, st[2], ths)
    def finish_(self, st, w, k):
        how = w[0] if isinstance(w, tuple) and w else '?'
        self.results.setdefault((st[2], how), (st, k))
    def trace_all(self, k):
        """Places of the thread steps that led to k."""
        steps = []
        while k is not None and self.par.get(k) is not None: k, path = self.par[k]; steps.append(path)
        out = []
        for path in reversed(steps):
            for q in path[1:]:
                for x in q[0].events[q[1]:] if q is not None else ():
                    l = loc(x.span)
                    if l.startswith('/'): continue
                    t = 'thread %d %s %s' % (path[0], l, x.name)
                    if not out or out[-1] != t: out.append(t)
        return out[-60:]
