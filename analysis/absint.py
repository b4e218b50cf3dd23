"""Interprocedural abstract interpretation of the resolved MIR dumped by the driver.

The abstract domain is a value-provenance domain: every place holds an interned term (constants,
structures, references to abstract places, results of opaque calls, joins).  Calls of local
functions, of closures and of the modelled library functions are analysed in the context of their
call string, so that where a piece of code sits (inline, helper, closure, adapter) does not matter.
States are joined per program point and *partition key* (known enum variants and booleans of live
places); joins make `phi` terms.  The result is a graph whose nodes are (context, block, key) with
events (opaque calls, stores through references, drops) and whose edges carry the facts (branch
outcomes) they add.  No path is executed and no solver is used; loops are closed by fixpoint.
"""
import json, collections, sys, heapq, re

# ---------------------------------------------------------------- terms
class V:
    __slots__ = ('op', 'a', 'mask', 'id', 'vk', 'rts')
    def __repr__(self): return show(self)

_tab = {}
_E = frozenset()
_bits = {}
def bit(key):
    b = _bits.get(key)
    if b is None:
        b = 1 << len(_bits)
        _bits[key] = b
    return b

def mk(op, *a):
    k = (op, a)
    v = _tab.get(k)
    if v is None:
        v = V(); v.op = op; v.a = a; v.id = len(_tab); v.vk = 0
        m = 0; rts = _E
        stack = list(a)
        while stack:
            x = stack.pop()
            if isinstance(x, V):
                m |= x.mask
                if x.rts is not rts and x.rts: rts = rts | x.rts if rts else x.rts
            elif isinstance(x, (tuple, frozenset)): stack.extend(x)
        if op == 'ref': rts = rts | {a[0]}
        elif op == 'phi': rts = rts | {v}
        v.rts = rts
        if op == 'call' and a[1] is not None: m |= bit(('s', a[1]))
        elif op == 'old' and a[1] == 1: m |= bit(('s', a[0]))
        if op == 'phi': m |= bit(('p', a[0], a[1]))
        v.mask = m
        _tab[k] = v
    return v

UNDEF = mk('undef')
TRUE = mk('const', 1, 'bool')
FALSE = mk('const', 0, 'bool')
UNIT = mk('struct', ('tuple',), ())

def kint(n, ty='usize'): return mk('const', n, ty)
def is_const(v): return v.op == 'const'

_rs_cache = {}
def show(v, d=6):
    if not isinstance(v, V): return repr(v)
    if d == 0: return '…'
    s = lambda x: show(x, d - 1)
    o, a = v.op, v.a
    if o == 'const': return repr(a[0]) if a[1] in ('str', 'bytes') else str(a[0])
    if o == 'struct':
        h = a[0]
        n = h[1] + ('::' + h[3] if h[0] == 'adt' and h[3] != h[1] else '') if h[0] == 'adt' else h[0]
        return n + '(' + ', '.join(s(x) for x in a[1]) + ')'
    if o == 'call': return f"{a[0]}{'@%d' % a[1] if a[1] is not None else ''}(" + ', '.join(s(x) for x in a[2:]) + ')'
    if o == 'fld': return f"{s(a[0])}.{a[2]}"
    if o == 'proj': return f"{s(a[0])}:{a[1]}.{a[2]}"
    if o == 'ref': return '&' + str(a[0] if a[0][0] != 't' else ('t', show(a[0][1], d-1))) + ''.join('.' + str(p[3] if len(p) > 3 else p[1]) for p in a[1])
    if o == '&': return '&' + s(a[0])
    if o == 'deref': return '*' + s(a[0])
    if o == 'bin': return f"({s(a[1])} {a[0]} {s(a[2])})"
    if o == 'un': return f"{a[0]}({s(a[1])})"
    if o == 'cast': return f"{s(a[1])} as {a[0]}"
    if o == 'mut': return f"mut:{a[0]}({', '.join(s(x) for x in a[2:])})"
    if o == 'phi': return f"phi{a[0]}[{'.'.join(map(str, a[1][-2:]))}]"
    if o == 'upd': return f"{s(a[0])}{{{a[1]}:={s(a[2])}}}"
    return o + '(' + ', '.join(s(x) for x in a) + ')'

def subterms(v, seen=None):
    """All terms occurring in v (not through phi)."""
    seen = set() if seen is None else seen
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, V):
            if x in seen: continue
            seen.add(x); st.extend(x.a)
        elif isinstance(x, (tuple, frozenset)): st.extend(x)
    return seen

def rewrite(v, f, memo):
    """Bottom-up rewriting; f(v) returns a replacement or None."""
    r = memo.get(v)
    if r is not None: return r
    r = f(v)
    if r is None:
        ch = False
        na = []
        for x in v.a:
            y = _rw(x, f, memo)
            if y is not x: ch = True
            na.append(y)
        r = remake(v.op, na) if ch else v
    memo[v] = r
    return r
def _rw(x, f, memo):
    if isinstance(x, V): return rewrite(x, f, memo)
    if isinstance(x, tuple):
        y = tuple(_rw(z, f, memo) for z in x)
        return x if all(p is q for p, q in zip(x, y)) else y
    if isinstance(x, frozenset):
        y = frozenset(_rw(z, f, memo) for z in x)
        return x if y == x else y
    return x
def remake(op, na):
    if op == 'deref': return deref(na[0])
    if op == 'ref' and na[0][0] == 't' and not na[1]: return na[0][1]
    return mk(op, *na)

def deref(t):
    if t.op == '&': return t.a[0]
    return mk('deref', t)

# ---------------------------------------------------------------- facts file
class Facts:
    def __init__(self, path):
        d = json.load(open(path))
        self.bodies = {b['id']: b for b in d['bodies']}
        self.types = d['types']
        self.entry = d['entry']
        self.roots = d['roots']
        self.vtab = {}
        for c, dy, m, k in d['vtable']:
            self.vtab[(c, m)] = k
        for b in self.bodies.values(): prep(b, self.types)

    def tshort(self, t): return self.types[t]['short']

def places_in(x, out):
    """Collects (local, projs) of operands/rvalues."""
    if isinstance(x, list):
        if len(x) == 3 and isinstance(x[0], int) and isinstance(x[1], list) and isinstance(x[2], int):
            out.append(x); return
        for y in x: places_in(y, out)

def prep(b, types):
    """Liveness of locals whose address is never taken; the others live until StorageDead."""
    n = len(b['locals'])
    borrowed = set()
    use = []; deff = []; succ = []
    for bl in b['blocks']:
        u, d = set(), set()
        if bl.get('cleanup'):
            use.append(u); deff.append(d); succ.append([]); continue
        def touch(op_or):
            ps = []; places_in(op_or, ps)
            for p in ps:
                for l in [p[0]] + [q[1] for q in p[1] if isinstance(q, list) and q[0] == 'i']:
                    if l not in d: u.add(l)
        for s in bl['s']:
            if s[0] == '=':
                rv = s[2]
                if rv[0] == 'ref' and '*' not in rv[1][1]: borrowed.add(rv[1][0])
                touch(rv)
                if not s[1][1]: d.add(s[1][0])
                else: touch(s[1])
            elif s[0] == 'sd': touch(s[1])
            elif s[0] in ('sl', 'sx'): d.add(s[1])
        t = bl['t']; sc = []
        if t[0] == 'goto': sc = [t[1]]
        elif t[0] == 'switch':
            touch(t[1]); sc = [x[1] for x in t[2]] + [t[3]]
        elif t[0] == 'drop': touch(t[1]); sc = [t[2]]
        elif t[0] == 'call':
            touch(t[2])
            if 'fnptr' in t[1]: touch(t[1]['fnptr'])
            if t[3][1]: touch(t[3])
            else: d.add(t[3][0])
            if t[4] is not None: sc = [t[4]]
        elif t[0] == 'assert': touch(t[1]); sc = [t[3]]
        elif t[0] == 'ret':
            if 0 not in d: u.add(0)
        use.append(u); deff.append(d); succ.append(sc)
    live = [set(u) for u in use]
    ch = True
    while ch:
        ch = False
        for i in range(len(live) - 1, -1, -1):
            o = set()
            for s in succ[i]: o |= live[s]
            nl = use[i] | (o - deff[i])
            if nl != live[i]: live[i] = nl; ch = True
    b['dead'] = [frozenset(l for l in range(n) if l not in live[i] and l not in borrowed) for i in range(len(live))]
    b['succ'] = succ
    np_ = [0] * len(succ)
    for sc in succ:
        for x in set(sc): np_[x] += 1
    b['chain'] = [k <= 1 and i != 0 or (i == 0 and k == 0) for i, k in enumerate(np_)]
    b['wto'] = wto(succ)

def wto(succ):
    """Position of each block in a weak topological order (inner loops contiguous)."""
    out = []
    def sccs(nodes, entry_first):
        idx = {}; low = {}; on = set(); st = []; res = []; cnt = [0]
        for root in entry_first:
            if root in idx or root not in nodes: continue
            stack = [(root, iter(succ[root]))]
            idx[root] = low[root] = cnt[0]; cnt[0] += 1; st.append(root); on.add(root)
            while stack:
                v, it = stack[-1]
                for w in it:
                    if w not in nodes: continue
                    if w not in idx:
                        idx[w] = low[w] = cnt[0]; cnt[0] += 1; st.append(w); on.add(w)
                        stack.append((w, iter(succ[w]))); break
                    elif w in on: low[v] = min(low[v], idx[w])
                else:
                    stack.pop()
                    if stack: low[stack[-1][0]] = min(low[stack[-1][0]], low[v])
                    if low[v] == idx[v]:
                        c = []
                        while True:
                            w = st.pop(); on.discard(w); c.append(w)
                            if w == v: break
                        res.append((c, v))
        return res[::-1]
    def go(nodes, order):
        for c, head in sccs(nodes, order):
            out.append(head)
            if len(c) > 1:
                rest = set(c) - {head}
                go(rest, [w for w in succ[head] if w in rest] + sorted(rest))
    go(set(range(len(succ))), [0] + list(range(1, len(succ))))
    pos = [0] * len(succ)
    for i, x in enumerate(out): pos[x] = i
    return pos

# ---------------------------------------------------------------- state
class State:
    __slots__ = ('store', 'facts')
    def __init__(self, store=None, facts=None):
        self.store = store if store is not None else {}
        self.facts = facts if facts is not None else {}
    def copy(self): return State(dict(self.store), dict(self.facts))

class Event:
    __slots__ = ('kind', 'name', 'args', 'ret', 'node', 'span', 'site', 'x', 'thread', 'state', 'ctx', 'raw', 'facts')
    def __init__(self, kind, name, args, ret, node, span, site, thread, x=None, state=None, ctx=None, raw=None):
        self.kind = kind; self.name = name; self.args = args; self.ret = ret; self.node = node
        self.span = span; self.site = site; self.thread = thread; self.x = x or {}; self.state = state; self.ctx = ctx
        self.raw = raw
    def __repr__(self): return f"<{self.kind} {self.name}({', '.join(show(a,4) for a in self.args)}) {self.span}>"

class Node:
    __slots__ = ('id', 'ctx', 'blk', 'key', 'state', 'succ', 'events', 'pred', 'term')
    def __init__(self, id, ctx, blk, key):
        self.id = id; self.ctx = ctx; self.blk = blk; self.key = key
        self.state = None; self.succ = []; self.events = []; self.pred = []; self.term = None

class Ctx:
    __slots__ = ('id', 'parent', 'body', 'ret', 'kind', 'depth', 'site', 'thread', 'prio')
    def __init__(self, id, parent, body, ret, kind, site):
        self.id = id; self.parent = parent; self.body = body; self.ret = ret; self.kind = kind
        self.depth = 0 if parent is None else parent.depth + 1
        self.site = site
        self.prio = () if parent is None else parent.prio + (parent.body['wto'][site[0]],)
        self.thread = 'worker' if kind == 'spawn' else (parent.thread if parent else 'main')

class Pos:
    """A block being executed on behalf of a node."""
    __slots__ = ('node', 'ctx', 'blk')
    def __init__(self, node, ctx, blk): self.node = node; self.ctx = ctx; self.blk = blk

IDENT = {  # the result stands for the argument (or what it points to)
    'Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'AsMut::as_mut', 'Borrow::borrow',
    'BorrowMut::borrow_mut', 'String::as_str', 'Vec::as_slice', 'Path::new', 'PathBuf::as_path', 'Path::as_os_str',
    'Vec::as_mut_slice', 'String::as_mut_str', 'OsString::as_os_str', 'slice::as_ref', 'Vec::leak', 'VecDeque::make_contiguous',
    'Arguments::as_ref', 'String::as_bytes', 'str::as_bytes', 'Rc::as_ref', 'PathBuf::as_os_str', 'as_str',
}
COPY = {  # the result is a copy of (what) the argument (points to)
    'Clone::clone', 'ToOwned::to_owned', 'ToString::to_string', 'Into::into', 'From::from', 'slice::to_vec',
    'Path::to_path_buf', 'slice::into_vec', 'String::into_boxed_str', 'Vec::into_boxed_slice', 'hint::must_use',
    'String::from_str', 'Clone::clone_from_', 'hint::black_box', 'String::into_bytes', 'PathBuf::into_os_string', 'OsStr::to_os_string',
    'Iterator::by_ref', 'Cow::into_owned', '__private::must_use', 'convert::identity', 'str::to_string', 'str::to_owned', 'PathBuf::from',
    'TryFrom::try_from_', 'IntoIterator::into_iter_', 'str::into_string', 'NonNull::as_ptr', 'boxed::box_assume_init_into_vec_unsafe', 'Cow::to_string',
    'Rc::unwrap_or_clone', 'Arc::unwrap_or_clone',
}
IMPURE = {  # each execution gives its own result
    'RandomState::new', 'Atomic::load', 'Atomic::store', 'Atomic::fetch_add', 'Atomic::fetch_sub', 'Atomic::fetch_max',
    'Atomic::fetch_min', 'Atomic::swap', 'Atomic::compare_exchange', 'Atomic::compare_exchange_weak', 'Atomic::fetch_update',
    'Atomic::fetch_or', 'Atomic::fetch_and', 'Atomic::fetch_xor',
    'Atomic::new', 'Instant::now', 'mpsc::sync_channel', 'mpsc::channel', 'rand::random', 'SeedableRng::from_entropy',
    'rng::thread_rng', 'Path::is_file', 'Path::is_dir', 'Path::exists', 'File::open', 'File::create', 'OpenOptions::open',
    'Mutex::lock', 'Mutex::try_lock', 'RwLock::read', 'RwLock::write', 'Receiver::recv', 'Receiver::try_recv', 'Receiver::recv_timeout', 'SyncSender::send', 'SyncSender::try_send',
    'Sender::send', 'Iterator::next', 'ThreadPool::execute', 'ThreadPool::join', 'ThreadPool::panic_count', 'fs::create_dir_all',
    'glob::glob', 'Tokenizer::from_pretrained', 'prim::nth', 'prim::nondet', 'prim::opaque', 'prim::entry_vacant', 'prim::entry_get', 'prim::entry_put', 'Random::random', 'StructOpt::from_args',
    'fs::read_dir', 'fs::metadata', 'Path::metadata', 'Path::try_exists', 'num_cpus::get', 'Write::write_fmt', 'Write::write_all', 'Write::flush', 'Write::write', 'stdio::_print', 'stdio::_eprint',
    'ThreadPool::active_count', 'ThreadPool::queued_count', 'Instant::elapsed', 'fs::rename', 'fs::remove_file', 'fs::write', 'fs::copy', 'fs::canonicalize',
}

def body_ty(body, pl): return pl[2] if not pl[1] and len(pl) > 2 else body['locals'][pl[0]]

NEW = re.compile(r'^(Vec|VecDeque|BTreeSet|BTreeMap|HashMap|HashSet|String|Box|BinaryHeap)::(new|with_capacity|with_capacity_and_hasher|default|with_hasher|new_in)$|^prim::new_cont|^prim::coll_new|^Default::default$')
MAPIT = re.compile(r'^(HashMap|BTreeMap)::(keys|values|values_mut|into_keys|into_values)$')
class Engine:
    cmd = None          # the subcommand under analysis: name of the variant
    opaque_names = ()   # functions of the crate that are kept as calls
    optnames = {}       # (path of the options type, field) -> name of the command line option
    def options(self, ty):
        """The parsed command line: symbols named after the options, for one subcommand."""
        t = self.F.types[ty]
        if t['k'] != 'adt' or not t.get('local') or not t.get('variants'): return None
        vs = t['variants']
        if t.get('enum'):
            for i, (nm, _, fs) in enumerate(vs):
                if nm == self.cmd:
                    return mk('struct', ('adt', t['adt'], i, nm, True), tuple(self.options(f[1]) or mk('sym', 'opt', f[0]) for f in fs))
            return None
        return mk('struct', ('adt', t['adt'], 0, vs[0][0], False),
                  tuple(self.options(ft) or mk('sym', 'opt', self.optnames.get((t['p'], fn), fn)) for fn, ft in vs[0][2]))

    def __init__(self, facts, snap=()):
        self.dvals = {}
        self.F = facts
        self.nodes = {}
        self.nlist = []
        self.ctxs = {}
        self.clist = []
        self.sites = {}
        self.site_info = {}
        self.phir = {}
        self.allphis = False; self._own = {}; self._bynode = {}; self.edgephi = {}
        self.phi = {}        # phi term -> set of sources
        self.dyn = {}        # (root, projs) -> concrete type id
        self.work = []
        self.inwork = set()
        self.final = False
        self.snap = set(snap)
        self.visits = 0
        self.unknown = collections.Counter()
        self.vk_cache = {}
        self.maxnodes = 120000
        self.opened = {}

    # -- contexts and nodes
    def ctx(self, parent, body, ret, kind, site):
        k = (parent.id if parent else None, body['id'], site, kind, ret and (ret[0], ret[1]))
        c = self.ctxs.get(k)
        if c is None:
            c = Ctx(len(self.clist), parent, body, ret, kind, site)
            self.ctxs[k] = c; self.clist.append(c)
            if c.depth > 60: raise Exception('call depth')
        return c

    def site(self, ctx, blk, n=0):
        k = (ctx.id, blk, n)
        s = self.sites.get(k)
        if s is None:
            s = len(self.sites); self.sites[k] = s
            self.site_info[s] = k
        return s

    def vkey(self, v, d=4):
        if d == 0: return None
        ck = (v, d)
        r = self.vk_cache.get(ck, 0)
        if r != 0: return r
        r = None
        o = v.op
        if o == 'const':
            if v.a[1] == 'bool': r = v.a[0]
        elif o == 'struct':
            h = v.a[0]
            sub = tuple(self.vkey(x, d - 1) for x in v.a[1])
            if h[0] == 'adt' and h[4]: r = (h[2], sub)
            elif any(x is not None for x in sub): r = ('s', sub)
            elif h[0] == 'closure': r = ('c', h[1])
        elif o == 'undef': r = 'u'
        self.vk_cache[ck] = r
        return r

    def key(self, st):
        out = []
        for r, v in st.store.items():
            if r[0] == 't': continue
            k = self.vkey(v)
            if k is not None and k != 'u': out.append((r, k))
        return frozenset(out)

    def goto(self, frm, ctx, blk, st, facts=(), label=''):
        self.outs.append((frm, ctx, blk, st, facts, label))

    def emit(self, frm, ctx, blk, st, facts=(), label=''):
        body = ctx.body
        dead = body['dead'][blk]
        cid = ctx.id
        store = st.store
        for l in dead:
            store.pop((cid, l), None)
        key = self.key(st)
        nk = (cid, blk, key)
        n = self.nodes.get(nk)
        if n is None:
            n = Node(len(self.nlist), ctx, blk, key)
            self.nodes[nk] = n; self.nlist.append(n)
            if len(self.nlist) > self.maxnodes: raise Exception('too many nodes')
        if frm is not None and self.final:
            frm.succ.append((n, tuple(facts), label))
            if n.state is not None:
                ow = self.ownphis(n)
                if ow:
                    xs = []
                    for P in ow:
                        v = st.store.get(P.a[1][0], UNDEF)
                        for i in P.a[1][1:]:
                            if v.op == 'struct' and i < len(v.a[1]): v = v.a[1][i]
                            else: v = None; break
                        if v is not None: xs.append((P, v))
                    if xs: self.edgephi[frm.id, len(frm.succ) - 1] = tuple(xs)
        if n.state is None:
            n.state = st.copy(); ch = True
        else:
            ch = self.join(n, st)
        if ch and self.final: raise Exception('not a fixpoint')
        if ch and n.id not in self.inwork:
            self.inwork.add(n.id); heapq.heappush(self.work, (ctx.prio + (body['wto'][blk],), n.id))

    def ownphis(self, n):
        """Joins made at n that may hold a constant or a variant (for path-sensitive exploration)."""
        r = self._own.get(n.id)
        if r is None:
            if not self._bynode:
                for P, ss in self.phi.items():
                    if self.allphis or any(x.op in ('const', 'struct', 'bin', 'phi') for x in ss): self._bynode.setdefault(P.a[0], []).append(P)
            r = []
            for P in self._bynode.get(n.id, ()):
                v = n.state.store.get(P.a[1][0])
                for i in P.a[1][1:]:
                    if v is not None and v.op == 'struct' and i < len(v.a[1]): v = v.a[1][i]
                    else: v = None
                if v is P: r.append(P)
            self._own[n.id] = r
        return r

    # -- joins
    def join(self, n, st):
        cur = n.state; ch = False
        cs, ns = cur.store, st.store
        for r in list(cs):
            a = cs[r]; b = ns.get(r)
            if b is None:
                if r[0] == 't' : del cs[r]; ch = True; continue
                b = UNDEF
            if a is not b:
                j = self.joinv(n, a, b, (r,))
                if j is not a: cs[r] = j; ch = True
        for r in ns:
            if r not in cs and r[0] != 't':
                b = ns[r]
                if b is UNDEF: continue
                j = self.joinv(n, UNDEF, b, (r,))
                cs[r] = j; ch = True
        cf, nf = cur.facts, st.facts
        for t in list(cf):
            x = cf[t]; y = nf.get(t)
            if y is None: del cf[t]; ch = True
            elif x != y:
                z = None
                if isinstance(x, frozenset) and isinstance(y, frozenset):
                    z = x & y or None
                elif isinstance(x, frozenset) and y not in x: z = x
                elif isinstance(y, frozenset) and x not in y: z = y
                if z is None: del cf[t]
                else: cf[t] = z
                if z != x: ch = True
        return ch

    def joinv(self, n, a, b, path):
        if a is b: return a
        if a.op == 'phi' and a.a[0] == n.id and a.a[1] == path:
            s = self.phi[a]
            if b not in s: s.add(b); self.phir[a] |= b.rts
            return a
        if a.op == 'struct' and b.op == 'struct' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
            fs = tuple(self.joinv(n, x, y, path + (i,)) for i, (x, y) in enumerate(zip(a.a[1], b.a[1])))
            return mk('struct', a.a[0], fs)
        if a.op in ('ref', 'refs') and b.op in ('ref', 'refs'):
            s = (a.a[0] if a.op == 'refs' else frozenset([a])) | (b.a[0] if b.op == 'refs' else frozenset([b]))
            if len(s) <= 6 and all(x.a[0][0] != 't' for x in s): return mk('refs', s)
        p = mk('phi', n.id, path)
        s = self.phi.setdefault(p, set())
        rr = self.phir.setdefault(p, set())
        if a is not p: s.add(a); rr |= a.rts
        if b is not p: s.add(b); rr |= b.rts
        return p

    # -- reading and writing
    def read(self, st, root, projs):
        v = st.store.get(root)
        if v is None:
            if root[0] == 't': v = deref(root[1])
            else: return UNDEF
        var = None
        for p in projs:
            if p[0] == 'd': var = p; continue
            v = self.project(v, p, var); var = None
        return v

    def project(self, v, p, var=None):
        k = p[0]
        if k == 'f':
            idx = p[1]
            o = v.op
            if o == 'struct':
                fs = v.a[1]
                if idx < len(fs): return fs[idx]
                return mk('fld', v, p[2], p[3], idx)
            if o == 'upd':
                if v.a[1] == (idx, var and var[2]): return v.a[2]
                return self.project(v.a[0], p, var)
            if o in ('ref', 'refs', 'dynref'): return v      # Box / NonNull / Unique wrappers
            if o == 'undef': return v
            if var is not None: return mk('proj', v, var[2], idx)
            return mk('fld', v, p[2], p[3], idx)
        if k == 'i':
            if v.op == 'struct' and v.a[0][0] == 'array' and len(p) > 1 and isinstance(p[1], int) and p[1] < len(v.a[1]): return v.a[1][p[1]]
            if self.allphis and len(p) > 1 and type(p[1]) is int and p[1] >= 0: return mk('idx', v, mk('const', p[1], 'usize'))
            return mk('idx', v, p[1] if len(p) > 1 and isinstance(p[1], V) else None)
        return mk('idx', v, None)

    def set_proj(self, v, projs, val):
        if not projs: return val
        p = projs[0]; rest = projs[1:]
        var = None
        if p[0] == 'd':
            var = p
            if not rest: return val
            p = rest[0]; rest = rest[1:]
        if p[0] == 'f':
            idx = p[1]
            if v.op == 'struct' and idx < len(v.a[1]):
                fs = list(v.a[1]); fs[idx] = self.set_proj(fs[idx], rest, val)
                return mk('struct', v.a[0], tuple(fs))
            if v.op == 'struct' or v is UNDEF:
                # building up an uninitialised aggregate
                return mk('upd', v, (idx, var and var[2]), self.set_proj(UNDEF, rest, val))
            old = self.project(v, p, var)
            base = v
            if v.op == 'upd' and v.a[1] == (idx, var and var[2]): base = v.a[0]
            return mk('upd', base, (idx, var and var[2]), self.set_proj(old, rest, val))
        return mk('mut', 'index', None, v, val)

    def write(self, st, root, projs, val, weak=False):
        old = st.store.get(root)
        if old is None: old = deref(root[1]) if root[0] == 't' else UNDEF
        nv = self.set_proj(old, projs, val)
        if weak and nv is not old: nv = mk('either', frozenset([nv, old]))
        st.store[root] = nv

    def places(self, st, ctx, pl):
        """Abstract places of a MIR place: list of (root, projs)."""
        cur = [((ctx.id, pl[0]), ())]
        for p in pl[1]:
            if p == '*':
                nxt = []
                for r, pr in cur:
                    v = self.read(st, r, pr)
                    for q in self.pointees(v):
                        if q not in nxt: nxt.append(q)
                cur = nxt
            elif p == 'o': pass
            else:
                if p[0] == 'f': q = ('f', p[1], p[3] if len(p) > 3 else None, p[4] if len(p) > 4 else str(p[1]))
                elif p[0] == 'd': q = ('d', p[1], p[2])
                elif p[0] == 'i':
                    iv = st.store.get((ctx.id, p[1]), UNDEF)
                    q = ('i', iv.a[0]) if iv.op == 'const' else ('i', iv)
                elif p[0] == 'c': q = ('i', p[1]) if not p[2] else ('i', -p[1])
                else: q = ('i', None)
                nxt = []
                for r, pr in cur:
                    if q[0] == 'f' and pr == () and r[0] != 't' and st.store.get(r) is not None and st.store[r].op in ('ref', 'refs'):
                        nxt.append((r, pr)); continue
                    if q[0] == 'f':
                        v = self.read(st, r, pr)
                        if v.op in ('ref', 'refs'):
                            nxt.append((r, pr)); continue
                    nxt.append((r, pr + (q,)))
                cur = nxt
        return cur

    def pointees(self, v):
        if v.op == 'ref': return [(v.a[0], v.a[1])]
        if v.op == 'refs': return [(x.a[0], x.a[1]) for x in sorted(v.a[0], key=lambda x: x.id)]
        if v.op == 'phi':
            out = []
            for s in sorted(self.phi[v], key=lambda x: x.id):
                if s.op in ('ref', 'refs'): out += self.pointees(s)
                elif s.op != 'undef': return [(('t', v), ())]
            if out: return out
        if v.op == 'either':
            out = []
            for s in sorted(v.a[0], key=lambda x: x.id): out += self.pointees(s)
            return out
        return [(('t', v), ())]

    def load(self, st, ctx, pl):
        ps = self.places(st, ctx, pl)
        vs = [self.read(st, r, p) for r, p in ps]
        v = vs[0]
        for w in vs[1:]:
            if w is not v: v = mk('either', frozenset(x for z in (v, w) for x in (z.a[0] if z.op == 'either' else [z])))
        return v

    def assign(self, st, ctx, pl, val, node=None, span=None):
        ps = self.places(st, ctx, pl)
        for r, p in ps:
            if r[0] == 't' and self.final and node is not None:
                self.ev(node, 'store', 'store', (self.read(st, r, p), val), None, span, st)
            self.write(st, r, p, val, weak=len(ps) > 1)

    def mkref(self, r, p):
        if r[0] == 't' and not p: return r[1]
        return mk('ref', r, p)

    def constv(self, c):
        k = c['k']; t = self.F.types[c['t']]
        if k == 'int': return mk('const', int(c['v']), t['s'])
        if k == 'float': return mk('const', float(c['v']), t['s'])
        if k == 'str': return mk('const', c['v'], 'str')
        if k == 'bytes': return mk('const', bytes(c['v']), 'bytes')
        if k == 'fn': return mk('fn', c['f']['p'], c['f'].get('inst'))
        if k == 'ref': return mk('&', self.constv(c['v']))
        if k == 'agg':
            fs = tuple(self.constv(x) for x in c['v'])
            if t['k'] == 'adt':
                vi = c.get('variant', 0)
                vs = t.get('variants')
                vn = vs[vi][0] if vs else t['adt']
                return mk('struct', ('adt', t['adt'], vi, vn, bool(t.get('enum'))), fs)
            return mk('struct', ('array',) if t['k'] == 'array' else ('tuple',), fs)
        if k == 'static': return mk('static', c['v'])
        if k == 'zst':
            if t['k'] == 'adt':
                if t.get('enum') and t.get('variants'):
                    return mk('struct', ('adt', t['adt'], 0, t['variants'][0][0], True), ())
                return mk('struct', ('adt', t['adt'], 0, t['adt'], False), ())
            if t['k'] == 'closure': return mk('struct', ('closure', c['t'], t.get('inst')), ())
            return UNIT
        return mk('kopaque', t['s'], c.get('id'))

    def operand(self, st, ctx, o):
        k = o[0]
        if k == 'k': return self.constv(o[1])
        if k == 'rt': return FALSE
        v = self.load(st, ctx, o[1])
        if k == 'm':
            pl = o[1]
            if not pl[1]: st.store[(ctx.id, pl[0])] = UNDEF
            else:
                ps = self.places(st, ctx, pl)
                if len(ps) == 1 and ps[0][0][0] != 't' and '*' not in pl[1] and v.op not in ('const',):
                    self.write(st, ps[0][0], ps[0][1], UNDEF)
        return v

    def snapv(self, st, v, d=5, seen=()):
        """The value as it appears inside a term: references become snapshots of what they point to."""
        if d == 0: return v
        o = v.op
        if o == 'ref':
            r = (v.a[0], v.a[1])
            if r in seen: return mk('&', mk('cyc'))
            return mk('&', self.snapv(st, self.read(st, v.a[0], v.a[1]), d - 1, seen + (r,)))
        if o == 'refs':
            return mk('&', mk('either', frozenset(self.snapv(st, self.read(st, x.a[0], x.a[1]), d - 1, seen) for x in v.a[0])))
        if o == 'struct':
            fs = v.a[1]
            nf = tuple(self.snapv(st, x, d - 1, seen) if x.op in ('ref', 'refs', 'struct', 'upd') else x for x in fs)
            if nf != fs: return mk('struct', v.a[0], nf)
            return v
        if o == 'upd':
            b = self.snapv(st, v.a[0], d, seen); x = self.snapv(st, v.a[2], d - 1, seen)
            if b is not v.a[0] or x is not v.a[2]: return mk('upd', b, v.a[1], x)
        return v

    # -- events
    def ev(self, node, kind, name, args, ret, span, st, x=None, site=None, raw=None):
        e = Event(kind, name, tuple(self.snapv(st, a) for a in args), ret, node.node, span, site, node.ctx.thread, x,
                  st.copy() if (name in self.snap or kind in self.snap) else None, node.ctx, raw)
        e.facts = dict(st.facts)
        node.node.events.append(e)
        return e

    # -- values of expressions
    def fact(self, st, v):
        if v.op == 'const': return v.a[0]
        return st.facts.get(v)

    def binop(self, st, op, a, b):
        if a.op == 'const' and b.op == 'const' and not isinstance(a.a[0], (str, bytes)) and not isinstance(b.a[0], (str, bytes)):
            x, y = a.a[0], b.a[0]
            try:
                if op == 'Eq': return TRUE if x == y else FALSE
                if op == 'Ne': return TRUE if x != y else FALSE
                if op == 'Lt': return TRUE if x < y else FALSE
                if op == 'Le': return TRUE if x <= y else FALSE
                if op == 'Gt': return TRUE if x > y else FALSE
                if op == 'Ge': return TRUE if x >= y else FALSE
                if op in ('Add', 'AddUnchecked') and isinstance(x, int): return mk('const', x + y, a.a[1])
                if op in ('Sub', 'SubUnchecked') and isinstance(x, int) and x >= y: return mk('const', x - y, a.a[1])
                if op in ('Mul', 'MulUnchecked') and isinstance(x, int): return mk('const', x * y, a.a[1])
                if op == 'Div' and isinstance(x, int) and y: return mk('const', x // y, a.a[1])
                if op == 'BitAnd': return mk('const', x & y, a.a[1])
                if op == 'BitOr': return mk('const', x | y, a.a[1])
            except Exception: pass
        if op in ('BitAnd', 'BitOr') and (a.op == 'const' or b.op == 'const'):
            c, o = (a, b) if a.op == 'const' else (b, a)
            if c.a[1] == 'bool':
                if op == 'BitAnd': return o if c.a[0] else FALSE
                return TRUE if c.a[0] else o
        op = {'AddUnchecked': 'Add', 'SubUnchecked': 'Sub', 'MulUnchecked': 'Mul'}.get(op, op)
        return mk('bin', op, a, b)

    def discr(self, st, v, ty):
        if v.op == 'upd':
            return self.discr(st, v.a[0], ty)
        if v.op == 'struct' and v.a[0][0] == 'adt':
            h = v.a[0]
            t = self.F.types[ty]
            for nm, dv, _ in t.get('variants') or []:
                if nm == h[3]: return mk('const', int(dv), 'isize')
            return mk('const', h[2], 'isize')
        if v.op in ('phi', 'either'):
            pass
        d = mk('discr', v)
        f = st.facts.get(d)
        if isinstance(f, int): return mk('const', f, 'isize')
        if d not in self.dvals:
            vs = self.F.types[ty].get('variants') or []
            self.dvals[d] = frozenset(int(x[1]) for x in vs) if len(vs) > 1 else None
        return d

    def rvalue(self, st, ctx, node, rv, span, n):
        k = rv[0]
        if k == 'use': return self.operand(st, ctx, rv[1])
        if k == 'ref':
            ps = self.places(st, ctx, rv[1])
            rs = [self.mkref(r, p) for r, p in ps]
            if len(rs) == 1: return rs[0]
            if all(x.op == 'ref' for x in rs): return mk('refs', frozenset(rs))
            return mk('either', frozenset(rs))
        if k == 'cast':
            v = self.operand(st, ctx, rv[2])
            ck = rv[1]
            tt = self.F.types[rv[3]]
            if ck == 'fnptr':
                return mk('fn', self.F.types[rv[4]].get('p', '?'), rv[5] if len(rv) > 5 else None)
            if ck in ('IntToInt', 'FloatToInt', 'IntToFloat', 'FloatToFloat'):
                if v.op == 'const' and isinstance(v.a[0], int) and ck == 'IntToInt':
                    bits = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128}.get(tt['s'])
                    x = v.a[0]
                    if bits: return mk('const', x & ((1 << bits) - 1), tt['s'])
                    return mk('const', x, tt['s'])
                return mk('cast', tt['s'], v)
            if ck == 'PointerCoercion':
                ft = self.F.types[rv[4]]
                pt = ft['args'][0] if ft.get('args') else None
                if pt is not None and self.F.types[pt]['k'] != 'dyn' and self.F.types[tt['args'][0]]['k'] == 'dyn' if tt.get('args') else False:
                    for r, p in self.pointees(v): self.dyn[(r, p)] = pt
                return v
            return v
        if k == 'bin':
            a = self.operand(st, ctx, rv[2]); b = self.operand(st, ctx, rv[3])
            return self.known(st, self.binop(st, rv[1], a, b))
        if k == 'un':
            a = self.operand(st, ctx, rv[2])
            if rv[1] == 'Not' and a.op == 'const' and a.a[1] == 'bool': return FALSE if a.a[0] else TRUE
            if rv[1] == 'Not' and a.op == 'un' and a.a[0] == 'Not': return a.a[1]
            if rv[1] == 'PtrMetadata': return mk('call', 'slice::len', None, self.snapv(st, a))
            if rv[1] == 'Neg' and a.op == 'const': return mk('const', -a.a[0], a.a[1])
            return mk('un', rv[1], a)
        if k == 'discr':
            v = self.load(st, ctx, rv[1])
            return self.discr(st, v, rv[1][2])
        if k == 'agg':
            h = rv[1]
            fs = tuple(self.operand(st, ctx, o) for o in rv[2])
            if h[0] == 'adt':
                t = self.F.types[h[5]]
                if h[6] is not None:
                    return mk('upd', UNDEF, (h[6], None), fs[0])
                return mk('struct', ('adt', h[1], h[2], h[3], bool(t.get('enum'))), fs)
            if h[0] == 'closure': return mk('struct', ('closure', h[1], h[2]), fs)
            if h[0] == 'tuple': return mk('struct', ('tuple',), fs)
            if h[0] == 'array': return mk('struct', ('array',), fs)
            if h[0] == 'rawptr': return fs[0]
            return mk('aggother', *fs)
        if k == 'repeat':
            return mk('repeat', self.operand(st, ctx, rv[1]), rv[2])
        if k == 'tls': return mk('static', rv[1])
        return mk('rv', k)

    def known(self, st, v):
        if v.op == 'const': return v
        f = st.facts.get(v)
        if f is not None and not isinstance(f, frozenset) and v.op in ('bin', 'un', 'call', 'fld', 'proj', 'deref'):
            if isinstance(f, bool): return TRUE if f else FALSE
        return v

    # -- old results of a site that is executed again
    def age(self, st, site):
        b = bit(('s', site))
        memo = {}
        def f(v):
            if not v.mask & b: return v
            if v.op == 'call' and v.a[1] == site: return mk('old', site, 1)     # of the execution before
            if v.op == 'old': return mk('old', site, 2)                       # of an earlier one
            return None
        for r in list(st.store):
            v = st.store[r]
            if v.mask & b: st.store[r] = rewrite(v, f, memo)
            if r[0] == 't' and r[1].mask & b:
                x = st.store.pop(r)
                st.store[('t', rewrite(r[1], f, memo))] = x
        for t in list(st.facts):
            if t.mask & b: del st.facts[t]

    # -- one node: a chain of blocks without joins
    def run_node(self, node):
        self.visits += 1
        self.cur = node
        pos = Pos(node, node.ctx, node.blk)
        st = node.state.copy()
        while True:
            self.outs = []
            self.run_block(pos, st)
            if len(self.outs) == 1:
                _, c, b, st, facts, label = self.outs[0]
                if not facts and label in ('', 'call', 'ret') and c.body['chain'][b]:
                    pos = Pos(node, c, b)
                    for l in c.body['dead'][b]: st.store.pop((c.id, l), None)
                    continue
            for o in self.outs: self.emit(node, *o[1:])
            return

    def run_block(self, node, st):
        ctx = node.ctx; body = ctx.body
        bl = body['blocks'][node.blk]
        if bl.get('cleanup'): return
        n = 0
        for s in bl['s']:
            n += 1
            if s[0] == '=':
                v = self.rvalue(st, ctx, node, s[2], s[3], n)
                self.assign(st, ctx, s[1], v, node, s[3])
            elif s[0] == 'sl': st.store.pop((ctx.id, s[1]), None)
            elif s[0] == 'sx': st.store.pop((ctx.id, s[1]), None)
            elif s[0] == 'sd':
                t = self.F.types[s[1][2]]
                vs = t.get('variants') or []
                cur = self.load(st, ctx, s[1])
                fs = []
                nf = len(vs[s[2]][2]) if s[2] < len(vs) else 0
                for i in range(nf):
                    fs.append(self.project(cur, ('f', i, t.get('adt'), str(i)), ('d', s[2], vs[s[2]][0])))
                self.assign(st, ctx, s[1], mk('struct', ('adt', t.get('adt'), s[2], vs[s[2]][0] if vs else '?', True), tuple(fs)), node, None)
        t = bl['t']; k = t[0]
        if k == 'goto': self.goto(node, ctx, t[1], st)
        elif k == 'switch': self.switch(node, st, t)
        elif k == 'ret': self.ret(node, st)
        elif k == 'drop': self.drop(node, st, t)
        elif k == 'assert':
            c = self.operand(st, ctx, t[1])
            self.goto(node, ctx, t[3], st)
        elif k == 'call': self.call(node, st, t)
        elif k == 'unreachable':
            pass
        else:
            if self.final: node.node.term = k

    def split(self, v):
        """Normalises a boolean condition: (term, polarity)."""
        pol = True
        while v.op == 'un' and v.a[0] == 'Not':
            v = v.a[1]; pol = not pol
        if v.op == 'bin' and v.a[0] == 'Ne' : v = mk('bin', 'Eq', v.a[1], v.a[2]); pol = not pol
        if v.op == 'bin' and v.a[0] == 'Eq':
            a, b = v.a[1], v.a[2]
            for x, c in ((a, b), (b, a)):
                if c.op == 'const' and c.a[1] == 'bool':
                    if not c.a[0]: pol = not pol
                    t, p = self.split(x)
                    return t, p == pol
        return v, pol

    def switch(self, node, st, t):
        ctx = node.ctx
        v = self.operand(st, ctx, t[1])
        ty = self.F.types[t[4]]['s']
        targets = [(int(x), b) for x, b in t[2]]
        if v.op == 'const':
            x = v.a[0]
            x = x & ((1 << 64) - 1) if isinstance(x, int) and x < 0 else x
            for y, b in targets:
                if y == x or y & ((1 << 64) - 1) == x: self.goto(node, ctx, b, st); return
            self.goto(node, ctx, t[3], st); return
        if v.op == 'undef':
            # both outcomes of a flag that is not tracked
            for y, b in targets + [(None, t[3])]: self.goto(node, ctx, b, st.copy())
            return
        if ty == 'bool':
            c, pol = self.split(v)
            f = st.facts.get(c)
            for val, b in ((0, targets[0][1]), (1, t[3])) if targets[0][0] == 0 else ((targets[0][0], targets[0][1]), (0, t[3])):
                truth = bool(val) == pol
                if f is not None and f != truth: continue
                s2 = st.copy()
                s2.facts[c] = truth
                if c.op == 'bin' and c.a[0] == 'Eq' and truth:
                    for x, k in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
                        if k.op == 'const' and x.op == 'discr': s2.facts[x] = k.a[0]
                self.goto(node, ctx, b, s2, [(c, truth)])
            return
        f = st.facts.get(v)
        seen = set()
        for y, b in targets:
            seen.add(y)
            if f is not None:
                if isinstance(f, frozenset):
                    if y in f: continue
                elif f != y: continue
            s2 = st.copy(); s2.facts[v] = y
            self.goto(node, ctx, b, s2, [(v, y)])
        ob = ctx.body['blocks'][t[3]]
        if ob.get('cleanup') or (ob['t'][0] == 'unreachable' and not ob['s']): return
        if f is not None and not isinstance(f, frozenset) and f in seen: return
        s2 = st.copy()
        if f is None or isinstance(f, frozenset):
            no = frozenset(seen) | (f or frozenset())
            rest = (self.dvals.get(v) or frozenset()) - no
            if len(rest) == 1:
                # the only variant that is left
                x, = rest
                s2.facts[v] = x
                self.goto(node, ctx, t[3], s2, [(v, x)])
                return
            s2.facts[v] = no
        self.goto(node, ctx, t[3], s2, [(v, ('not', frozenset(seen)))])

    # -- drops
    def drop(self, node, st, t):
        ctx = node.ctx
        if t[3]:
            for r, p in self.places(st, ctx, t[1]):
                v = self.read(st, r, p)
                if v is not UNDEF and self.final:
                    self.ev(node, 'drop', self.F.types[t[1][2]]['short'], (v,), None, t[4], st, raw=v)
                if r[0] != 't' and '*' not in t[1][1]: self.write(st, r, p, UNDEF)
        self.goto(node, ctx, t[2], st)

    # -- returns
    def gc(self, st, keep=None):
        """Drops heap cells and frames that nothing refers to."""
        store = st.store
        heap = [r for r in store if r[0] == 'h' or r[0] == 't']
        if keep is None and not heap: return
        mark = set(); stack = []
        for r in store:
            if (keep is None and r[0] not in ('h',)) or (keep is not None and keep(r)):
                mark.add(r); stack.append(store[r])
                if r[0] == 't': stack.append(r[1])
        seen = set()
        while stack:
            x = stack.pop()
            for r in (x.rts if isinstance(x, V) else x):
                if isinstance(r, V):
                    if r not in seen:
                        seen.add(r); stack.append(self.phir[r])
                elif r in store and r not in mark:
                    mark.add(r); stack.append(store[r])
                    if r[0] == 't': stack.append(r[1])
        for r in list(store):
            if r not in mark: del store[r]

    def ret(self, node, st):
        ctx = node.ctx
        v = st.store.get((ctx.id, 0), UNIT)
        if ctx.kind in ('root', 'spawn'):
            if self.final:
                node.node.term = 'return'
                self.ev(node, 'return', ctx.body['p'], (v,), None, None, st, x={'kind': ctx.kind}, raw=v)
            return
        cid = ctx.id
        for r in [r for r in st.store if r[0] == cid]: del st.store[r]
        tgt, dest, span = ctx.ret
        par = ctx.parent
        self.assign(st, par, self.ret_dest[ctx.ret], v, None, span)
        self.gc(st)
        if tgt is None: return
        self.goto(node, par, tgt, st, (), 'ret')

    ret_dest = {}

    # -- calls
    def push(self, node, st, inst, args, t, kind='call', site=None, label='call'):
        body = self.F.bodies[inst]
        ctx = node.ctx
        ret = (t[4], json.dumps(t[3]), t[5])
        self.ret_dest[ret] = t[3]
        c = self.ctx(ctx, body, ret if kind == 'call' else None, kind, site if site is not None else (node.blk, 0))
        # a recursive context would not terminate
        p = ctx; depth = 0
        while p is not None:
            if p.body['id'] == body['id']: depth += 1
            p = p.parent
        if depth > 2: raise Exception('recursion in ' + body['p'])
        for r in [r for r in st.store if r[0] == c.id]: del st.store[r]
        for i, a in enumerate(args[:body['argc']]): st.store[(c.id, i + 1)] = a
        self.goto(node, c, 0, st, (), label)

    def call(self, node, st, t):
        ctx = node.ctx
        f = t[1]
        args = [self.operand(st, ctx, o) for o in t[2]]
        name = f['n']
        if 'fnptr' in f:
            fv = self.operand(st, ctx, f['fnptr'])
            if fv.op == 'fn' and fv.a[1] is not None:
                self.push(node, st, fv.a[1], args, t); return
        # virtual dispatch
        if 'virtual' in f:
            done = False
            for r, p in self.pointees(args[0]):
                ct = self.dyn.get((r, p))
                k = self.F.vtab.get((ct, f['p'])) if ct is not None else None
                if k is not None:
                    self.push(node, st.copy(), k, [self.mkref(r, p)] + args[1:], t, site=(node.blk, ct)); done = True
            if done: return
        inst = f.get('inst')
        h = self.special(node, st, t, f, args)
        if h: return
        if inst is not None and name in self.opaque_names: inst = None
        if inst is not None:
            body = self.F.bodies[inst]
            if f['p'].startswith('core::ops::function::Fn') or name in ('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call'):
                if body['spread'] is None and len(args) == 2:
                    tup = args[1]
                    if body['closure'] or body['argc'] != 2:
                        n = body['argc'] - 1
                        if tup.op == 'struct': ex = list(tup.a[1])
                        else: ex = [self.project(tup, ('f', i, None, str(i))) for i in range(n)]
                        args = [args[0]] + ex
                        if not body['closure']: args = ex  # a function item called through a trait
            self.push(node, st, inst, args, t)
            return
        self.opaque(node, st, t, f, args)

    def closure_inst(self, v):
        if v.op == 'struct' and v.a[0][0] == 'closure': return v.a[0][2]
        if v.op == 'fn': return v.a[1]
        return None

    def finish(self, node, st, t, val, facts=(), label=''):
        self.assign(st, node.ctx, t[3], val, node, t[5])
        if t[4] is not None: self.goto(node, node.ctx, t[4], st, facts, label)

    def option(self, v): return mk('struct', ('adt', 'Option', 1, 'Some', True), (v,)) if v is not None else mk('struct', ('adt', 'Option', 0, 'None', True), ())
    def ok(self, v): return mk('struct', ('adt', 'Result', 0, 'Ok', True), (v,))
    def err(self, v): return mk('struct', ('adt', 'Result', 1, 'Err', True), (v,))

    def special(self, node, st, t, f, args):
        n = f['n']; self_ty = f.get('self'); p = f['p']
        ctx = node.ctx
        if n in ('Box::new', 'Rc::new', 'Arc::new', 'Box::pin'):
            root = ('h', ctx.id, node.blk)
            if root in st.store and self._refd(st, root):
                st.store[root] = mk('either', frozenset([st.store[root], args[0]])) if st.store[root] is not args[0] else args[0]
                st.store[root] = args[0] if n == 'Box::new' else st.store[root]
            else: st.store[root] = args[0]
            if self.final: self.ev(node, 'call', n, args, None, t[5], st, x={'f': f, 'alloc': root})
            self.finish(node, st, t, mk('ref', root, ())); return True
        if n == 'Box::new_uninit':
            root = ('h', ctx.id, node.blk)
            st.store[root] = UNDEF
            self.finish(node, st, t, mk('ref', root, ())); return True
        if n == 'boxed::box_assume_init_into_vec_unsafe':
            v = args[0]
            x = self.read(st, v.a[0], v.a[1]) if v.op == 'ref' else deref(v)
            while x.op == 'upd' and x.a[1][1] is None: x = x.a[2]
            self.finish(node, st, t, mk('call', 'vec!', None, x)); return True
        if n in IDENT and len(args) >= 1:
            v = args[0]
            if v.op in ('ref', 'refs') and n != 'Path::new':
                # smart pointers: go through to the pointee
                outs = []
                for r, pr in self.pointees(v):
                    x = self.read(st, r, pr)
                    if x.op in ('ref', 'refs') and self_ty in ('Box', 'Rc', 'Arc', 'MutexGuard', 'Pin'): outs += self.pointees(x)
                    elif x.op == 'struct' and x.a[0][0] == 'adt' and x.a[0][1] == 'MutexGuard': outs += self.pointees(x.a[1][0])
                    elif x.op not in ('struct',) and self_ty in ('Rc', 'Arc', 'Box', 'MutexGuard'): outs += self.pointees(x)
                    else: outs.append((r, pr))
                rs = [self.mkref(a, b) for a, b in outs]
                v = rs[0] if len(rs) == 1 else (mk('refs', frozenset(rs)) if all(x.op == 'ref' for x in rs) else mk('either', frozenset(rs)))
            elif self_ty in ('Rc', 'Arc', 'Box') and v.op not in ('ref', 'refs', 'const'):
                x = deref(v)
                v = x if x.op in ('ref',) else v
            self.finish(node, st, t, v); return True
        if n in COPY and len(args) >= 1:
            v = args[0]
            if self.final and n == 'Clone::clone': self.ev(node, 'clone', self_ty or '', args, None, t[5], st, raw=v)
            if self._isref_ty(t, f, 0):
                vs = [self.read(st, r, pr) for r, pr in self.pointees(v)]
                v = vs[0] if len(vs) == 1 else mk('either', frozenset(vs))
            if n in ('ToString::to_string',) :
                # a string is its own text, anything else is formatted
                if self_ty not in ('String', 'str', 'char', 'Cow'):
                    v = mk('call', 'ToString::to_string', None, self.snapv(st, v))
                else:
                    while v.op in ('ref', '&'):
                        v = self.read(st, v.a[0], v.a[1]) if v.op == 'ref' else v.a[0]
            self.finish(node, st, t, v); return True
        if n == 'StructOpt::from_args' and self.cmd is not None:
            v = self.options(body_ty(ctx.body, t[3]))
            if v is not None: self.finish(node, st, t, v); return True
        if n in ('Rc::get_mut', 'Arc::get_mut'):
            v = self._through(st, args[0])
            s2 = st.copy()
            if self.final: self.ev(node, 'call', n, args, None, t[5], st, x={'f': f})
            self.finish(node, st, t, self.option(v))
            self.finish(node, s2, t, self.option(None)); return True
        if n in ('Rc::make_mut', 'Arc::make_mut'):
            if self.final: self.ev(node, 'call', n, args, None, t[5], st, x={'f': f})
            self.finish(node, st, t, self._through(st, args[0])); return True
        if n == 'mem::drop':
            if self.final: self.ev(node, 'drop', f.get('self') or '', args, None, t[5], st, raw=args[0])
            self.finish(node, st, t, UNIT); return True
        if n in ('mem::replace', 'prim::replace', 'ptr::replace'):
            ps = self.pointees(args[0])
            vs = [self.read(st, r, pr) for r, pr in ps]
            for r, pr in ps:
                if r[0] == 't' and self.final: self.ev(node, 'store', 'store', (self.read(st, r, pr), args[1]), None, t[5], st)
                self.write(st, r, pr, args[1], weak=len(ps) > 1)
            self.finish(node, st, t, vs[0] if len(vs) == 1 else mk('either', frozenset(vs))); return True
        if n == 'mem::swap':
            a, b = self.pointees(args[0])[0], self.pointees(args[1])[0]
            x, y = self.read(st, *a), self.read(st, *b)
            self.write(st, a[0], a[1], y); self.write(st, b[0], b[1], x)
            self.finish(node, st, t, UNIT); return True
        if n in ('prim::succ',):
            self.finish(node, st, t, self.binop(st, 'Add', args[0], mk('const', 1, 'usize'))); return True
        if n in ('prim::add',):
            self.finish(node, st, t, self.binop(st, 'Add', args[0], args[1])); return True
        if n in ('Mutex::new', 'RwLock::new', 'RefCell::new', 'Cell::new'):
            self.finish(node, st, t, mk('struct', ('adt', n.split(':')[0], 0, n.split(':')[0], False), (args[0],))); return True
        if n in ('Mutex::lock', 'Mutex::try_lock', 'RwLock::read', 'RwLock::write', 'RwLock::try_read', 'RwLock::try_write'):
            site = self.site(ctx, node.blk)
            self.age(st, site)
            ps = self.pointees(args[0])
            if self.final:
                self.ev(node, 'lock', n, args, None, t[5], st, x={'places': ps, 'f': f}, site=site)
            for i, (r, pr) in enumerate(ps):
                s2 = st.copy()
                cell = self.read(s2, r, pr)
                inner = pr + (('f', 0, 'Mutex', 'data'),)
                content = mk('call', 'locked', site, self.lockid(r, pr))
                self.write(s2, r, inner, content)
                g = mk('struct', ('adt', 'MutexGuard', 0, 'MutexGuard', False), (mk('ref', r, inner), mk('const', '%s/%s' % (ctx.id, node.blk), 'site')))
                s3 = s2.copy()
                self.finish(node, s2, t, self.ok(g), [(mk('lockres', site), 'Ok')])
                self.finish(node, s3, t, self.err(mk('call', 'lockerr', site)), [(mk('lockres', site), 'Err')])
            return True
        if n in ('ThreadPool::execute', 'thread::spawn'):
            clo = args[-1]
            k = self.closure_inst(clo)
            if k is None:
                raise Exception('spawned closure not resolved at ' + t[5])
            body = self.F.bodies[k]
            if self.final: self.ev(node, 'spawn', n, args, None, t[5], st, x={'f': f}, raw=clo)
            s2 = st.copy()
            c = self.ctx(ctx, body, None, 'spawn', (node.blk, 'spawn'))
            for r in [r for r in s2.store if r[0] == c.id]: del s2.store[r]
            # FnOnce closures take themselves by value, Fn/FnMut by reference
            ck = self.F.types[clo.a[0][1]].get('ckind') if clo.op == 'struct' else 'FnOnce'
            if ck == 'FnOnce': s2.store[(c.id, 1)] = clo
            else:
                s2.store[('h', c.id, 'self')] = clo
                s2.store[(c.id, 1)] = mk('ref', ('h', c.id, 'self'), ())
            self.gc(s2, keep=lambda r: r[0] == c.id)
            self.goto(node, c, 0, s2, (), 'spawn')
            self.finish(node, st, t, UNIT if n.startswith('ThreadPool') else mk('call', n, self.site(ctx, node.blk)))
            return True
        if n == 'prim::coll_new':
            ty = self.F.types[f['args'][0]]
            if not self.allphis: self.finish(node, st, t, mk('call', 'collect', None, mk('const', ty['short'], 'type'))); return True
            site = self.site(ctx, node.blk); self.age(st, site)
            v = mk('call', 'collect', site, mk('const', ty['short'], 'type'))
            if self.final: self.ev(node, 'call', 'collect', (), v, t[5], st, x={'f': f, 'muts': [], 'rt': ty.get('adt')}, site=site, raw=())
            self.finish(node, st, t, v); return True
        if n == 'prim::coll_add':
            ps = self.pointees(args[0])
            for r, pr in ps:
                old = self.read(st, r, pr)
                self.write(st, r, pr, mk('mut', 'coll_add', self.site(ctx, node.blk), self.snapv(st, old), self.snapv(st, args[1])), weak=len(ps) > 1)
            if self.final: self.ev(node, 'call', 'coll_add', args, None, t[5], st, x={'f': f}, raw=args)
            self.finish(node, st, t, UNIT); return True
        if n == 'IntoIterator::into_iter' and f.get('inst') is None:
            r = mk('call', 'iter', None, self.snapv(st, args[0]), mk('const', self.idplace(args[0]), 'place'))
            if self.final: self.ev(node, 'call', 'IntoIterator::into_iter', args, r if self.allphis else None, t[5], st, x={'f': f}, raw=args)
            self.finish(node, st, t, r); return True
        if n.endswith('::iter') or n.endswith('::iter_mut') or n in ('Vec::drain', 'VecDeque::drain', 'HashMap::drain', 'HashMap::keys', 'HashMap::values', 'HashMap::into_iter', 'Receiver::try_iter') or MAPIT.match(n):
            if args and f.get('inst') is None:
                v = self.snapv(st, args[0])
                r = mk('call', 'iter' if not n.endswith('drain') else 'drain', None, v, *([mk('const', self.idplace(args[0]), 'place')] + [self.snapv(st, a) for a in args[1:]] + ([mk('const', n.split('::')[1], 'how')] if n.split('::')[1] in ('keys', 'values', 'try_iter', 'values_mut', 'iter_mut', 'into_keys', 'into_values') else [])))
                if self.final: self.ev(node, 'call', n, args, r, t[5], st, x={'f': f}, raw=args)
                if n.endswith('drain'):
                    for rr, pr in self.pointees(args[0]): self.write(st, rr, pr, mk('call', 'drained', None, self.snapv(st, self.read(st, rr, pr))))
                self.finish(node, st, t, r); return True
        return False

    def idplace(self, v):
        if v.op == 'ref':
            r = v.a[0]
            return repr((r if r[0] != 't' else ('t', r[1].id), tuple((p[1],) for p in v.a[1])))
        return '-'

    def lockid(self, r, pr):
        if r[0] == 't': return mk('place', mk('deref', r[1]), tuple(p[1] for p in pr))
        return mk('place', repr(r), tuple(p[1] if not isinstance(p[1], V) else None for p in pr))

    def _through(self, st, v):
        """The pointee of the smart pointer that v refers to."""
        for r, pr in self.pointees(v):
            x = self.read(st, r, pr)
            if x.op in ('ref', 'refs'): return x
            return x
        return v

    def _refd(self, st, root):
        for r, v in st.store.items():
            if r != root and v.op in ('ref', 'struct') and root in _roots(v): return True
        return False

    def _isref_ty(self, t, f, i):
        """Whether argument i of the call is a reference."""
        o = t[2][i]
        ty = self.F.types[o[1][2]] if o[0] in ('c', 'm') else self.F.types[o[1]['t']]
        return ty['k'] == 'ref' and f['n'] not in ('Into::into', 'From::from', 'hint::must_use', 'convert::identity', '__private::must_use', 'Iterator::by_ref')

    def opaque(self, node, st, t, f, args):
        ctx = node.ctx
        name = f['n']
        site = self.site(ctx, node.blk)
        impure = name in IMPURE or name in self.opaque_names or name.split('::')[-1] in ('fetch_add', 'fetch_sub') or self.allphis and NEW.match(name) is not None
        tyof = lambda o: self.F.types[o[1][2]] if o[0] in ('c', 'm') else self.F.types[o[1]['t']]
        muts = []
        for i, o in enumerate(t[2]):
            ty = tyof(o)
            if ty['k'] == 'ref' and ty.get('mut'): muts.append(i)
        if name.startswith('atomic::atomic_'):
            # the standard library's own body of fetch_update and the like
            name = {'add': 'Atomic::fetch_add', 'sub': 'Atomic::fetch_sub', 'umax': 'Atomic::fetch_max', 'umin': 'Atomic::fetch_min'}.get(name[15:], 'Atomic::' + name[15:])
            args = [cell_of(args[0])] + list(args[1:])
            impure = True; f = dict(f, n=name)
        self.age(st, site)
        snaps = [self.snapv(st, a) for a in args]
        if muts and name != 'Iterator::next': impure = True
        rname = name
        ret = mk('call', rname, site if impure else None, *snaps)
        if self.final:
            self.ev(node, 'call', name, args, ret, t[5], st, x={'f': f, 'muts': muts, 'rt': (self.F.types[t[3][2]].get('adt') if t[3] and t[3][2] < len(self.F.types) else None), 'rs': (self.F.types[t[3][2]].get('s') if t[3] and t[3][2] < len(self.F.types) else None)}, site=site, raw=tuple(args))
        for i in muts:
            if name in ('Iterator::next', 'BuildHasher::build_hasher'): continue
            for r, pr in self.pointees(args[i]):
                old = self.read(st, r, pr)
                others = tuple(s for j, s in enumerate(snaps) if j != i)
                self.write(st, r, pr, mk('mut', name, site, self.snapv(st, old), *others))
        if t[4] is None:
            if self.final: node.node.term = 'diverge:' + name
            return
        # closures handed to code that is not analysed: they may run, with unknown arguments
        for i, a in enumerate(args):
            k = self.closure_inst(a) if a.op == 'struct' else None
            if k is None and a.op == 'ref':
                inner = self.read(st, a.a[0], a.a[1])
                k = self.closure_inst(inner) if inner.op == 'struct' else None
            if k is not None:
                self.unknown[name] += 1
                body = self.F.bodies[k]
                s2 = st.copy()
                ck = self.F.types[(a if a.op == 'struct' else inner).a[0][1]].get('ckind')
                root = ('h', ctx.id, node.blk, 'clo%d' % i)
                if a.op == 'struct' and ck != 'FnOnce':
                    s2.store[root] = a; selfv = mk('ref', root, ())
                else: selfv = a
                cargs = [selfv] + [mk('call', 'arg:' + name, site, *snaps, mk('const', j, 'argno')) for j in range(body['argc'] - 1)]
                self.push_clo(node, s2, k, cargs, t, ret, i)
        self.finish(node, st, t, self.known(st, ret))

    def push_clo(self, node, st, inst, args, t, ret, i):
        body = self.F.bodies[inst]
        self.assign(st, node.ctx, t[3], ret)
        # the closure's own result is not used; the call's result stays as it is
        key = ('clo', t[4], i, node.blk)
        dummy = [len(node.ctx.body['locals']) + 1000 + i, [], 0]
        r = (t[4], json.dumps(dummy), t[5])
        self.ret_dest[r] = dummy
        c = self.ctx(node.ctx, body, r, 'call', (node.blk, 'clo', i))
        for x in [x for x in st.store if x[0] == c.id]: del st.store[x]
        for j, a in enumerate(args[:body['argc']]): st.store[(c.id, j + 1)] = a
        self.goto(node, c, 0, st, (), 'callback')

    # -- driver
    def run(self, inst, args=None):
        body = self.F.bodies[inst]
        c = self.ctx(None, body, None, 'root', 0)
        st = State()
        for i in range(body['argc']):
            a = (args or {}).get(i)
            if a is None:
                ty = self.F.types[body['locals'][i + 1]]
                a = mk('sym', 'arg%d' % i, body['names'].get(str(i + 1), ''))
            st.store[(c.id, i + 1)] = a
            if self.allphis and a.op == 'sym' and self.F.types[body['locals'][i + 1]]['k'] == 'ref': st.store[('t', a)] = deref(a)
        self.outs = []
        self.emit(None, c, 0, st)
        while self.work:
            n = self.nlist[heapq.heappop(self.work)[1]]
            self.inwork.discard(n.id)
            self.run_node(n)
            if self.visits > 2000000: raise Exception('no fixpoint')
        # final pass: record events and edges
        self.final = True
        for n in self.nlist:
            n.succ = []; n.events = []
            self.run_node(n)
        for n in self.nlist:
            for s, fa, lb in n.succ: s.pred.append((n, fa, lb))
        self.entry = self.nlist[0]
        return self

def cell_of(t):
    if t.op == '&' and t.a[0].op == 'fld' and t.a[0].a[2] in ('v', 'value'):
        b = t.a[0].a[0]
        return cell_of(b.a[0] if b.op == 'deref' else mk('&', b))
    if t.op == 'ref' and t.a[1] and t.a[1][-1][0] == 'f': return mk('ref', t.a[0], t.a[1][:-1])
    return t

def _roots(v): return v.rts
