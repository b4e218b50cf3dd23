"""C03: every worker result reaches the report and no run hangs.  C17: no deadlock on locks."""
from check import rule
from common import *
from rules_fail import outcome, is_join, is_io, failing_flags, atomics

CHANNELS = ('mpsc::sync_channel', 'mpsc::channel')
BLOCKING_RECV = ('Receiver::recv', 'Iterator::next', 'Receiver::into_iter')

def is_chan(t): return t.op == 'call' and t.a[0] in CHANNELS
def senders(c, t):
    """Channel sites whose sender is part of a term."""
    return [y.a[0].a[1] for y in c.deep(t) if y.op in ('fld', 'proj') and is_chan(y.a[0]) and y.a[1] == 0]
def sender_of(t):
    return t.op in ('fld', 'proj') and is_chan(t.a[0]) and 0 in t.a[1:]
def receiver_of(t):
    return t.op in ('fld', 'proj') and is_chan(t.a[0]) and 1 in t.a[1:]

def has(c, t, pred):
    return any(pred(y) for y in c.deep(t))

def is_receive(c, x):
    return x.kind == 'call' and (x.name == 'Iterator::next' or x.name.startswith('Receiver::')) and x.name not in ('Receiver::iter', 'Receiver::into_iter', 'Receiver::try_iter') and x.args and from_receiver(c, x.args[0])

def from_receiver(c, t):
    """The receiving end itself (or an iterator over it), not a value received from it."""
    for y in c.expand(peel(t)):
        y = peel(y)
        while y.op == 'call' and y.a[0] in ('iter', 'Receiver::iter', 'Receiver::into_iter', 'Receiver::try_iter', 'IntoIterator::into_iter', 'Option::unwrap', 'Option::expect', 'mem::take'):
            z = [w for w in y.a if isinstance(w, V)]
            if not z: break
            y = peel(z[0])
        if any(receiver_of(z) for w in c.expand(y) for z in [w] + [peel(q) for q in subterms(w) if w.op in ('proj', 'struct')]): return True
    return False

@rule('C03', 'Topk', 'Botk', 'Search')
def channel(c, R):
    chans = [x for x in c.events if x.thread == 'main' and x.name in CHANNELS]
    if not chans: raise Missing('%s creates no channel for the results of the workers' % c.name)
    sends = [x for x in c.events if x.thread == 'worker' and x.name in ('SyncSender::send', 'Sender::send', 'SyncSender::try_send')]
    if not sends: raise Missing('%s: workers send no results' % c.name)
    for x in sends:
        R.ob('send', loc(x.span))
        if x.name == 'SyncSender::try_send': R.bad('lossy-send', loc(x.span), 'a result is lost when the channel is full')
    recvs = {x for x in c.events if x.thread == 'main' and is_receive(c, x)}
    if not recvs: raise Missing('%s: the main thread receives no results' % c.name)
    lossy = {x for x in recvs if re.search('try_recv|recv_timeout|recv_deadline', x.name) or any(y.op == 'const' and y.a[0] == 'try_iter' for y in c.deep(x.args[0]))}
    memo = {}
    def holds(t, pred):
        k = (t, pred)
        if k not in memo: memo[k] = has(c, t, pred)
        return memo[k]
    rsites = {x.site: x for x in recvs}
    def item(t):
        return any(y.op == 'call' and y.a[1] in rsites for y in c.deep(t))
    imemo = {}
    def uses_item(t):
        if t not in imemo: imemo[t] = item(t)
        return imemo[t]
    # (senders held by the main thread, jobs running with a sender, phase, item pending)
    def ev(st, x):
        held, run, ph, pend = st
        if x.thread != 'main': return None
        if x.name in CHANNELS: return (1, False, 'open', False)
        if ph == 'none': return None if failing_exit(x) is not None else st
        if x.kind == 'clone' and x.args and holds(x.args[0], sender_of): held = min(held + 1, 3)
        elif x.kind == 'drop' and x.raw and any(sender_of(y) for w in x.args for v in c.expand(w) for y in shallow(v)): held = max(held - 1, 0)
        elif is_exec(x) and any(holds(a, sender_of) for a in x.args): held = max(held - 1, 0); run = True; R.ob('job-with-sender', loc(x.span))
        elif x in recvs:
            R.ob('receive', loc(x.span))
            if held and x not in lossy: R.bad('receives-own-channel', loc(x.span), 'the main thread waits for results while it still holds a sender, so the channel never ends', c.trace())
            if pend: R.bad('result-dropped', loc(x.span), 'a received result is not used before the next one is received', c.trace())
            return (held, run, 'receiving', False)
        elif is_join(x) and run and ph != 'ended':
            R.bad('join-before-drain', loc(x.span), 'the main thread waits for the workers while they may be blocked on the full channel', c.trace())
            return None
        elif x.kind == 'drop' and x.args and any(receiver_of(y) for w in x.args for v in c.expand(w) for y in shallow(v)) and run and ph not in ('ended',):
            ph = 'closed'
        if pend and x.kind == 'call' and x.site not in rsites and any(uses_item(a) for a in x.args): pend = False
        f = failing_exit(x)
        if f is not None:
            if f is False and run and ph != 'ended': R.bad('results-left', loc(x.span) or c.name, 'the run succeeds without having received every result', c.trace())
            if f is False and pend: R.bad('result-dropped', loc(x.span) or c.name, 'a received result is not used', c.trace())
            return None
        return (held, run, ph, pend)
    def edge(st, n, m, fa, lb):
        held, run, ph, pend = st
        for t, v in fa:
            if t.op == 'discr' and not isinstance(v, tuple):
                for y in c.expand(t.a[0]):
                    if y.op == 'call' and y.a[1] in rsites:
                        x = rsites[y.a[1]]
                        nx = x.name == 'Iterator::next'
                        got = (v == 1) if nx else (v == 0)
                        if got: pend = True
                        elif x in lossy: ph = 'left'
                        else: ph = 'ended'
                        break
                    if y.op == 'proj' and y.a[1] == 'Err' and y.a[0].op == 'call' and y.a[0].a[1] in rsites and v == 1: ph = 'ended'
            elif pend and uses_item(t): pend = False
        return (held, run, ph, pend)
    c.explore([c.entry], (0, False, 'none', False), ev, edge)

def shallow(v):
    """Parts a value directly owns."""
    out = [v]
    if v.op == 'struct':
        for y in v.a[1]: out += shallow(y)
    return out

# ---------------------------------------------------------------- locks
LOCKS = ('Mutex::lock', 'Mutex::try_lock', 'RwLock::read', 'RwLock::write', 'RwLock::try_read', 'RwLock::try_write')
WAITS = re.compile(r'^(SyncSender::send|Sender::send|Receiver::(recv\w*)|ThreadPool::join|JoinHandle::join|Barrier::wait|Condvar::wait\w*|thread::(sleep|park)\w*|Sender::blocking_send)$')

def lock_place(x): return tuple(x.x.get('places') or ())

def raws(x):
    r = x.raw
    return [] if r is None else [r] if isinstance(r, V) else list(r)

def guarded(c, x):
    """Places of the locks whose guards a dropped value owns."""
    out = set()
    for t in raws(x):
        for y in c.deep(t):
            if y.op == 'struct' and y.a[0][0] == 'adt' and y.a[0][1] == 'MutexGuard':
                for r, pr in refs(y.a[1][0]): out.add((r, pr[:-1]))
    return out

@rule('C17', *COMMANDS)
def locks(c, R):
    locks = [x for x in c.events if x.kind == 'lock']
    R.ob('locks', n=len(locks) or 1)
    order = {}
    byres = {x.site: x for x in locks}
    names = {}
    for x in locks:
        for p in lock_place(x): names.setdefault(p, loc(x.span))
    recs = {x for x in c.events if is_receive(c, x)}
    files = {x for x in c.events if is_io(x) and not re.match(r'(de|ser|value)::|SyncSender|serde_json|Tokenizer|Regex|Vec::', x.name)}
    drops = {x: g for x in c.events if x.kind == 'drop' for g in [guarded(c, x)] if g}
    def mk_ev(worker):
        def ev(st, x):
            held, run, err, tf = st
            if (x.thread == 'worker') != worker: return None
            if is_exec(x): run = True
            elif is_join(x):
                if held: R.bad('waits-with-lock', loc(x.span), 'waits for the workers while it holds the lock taken at %s' % ', '.join(sorted(names[p] for p, _ in held)), c.trace())
                run = False
            if x.kind == 'lock':
                R.ob('acquire', loc(x.span))
                ps = lock_place(x)
                for p, k in held:
                    if p in ps and not 'try' in x.name: R.bad('relock', loc(x.span), 'acquires a lock this thread already holds (taken at %s)' % names[p], c.trace())
                    elif not 'try' in x.name and (worker or run):
                        for q in ps:
                            if q != p: order.setdefault((p, q), (loc(x.span), c.trace()))
                if tf and set(ps) & set(lock_place(tf)): tf = None
                return (held, run, err, tf)
            if x in drops and held:
                ks = drops[x]
                held = frozenset((p, k) for p, k in held if p not in ks)
            if held and (worker or run):
                if WAITS.match(x.name) or x in recs:
                    R.bad('waits-with-lock', loc(x.span), '%s while the lock taken at %s is held' % (x.name, ', '.join(sorted(names[p] for p, _ in held))), c.trace())
                elif x in files and not x.name.startswith('io::'):
                    R.bad('io-with-lock', loc(x.span), '%s while the lock taken at %s is held' % (x.name, ', '.join(sorted(names[p] for p, _ in held))), c.trace())
            if worker and x.name == 'File::open': err = False; tf = None
            if worker and tf and not err and re.match(r'Error::(msg|new|from|construct\w*)$', x.name):
                R.bad('contention-fails', loc(tf.span), 'the worker fails when another thread holds the lock', c.trace()); tf = None; err = True
            if worker and re.match(r'Error::(msg|new|from|construct\w*)$', x.name): err = True
            if worker and tf and not err and x.kind == 'return' and x.thread == 'worker': pass
            return (held, run, err, tf)
        return ev
    def edge(st, n, m, fa, lb):
        held, run, err, tf = st
        for t, v in fa:
            if t.op == 'lockres':
                x = byres.get(t.a[0])
                if x is None: continue
                if v == 'Ok':
                    held = held | {(p, 0) for p in lock_place(x)}
                elif 'try' in x.name and x.thread == 'worker' and not err:
                    tf = x
                    if skipped(x): R.bad('contention-skips', loc(x.span), 'the worker leaves out its update when another thread holds the lock', c.trace())
            else:
                calls, failed = outcome(c, (t, v))
                if failed and calls: err = True
        return (held, run, err, tf)
    # updates made while holding a lock
    upd = {}
    for x in c.events:
        if x.kind == 'call' and re.match(r'(Vec|VecDeque|HashMap|BTreeSet|BTreeMap|HashSet)::(push\w*|insert|extend|append|retain\w*|remove|clear)$|coll_add$', x.name) and raws(x):
            for r, pr in refs(raws(x)[0]): upd.setdefault(r, []).append((pr, x))
    def skipped(x):
        for r, pr in lock_place(x):
            for q, y in upd.get(r, ()):
                if q[:len(pr)] == pr: return True
        return False
    c.explore([c.entry], (frozenset(), False, False, None), mk_ev(False), edge)
    c.explore(c.workers, (frozenset(), True, False, None), mk_ev(True), edge)
    for (p, q), (w, tr) in order.items():
        R.ob('order', w)
        # a path q -> ... -> p closes a cycle
        seen = {q}; st = [q]
        while st:
            a = st.pop()
            for (x, y), _ in order.items():
                if x == a and y not in seen: seen.add(y); st.append(y)
        if p in seen:
            R.bad('lock-order', w, 'takes the lock of %s while holding that of %s; elsewhere the order is the reverse' % (names[q], names[p]), tr)

def refs(t):
    if t.op == 'ref': return [(t.a[0], t.a[1])]
    if t.op == 'refs': return [(x.a[0], x.a[1]) for x in t.a[0]]
    if t.op == '&': return refs(t.a[0])
    return []
