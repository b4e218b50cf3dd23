"""C01: a failed run never ends as a success."""
from check import rule
from common import *

IO = re.compile(r'^(File::|OpenOptions::|fs::|DirBuilder::|Read::|BufRead::|Write::|BufWriter::|LineWriter::|GzDecoder|MultiGzDecoder|SyncSender::send|Sender::send|de::from_|serde_json|ser::|value::to_value|Tokenizer|glob::|Regex|Vec::try_reserve|Builder::spawn|JoinHandle::join|simple_logger|Context::|io::|Seek::|StreamDeserializer|Deserialize)')
NOT_IO = re.compile(r'^(fs::(metadata|symlink_metadata|exists|canonicalize))$|^SyncSender::try_send$')

def is_io(x):
    return x.kind == 'call' and x.x.get('rt') == 'Result' and IO.match(x.name) and not NOT_IO.match(x.name) and not quiet_writer(x)

def quiet_writer(x):
    return x.name.startswith('Write::') and x.args and any(t.op == 'call' and t.a[0] in ('stdio::stderr', 'String::new', 'String::with_capacity') for t in subterms(x.args[0]))

def result_calls(c, t):
    """The calls whose outcome a tested value is."""
    out = []
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        for y in c.expand(x):
            y = peel(y)
            if y.op == 'call':
                if y.a[0] in ('Context::context', 'Context::with_context', 'Result::map_err', 'Result::map', 'Try::branch') and len(y.a) > 2: st.append(y.a[2])
                out.append(y)
    return out

def outcome(c, fact):
    """(calls, failed?) for a fact that settles the outcome of Result-returning calls."""
    t, v = fact
    if isinstance(v, tuple): return (), None
    if t.op == 'discr': return result_calls(c, t.a[0]), v == 1
    if t.op == 'call' and t.a[0] in ('Result::is_err', 'Result::is_ok') and len(t.a) > 2: return result_calls(c, peel(t.a[2])), bool(v) == (t.a[0] == 'Result::is_err')
    return (), None

def atomics(c, t):
    return {y.a[1] if y.a[1] is not None else y for y in c.expand(peel(t)) if y.op == 'call' and y.a[0] == 'Atomic::new'}

def atomics_in(c, t):
    return {y.a[1] for y in c.deep(t) if y.op == 'call' and y.a[0] == 'Atomic::new'}

def is_join(x): return x.name in ('ThreadPool::join', 'JoinHandle::join', 'thread::scope')

SETS = ('Atomic::store', 'Atomic::fetch_add', 'Atomic::fetch_or', 'Atomic::swap', 'Atomic::fetch_max')

def sets_flag(x):
    return x.kind == 'call' and x.name in SETS and len(x.args) > 1 and peel(x.args[1]).op == 'const' and bool(peel(x.args[1]).a[0])

def failing_flags(c):
    """Flags that, once set by a worker, make the main thread fail after every join."""
    cand = set()
    for x in c.events:
        if x.thread == 'worker' and sets_flag(x): cand |= atomics(c, x.args[0])
    good = {}
    for s in cand:
        def hook(val):
            def h(t, ev):
                if t.op == 'call' and t.a[0] == 'Atomic::load' and s in atomics(c, t.a[2]): return val
                if t.op == 'call' and t.a[0] == 'Atomic::into_inner' and s in atomics(c, t.a[2]): return val
                return UNK
            return h
        E0 = Eval(c, {}, hook(0)); E1 = Eval(c, {}, hook(1))
        bad = []; memo = {}
        def carries(x):
            r = memo.get(x)
            if r is None: r = memo[x] = any(s in atomics_in(c, a) for a in x.args)
            return r
        def ev(st, x):
            if x.thread != 'main': return None
            if x.name == 'Atomic::new' and x.site == s: return 'made'
            if is_exec(x) and st != 'none' and carries(x): return 'running'
            if is_join(x) and st == 'running': return 'joined'
            f = failing_exit(x)
            if f is not None:
                if f is False and st in ('joined', 'running', 'failed'): bad.append((x, st, c.trace()))
                return None
            return st
        def edge(st, n, m, fa, lb):
            a, b = E0.feasible(fa), E1.feasible(fa)
            if st == 'joined':
                if a and not b: return 'checked'
                if b and not a: return 'failed'
            if st == 'failed' and not b: return None
            return st
        c.explore([c.entry], 'none', ev, edge)
        good[s] = bad
    return good

@rule('C01', *COMMANDS)
def recorded(c, R):
    """Every failure of a worker is recorded in a flag that makes the run fail, or retried a bounded number of times."""
    if not c.workers: raise Missing('%s starts no worker' % c.name)
    flags = failing_flags(c)
    ok = {s for s, b in flags.items() if not b}
    R.ob('flag-examined', n=len(flags) or 1)
    worst = None
    roots = {m.ctx.id for m in c.workers}
    region = [n for n in c.nodes if n.ctx.id in roots]
    track = c.flags(region)
    ends = 0
    # state: (error seen, attempts, pending)
    def ev(st, x):
        nonlocal worst
        err, tries, pend = st
        if x.kind == 'return' and x.thread == 'worker':
            if err:
                R.bad('failure-not-recorded', err, 'the worker ends after this failure without recording it where the main thread looks (%s)' % ('a flag that makes the run fail' if ok else 'no flag makes the run fail after the workers are joined'), c.trace())
            for s in pend: R.bad('result-ignored', s[1], '%s: its failure is not noticed' % s[2], c.trace())
            return None
        if x.thread != 'worker': return st
        if sets_flag(x) and atomics(c, x.args[0]) and atomics(c, x.args[0]) <= ok: return ('', tries, pend)
        if x.name == 'File::open':
            if err:
                if c.name != 'Stats': R.bad('retry', loc(x.span), '%s processes a file again after a failure' % c.name.lower(), c.trace()); return None
                tries += 1; err = ''
                if tries > 3: R.bad('retry-limit', loc(x.span), 'a file is tried more than three times', c.trace()); return None
            else: tries = 1
        if is_io(x):
            R.ob('fallible-call', loc(x.span), x.name)
            for s in pend:
                if s[0] == x.site: R.bad('result-ignored', s[1], '%s: its failure is not noticed' % s[2], c.trace())
            pend = frozenset([s for s in pend if s[0] != x.site] + [(x.site, loc(x.span), x.name)])
        return (err, tries, pend)
    def edge(st, n, m, fa, lb):
        err, tries, pend = st
        for f in fa:
            calls, failed = outcome(c, f)
            for y in calls:
                for s in pend:
                    if s[0] == y.a[1] or (y.a[1] is None and s[2] == y.a[0]):
                        pend = pend - {s}
                        if failed: err = s[1] + ' ' + s[2]
            if failed and not err:
                for y in calls:
                    if IO.match(y.a[0]) and not NOT_IO.match(y.a[0]) and y.a[1] in sites: err = sites[y.a[1]]
        return (err, tries, pend)
    sites = {x.site: '%s %s' % (loc(x.span), x.name) for x in c.events if x.thread == 'worker' and is_io(x)}
    c.explore(list(c.workers), ('', 0, frozenset()), ev, edge, track=track)

@rule('C01', *COMMANDS)
def joined(c, R):
    """Success is reported only after all workers are joined, their flag is clear and none has panicked."""
    flags = failing_flags(c)
    ok = {s for s, b in flags.items() if not b}
    if not ok:
        for s, b in flags.items():
            for x, st, tr in b[:1]:
                R.bad('flag-not-examined', loc(x.span) if x.span else c.name, {'running': '%s ends successfully without joining its workers', 'joined': '%s ends successfully without looking whether a worker failed', 'failed': '%s ends successfully although a worker failed'}[st] % c.name.lower(), tr)
        if not flags: R.bad('no-failure-flag', c.name, 'no worker of %s records a failure' % c.name.lower())
    def ev(st, x):
        if x.thread != 'main': return None
        if is_exec(x): return 'running'
        if is_join(x): return 'joined'
        f = failing_exit(x)
        if f is False:
            R.ob('success-after-join', c.name)
            if st == 'running': R.bad('not-joined', c.name, '%s ends successfully without joining its workers' % c.name.lower(), c.trace())
            if st == 'joined': R.bad('panic-ignored', c.name, '%s ends successfully without looking whether a worker panicked' % c.name.lower(), c.trace())
            if st == 'panicked': R.bad('panic-ignored', c.name, '%s ends successfully although a worker panicked' % c.name.lower(), c.trace())
        return st if f is None else None
    def hook(val):
        return lambda t, e: val if t.op == 'call' and t.a[0] == 'ThreadPool::panic_count' else UNK
    E0 = Eval(c, {}, hook(0)); E1 = Eval(c, {}, hook(1))
    def edge(st, n, m, fa, lb):
        a, b = E0.feasible(fa), E1.feasible(fa)
        if st == 'joined':
            if a and not b: return 'checked'
            if b and not a: return 'panicked'
        return st
    c.explore([c.entry], 'none', ev, edge)

@rule('C01', *COMMANDS)
def main_failures(c, R):
    """After a failure the main thread meets, only failing exits are reached; and no result is dropped unseen."""
    sites = {x.site: '%s %s' % (loc(x.span), x.name) for x in c.events if x.thread == 'main' and is_io(x)}
    # (error, pending, dirty)
    def buffered(x): return any(t.op == 'call' and t.a[0] in ('BufWriter::new', 'BufWriter::with_capacity', 'LineWriter::new') for t in c.deep(x.raw[0] if x.raw else x.args[0]) | c.deep(x.args[0]))
    has_buf = any(x.name in ('BufWriter::new', 'BufWriter::with_capacity', 'LineWriter::new') for x in c.events)
    def ev(st, x):
        if x.thread != 'main': return None
        err, pend, dirty = st
        f = failing_exit(x)
        if f is True: return None
        if f is False:
            R.ob('success-exit', c.name)
            v = x.args[0] if x.args else None
            if x.kind == 'return' and v is not None and v.op != 'struct': return None
            if err: R.bad('failure-swallowed', err, '%s ends successfully although this failed' % c.name.lower(), c.trace())
            for s in pend: R.bad('result-ignored', s[1], '%s: its failure is not noticed' % s[2], c.trace())
            if dirty: R.bad('not-flushed', dirty, 'buffered output is not flushed, or the outcome not examined, before the command succeeds', c.trace())
            return None
        if has_buf and x.name.startswith('Write::write') and buffered(x): dirty = loc(x.span)
        if has_buf and x.name in ('Write::flush', 'BufWriter::into_inner', 'BufWriter::flush') : dirty = ''
        if is_io(x):
            R.ob('fallible-call', loc(x.span), x.name)
            for s in pend:
                if s[0] == x.site: R.bad('result-ignored', s[1], '%s: its failure is not noticed' % s[2], c.trace())
            pend = frozenset([s for s in pend if s[0] != x.site] + [(x.site, loc(x.span), x.name)])
        return (err, pend, dirty)
    def edge(st, n, m, fa, lb):
        err, pend, dirty = st
        for f in fa:
            calls, failed = outcome(c, f)
            for y in calls:
                for s in pend:
                    if s[0] == y.a[1] or (y.a[1] is None and s[2] == y.a[0]):
                        pend = pend - {s}
                        if failed: err = s[1] + ' ' + s[2]
            if failed and not err:
                for y in calls:
                    if y.a[1] in sites and y.a[1] is not None: err = sites[y.a[1]]
            t, v = f
            if t.op == 'discr' and t.a[0].op == 'proj' and t.a[0].a[0].op == 'call' and t.a[0].a[0].a[0] == 'Iterator::next' and v == 1 and any(y.op == 'call' and y.a[0].startswith('glob::glob') for y in subterms(t.a[0].a[0])):
                err = err or 'glob entry'
        return (err, pend, dirty)
    c.explore([c.entry], ('', frozenset(), ''), ev, edge)
