"""C16: what each command prints and writes."""
import itertools, re, os
from check import rule
from rust import *
import absint

CMDS = COMMANDS

def is_json(c, t, d=3):
    t = peel(t)
    if t.op in ('phi', 'either'):
        xs = c.expand(t)
        return bool(xs) and all(is_json(c, x, d) for x in xs if x.op != 'undef')
    if t.op == 'struct' and t.a[0][0] == 'adt' and t.a[0][1] == 'Value': return True
    if t.op == 'proj' and t.a[1] == 'Ok': return is_json(c, t.a[0], d)
    if t.op == 'call' and re.match(r'(ser::to_string|ser::to_vec)', t.a[0]): return True
    if t.op == 'call' and t.a[0] == 'ToString::to_string': return is_json(c, t.a[2], d)
    if t.op == 'call' and t.a[0] == 'fmt::format':
        ps = pieces(t)
        return len(ps) == 1 and not isinstance(ps[0], str) and ps[0][0] == 'display' and is_json(c, ps[0][1], d)
    if d and t.op in ('proj', 'fld'):
        b = t
        while b.op in ('proj', 'fld'): b = b.a[0]
        if b.op == 'call' and b.a[0] == 'Iterator::next':
            return any(x.op == 'struct' and x.a[0][0] == 'adt' and x.a[0][1] == 'Value' for x in c.deep(b.a[2]))
    return False

def item_sites(c, t):
    """The iterator steps an item is taken from (not those its container was filled from)."""
    out = set(); st = [t]; seen = set()
    while st:
        x = st.pop()
        if isinstance(x, V):
            if x in seen: continue
            seen.add(x)
            if x.op == 'call' and x.a[0] == 'Iterator::next': out.add(x.a[1]); continue
            if x.op in ('phi', 'either'):
                if x is t: st.extend(c.expand(x))
                continue
            st.extend(x.a)
        elif isinstance(x, (tuple, frozenset)): st.extend(x)
    return out

def channel(c, ev):
    """'out', 'file' or None for an event that may write, with what it writes."""
    n = ev.name
    if n == 'stdio::_print': return 'out', pieces(ev.args[0])
    if n.startswith('Write::write') and ev.args:
        ts = c.deep(ev.raw[0] if ev.raw else ev.args[0]) | c.deep(ev.args[0])
        if n == 'Write::write_fmt' or n in ('Write::write_all', 'Write::write', 'Write::write_str'): ps = pieces(ev.args[1])
        else: ps = [('?', None)]
        for t in ts:
            if t.op == 'call' and t.a[0] in ('File::create', 'OpenOptions::open', 'File::create_new', 'File::options'): return 'file', ps
        for t in ts:
            if t.op == 'call' and t.a[0] in ('stdio::stdout',): return 'out', ps
    return None, None

def discr_site(t):
    """(site, call) if t is the discriminant of the result of an iterator step."""
    if t.op == 'discr':
        x = t.a[0]
        if x.op == 'call' and x.a[0] == 'Iterator::next': return x.a[1]
    return None

def merge2(a, b):
    out = list(a)
    for p in b:
        if isinstance(p, str) and out and isinstance(out[-1], str): out[-1] += p
        else: out.append(p)
    return tuple(out)

@rule('C16', *CMDS)
def channels(c, R):
    opts = c.options
    has = {o: any(t.op == 'sym' and t.a[0] == 'opt' and t.a[1] == o for t in list(absint._tab.values())) for o in ('json', 'quiet', 'out')}
    if not has['json']: raise Missing('%s has no --json option' % c.name)
    # who may write to standard output at all
    recs = set(); outs = 0
    for ev in c.events:
        ch, ps = channel(c, ev)
        if ch is None:
            if re.search(r'ProgressDrawTarget::stdout|Term::stdout|Term::buffered_stdout', ev.name):
                R.bad('progress-on-stdout', loc(ev.span), '%s sends progress to standard output' % ev.name)
            continue
        outs += 1
        if ev.thread != 'main': R.bad('worker-output', loc(ev.span), 'a worker thread writes %s' % ('to standard output' if ch == 'out' else 'records'))
        for p in ps:
            if not isinstance(p, str) and p[0] == 'display' and p[1] is not None and is_json(c, p[1]): recs.add(p[1])
    R.ob('write-site-thread', n=outs)
    if not recs: raise Missing('%s prints no JSON record' % c.name)
    sites = set()
    for t in recs: sites |= item_sites(c, t)
    by_out = c.name in ('Topk', 'Botk')
    for json_, quiet, out in itertools.product((False, True), (False, True) if has['quiet'] else (False,), (False, True) if has['out'] else (False,)):
        kw = {'json': json_}
        if has['quiet']: kw['quiet'] = quiet
        if has['out']: kw['out'] = 'Some' if out else 'None'
        ok = c.assume(**kw)
        name = ' '.join(['--json' if json_ else '', '--quiet' if quiet else '', '--out' if out else '']).strip() or 'no options'
        EMPTY = (False, (), (), ())
        done = set()
        def fail(rulename, ev_span, what):
            R.bad(rulename, loc(ev_span) if ev_span else c.name, '%s with %s: %s' % (c.name.lower(), re.sub(' +', ' ', name), what), c.trace())
        def complete(st, span):
            """A result has been dealt with: was it emitted as it should be?"""
            _, so, fo, rd = st
            key = (st, span)
            if key in done: return
            done.add(key); R.ob('result-emitted', loc(span) if span else c.name, name)
            so_j = len(so) == 2 and so[1] == '\n' and not isinstance(so[0], str) and is_json(c, so[0][1])
            if json_:
                if not so: fail('no-json-record', span, 'a result is not printed')
                elif not so_j: fail('json-record-shape', span, 'a result prints %s instead of one JSON record and a newline' % brief(so))
                if rd: fail('text-with-json', span, 'readable output is printed as well')
            else:
                if so: fail('json-without-option', span, 'a JSON record is printed')
                must = not quiet and not (out and by_out)
                mustnot = (quiet and out) if by_out or c.name == 'Unique' else quiet
                if must and not rd: fail('no-readable-output', span, 'a result is not printed')
                if mustnot and rd: fail('output-not-suppressed', span, 'the result is printed')
                if by_out and out and rd: fail('output-not-suppressed', span, 'the result is printed')
            if out:
                if not fo: fail('no-file-record', span, 'a result is not written to the output file')
                elif not (len(fo) == 2 and fo[1] == '\n' and not isinstance(fo[0], str) and is_json(c, fo[0][1])):
                    fail('file-record-shape', span, 'a result writes %s instead of one JSON record and a newline' % brief(fo))
                elif so_j and not c.same(so[0][1], fo[0][1]) and not c.same(fo[0][1], so[0][1]): fail('records-differ', span, 'the file gets another record than standard output')
            elif fo: fail('file-without-option', span, 'a record is written to a file')
        def ev(st, x):
            if x.name == 'process::exit' or x.kind == 'return':
                if x.kind == 'return' and x.thread == 'main':
                    v = x.args[0]
                    if v.op == 'struct' and v.a[0][0] == 'adt' and v.a[0][3] == 'Err': return None
                    if sites:
                        if st[0]: complete(st, last_span[0])
                    else: complete(st, None)
                return None
            ch, ps = channel(c, x)
            if ch is None: return st
            ins, so, fo, rd = st
            js = [p for p in ps if not isinstance(p, str) and p[0] == 'display' and p[1] is not None and is_json(c, p[1])]
            if ch == 'file': fo = merge2(fo, ps)
            elif js: so = merge2(so, ps)
            elif so and all(isinstance(p, str) for p in ps) and so[-1] != '\n': so = merge2(so, ps)
            else:
                k = x.site if x.site is not None else x.span
                sig = (x.span, x.args)
                if sig[0] in [q[0] for q in rd] and sites and not inner(x): fail('printed-twice', x.span, 'readable output is printed twice for one result')
                if (x.span,) not in rd: rd = rd + ((x.span,),)
            if len(so) > 4: so = so[:5]
            if len(fo) > 4: fo = fo[:5]
            if sites and not ins and ch == 'file': fail('record-outside-results', x.span, 'a record is written that belongs to no result')
            return (ins, so, fo, rd)
        def inner(x): return True
        last_span = [None]
        def edge(st, n, m, fa, lb):
            if not ok(fa): return None
            for t, v in fa:
                s = discr_site(t)
                if s in sites and s is not None:
                    sp = spans.get(s)
                    if st[0]: complete(st, sp)
                    elif sites and (st[1] or st[2]): fail('record-outside-results', sp, 'a record is emitted that belongs to no result')
                    if v == 1: return (True, (), (), ())
                    return EMPTY
            return st
        spans = {e.site: e.span for e in c.events if e.name == 'Iterator::next'}
        c.explore([c.entry], EMPTY, ev, edge)
    R.ob('result-sites', n=len(sites) or 1)

def brief(ps): return ' '.join(repr(p) if isinstance(p, str) else '{%s}' % show(p[1], 2)[:40] for p in ps)[:160]

@rule('C16', 'bin')
def logger(f, R):
    F = f[0]
    import subjects
    used = [b for b in F.bodies.values() if b['local'] for bl in b['blocks'] if not bl.get('cleanup') and bl['t'][0] == 'call' and 'simple_logger' in bl['t'][1].get('p', '')]
    for b in used:
        toml = open(os.path.join(subjects.REPO, 'Cargo.toml')).read()
        m = re.search(r'simple_logger\s*=\s*(.*)', toml)
        R.ob('logger-on-stderr', loc(b['span']))
        if not m or '"stderr"' not in m.group(1):
            R.bad('logger-on-stdout', 'Cargo.toml', 'simple_logger writes to standard output without its feature "stderr"')
    if not used: R.ob('no-simple-logger')
