"""C02: every selected line is processed exactly once per pass."""
from check import rule
from common import *
from rules_args import from_list, unwrap_copy, CUT, LEN
from rules_fail import outcome, failing_flags, atomics, is_join

def item_sites_of_spawn(c, x, path):
    """Steps of iterations over the file list whose item the scheduled closure holds."""
    out = set()
    for t in subterms(x.args[-1]):
        if t.op == 'proj' and t.a[1] == 'Some' and t.a[0].op == 'call' and t.a[0].a[0] == 'Iterator::next' and path in c.deep(t.a[0]): out.add(t.a[0].a[1])
    return out

@rule('C02', *COMMANDS)
def one_job_per_file(c, R):
    path = c.opt('path')
    execs = [x for x in c.events if is_exec(x) and x.thread == 'main']
    if not execs: raise Missing('%s schedules no file' % c.name)
    sites = {}
    for x in execs:
        s = item_sites_of_spawn(c, x, path)
        if not s: R.bad('no-file', loc(x.span), 'a scheduled job holds no file of the list')
        for y in s: sites.setdefault(y, x)
    nexts = {e.site: e for e in c.events if e.name == 'Iterator::next' and e.site in sites}
    for s, e in nexts.items():
        src = peel(e.args[0])
        while src.op == 'call' and src.a[0] in ('iter', 'drain') : src = peel([y for y in src.a if isinstance(y, V)][0])
        for y in c.expand(src):
            if y.op == 'undef': continue
            if y.op == 'call' and re.search(r'Index::index|slice::get|split_at|chunks|Iterator::(skip|step_by|filter|take)', y.a[0]):
                L = mk('proj', option(c, 'file-limit'), 'Some', 0)
                if L not in c.deep(y): R.bad('part-of-list', loc(e.span), 'only a part of the file list is scheduled'); break
    def ev(st, x):
        if x.thread != 'main': return None
        ph, n = st
        if is_exec(x):
            R.ob('job', loc(x.span))
            if ph != 'item': R.bad('job-outside-loop', loc(x.span), 'a job is scheduled that belongs to no step of the iteration over the files', c.trace())
            if n >= 1: R.bad('file-twice', loc(x.span), 'a file is handed to a worker twice in one pass', c.trace())
            return (ph, 1)
        f = failing_exit(x)
        if f is True: return None
        if is_join(x) or f is False:
            if ph == 'item':
                R.bad('files-left', loc(x.span) or c.name, 'the iteration over the files is left before its end', c.trace())
            if f is False: return None
        return st
    def edge(st, n, m, fa, lb):
        for t, v in fa:
            if t.op == 'discr' and t.a[0].op == 'call' and t.a[0].a[0] == 'Iterator::next' and t.a[0].a[1] in nexts:
                ph, k = st
                if ph == 'item' and k == 0: R.bad('file-skipped', loc(nexts[t.a[0].a[1]].span), 'a file of the list is not handed to a worker', c.trace())
                st = ('item', 0) if v == 1 else ('end', 0)
        return st
    c.explore([c.entry], ('none', 0), ev, edge)

def places(t):
    if t.op == 'ref': return {(t.a[0], t.a[1])}
    if t.op == 'refs': return {(x.a[0], x.a[1]) for x in t.a[0]}
    return set()

def is_read(c, x): return x.kind == 'call' and (x.name == 'BufRead::read_line' or x.name == 'BufRead::read_until' or lines_next(x))
def lines_next(x): return x.name == 'Iterator::next' and any(t.op == 'call' and t.a[0] == 'BufRead::lines' for t in subterms(x.args[0]))

TRIM = re.compile(r'(str::(trim\w*|as_bytes|as_str)|String::as_(str|bytes)|Deref::deref|AsRef::as_ref|trim_ascii\w*)$')

def phis_of(c, ts):
    out = set(); st = list(ts)
    while st:
        x = st.pop()
        if not isinstance(x, V): continue
        for y in subterms(x):
            if y.op == 'phi' and y not in out:
                out.add(y); st += list(c.e.phi.get(y, ()))
    return out

def line_values(c, x):
    """Line numbers stored in what an event hands over: (field name, term)."""
    out = []
    if x.kind != 'call' or not x.args or x.name not in ('Vec::push', 'VecDeque::push_back', 'coll_add', 'HashMap::insert', 'VecDeque::push_front'): return out
    t = peel(x.args[-1])
    if t.op == 'struct' and t.a[0][0] == 'adt':
        for (fn, ft), v in zip(fields(c, t), t.a[1]):
            if 'line' in fn and fn not in ('lines',): out.append((fn, v))
    return out

_fields = {}
def fields(c, t):
    k = (id(c.F), t.a[0][1], len(t.a[1]))
    if k not in _fields:
        r = None
        for T in c.F.types:
            if isinstance(T, dict) and T.get('k') == 'adt' and T.get('adt') == t.a[0][1] and T.get('variants'):
                for v in T['variants']:
                    if len(v[2]) == len(t.a[1]) and (len(T['variants']) == 1 or v[0] == t.a[0][3]): r = v[2]
        _fields[k] = r or [('?', None)] * len(t.a[1])
    return _fields[k]

ERR = ('idle', 0, False, True, None)

@rule('C02', *COMMANDS)
def lines(c, R):
    path = c.opt('path'); lim = option(c, 'limit')
    reads = [x for x in c.events if x.thread == 'worker' and is_read(c, x)]
    parses = [x for x in c.events if x.thread == 'worker' and re.match(r'de::from_(str|slice|reader)$|Deserialize', x.name)]
    opens = [x for x in c.events if x.thread == 'worker' and x.name == 'File::open']
    if not opens: raise Missing('%s: workers open no file' % c.name)
    if not reads or not parses: raise Missing('%s: workers read or parse no lines' % c.name)
    # what is opened and how it is decoded
    sites = set()
    for x in c.events:
        if is_exec(x): sites |= item_sites_of_spawn(c, x, path)
    for x in opens:
        R.ob('opened-file', loc(x.span))
        ts = [unwrap_copy(y) for y in c.expand(unwrap_copy(x.args[0])) if y.op != 'undef']
        if not ts or not all(t.op == 'proj' and t.a[0].op == 'call' and t.a[0].a[1] in sites for t in ts):
            R.bad('other-file', loc(x.span), 'a worker opens another file than the one it was given')
    for x in reads:
        d = c.deep(x.args[0])
        names = {t.a[0] for t in d if t.op == 'call'}
        R.ob('decoded', loc(x.span))
        if any(re.match(r'(bufread::|read::)?GzDecoder::new$', n) for n in names): R.bad('first-member-only', loc(x.span), 'only the first member of a compressed file is read')
        elif not any('MultiGzDecoder::new' in n for n in names): R.bad('not-decoded', loc(x.span), 'lines are not read from the decompressed file')
        if any(re.match(r'(Read|Iterator)::(take|skip|step_by)$', n) for n in names) and False: pass
    for x in parses:
        R.ob('whole-line', loc(x.span))
        for t in c.expand(peel(x.args[0])):
            t = peel(t)
            while t.op == 'call' and len(t.a) > 2 and isinstance(t.a[2], V) and TRIM.search(t.a[0]): t = peel(t.a[2])
            ok = t.op == 'undef' or t.op == 'mut' and t.a[0].startswith('BufRead::read_') or any(y.op == 'call' and y.a[0] == 'BufRead::lines' for y in subterms(t)) and t.op == 'proj'
            if t.op in ('phi', 'either'):
                ok = all(y.op == 'undef' or y.op == 'mut' and y.a[0].startswith('BufRead::read_') for y in c.expand(t))
            if not ok: R.bad('not-the-line', loc(x.span), 'what is parsed is not the complete line just read: %s' % show(t, 4)[:120])
    flags = {s for s, b in failing_flags(c).items() if not b}
    lv = [v for x in c.events if x.thread == 'worker' for _, v in line_values(c, x)]
    roots = [m for m in c.workers]
    region = [n for n in c.nodes if n.ctx.thread == 'worker']
    # joins that count: those compared with the limit, and line numbers
    track = set()
    for n in region:
        for m, fa, lb in n.succ:
            for t, v in fa:
                if t.op in ('bin', 'phi') and lim is not None and lim in c.deep(t): track |= {p for p in phis_of(c, [t]) if counts(c, p)}
    track |= {p for p in phis_of(c, lv) if counts(c, p)}
    # and what they start from, where that is chosen on another join
    st = list(track)
    while st:
        for y in c.e.phi.get(st.pop(), ()):
            for p in subterms(y):
                if p.op == 'phi' and p not in track and len(c.expand(p)) <= 8 and all(z.op in ('const', 'undef', 'bin', 'sym', 'proj', 'cast') for z in c.expand(p)): track.add(p); st.append(p)
    nums = set()
    for limit in (None, 0, 1, 2):
        L = lim
        if L is None: raise Missing('%s has no --limit' % c.name)
        e0 = {mk('discr', L): 0, L: NONE} if limit is None else {L: some(limit)}
        name = 'no --limit' if limit is None else '--limit %d' % limit
        # (phase, lines, dirty, err, ended)
        def ev(st, x):
            ph, k, dirty, err, ended = st
            if x.thread != 'worker': return st
            if x.kind == 'return':
                if ph == 'none' or err: return None
                R.ob('file-end', c.name, name)
                if ended == 'early': return None
                if ph in ('line', 'parsed') and not (limit is not None and k >= limit):
                    R.bad('line-dropped', where(), 'a line that was read is not processed (%s)' % name, c.trace()); return None
                if ended != 'eof' and limit is None: R.bad('lines-left', where(), 'a file is left before its end (%s)' % name, c.trace())
                if ended != 'eof' and limit is not None and k < limit: R.bad('lines-left', where(), 'a file is left after %d line(s) (%s)' % (k, name), c.trace())
                return None
            if x in openset: return ('idle', 0, False, False, None)
            if err: return st
            if re.match(r'Error::(msg|new|from|construct\w*)$', x.name): return ERR
            if x.name in ('String::clear', 'Vec::clear', 'String::new', 'String::with_capacity', 'mem::take', 'Vec::new', 'Rc::default') and dirty:
                if x.name.endswith('clear') and not (places(x.raw[0]) & bufs): return st
                return (ph, k, False, err, ended)
            if x in readset:
                R.ob('read', loc(x.span), name)
                if ph in ('line', 'parsed'): R.bad('line-dropped', loc(x.span), 'a line is not processed before the next one is read (%s)' % name, c.trace()); return None
                if dirty and not lines_next(x): R.bad('line-leaks', loc(x.span), 'the buffer still holds the previous line when the next one is read', c.trace()); return None
                return ('idle', k, dirty, err, ended)
            if x in parseset:
                R.ob('parse', loc(x.span), name)
                if ph != 'line': R.bad('line-twice', loc(x.span), 'a line is parsed that was already processed (%s)' % name, c.trace()); return None
                if limit is not None and k + 1 > limit: R.bad('limit-exceeded', loc(x.span), 'line %d is processed with %s' % (k + 1, name), c.trace()); return None
                return ('parsed', min(k + 1, 3), dirty, err, ended)
            for fn, v in lvs.get(x, ()):
                R.ob('line-number', loc(x.span), name)
                if 0 < k < 3:
                    w = c.env(v)
                    if w is not UNK and w != k: R.bad('line-number', loc(x.span), 'the %s line of a file gets the number %s' % ({1: 'first', 2: 'second'}[k], w), c.trace())
                    elif w is UNK: nums.add(loc(x.span))
                    else: nums.discard(loc(x.span))
            return st
        def edge(st, n, m, fa, lb):
            ph, k, dirty, err, ended = st
            if err: return st
            for t, v in fa:
                if t.op == 'call' and t.a[0] == 'Atomic::load' and v is True or t.op == 'call' and t.a[0] == 'Atomic::load' and v == 1 and not isinstance(v, tuple):
                    if atomics(c, t.a[2]) and atomics(c, t.a[2]) <= flags: ended = 'early'; ph = 'idle'; continue
                calls, failed = outcome(c, (t, v))
                for y in calls:
                    if failed and (y.a[0].startswith('BufRead::read_') or y.a[0].startswith('de::from_')) : err = True
                    elif failed and y.a[1] in fallible: err = True
                if t.op == 'discr' and v == 1 and any(y.op == 'struct' and y.a[0][0] == 'adt' and y.a[0][3] == 'Err' for y in c.expand(t.a[0])): err = True
                if t.op == 'discr' and t.a[0].op == 'call' and t.a[0].a[0] == 'Iterator::next' and t.a[0].a[1] in lsites:
                    if v == 1: ph = 'line'; dirty = True
                    else: ended = 'eof'
                z = zero_fact(c, t, v)
                if z is not None:
                    if z: ended = 'eof'
                    else: ph = 'line'; dirty = True
                if ph == 'parsed' and text_fact(c, t): ph = 'idle'
            return ERR if err else (ph, k, dirty, err, ended)
        openset = set(opens); readset = set(reads); parseset = set(parses)
        lsites = {x.site for x in reads if lines_next(x)}
        fallible = {x.site for x in c.events if x.thread == 'worker' and x.x.get('rt') == 'Result' and 'lock' not in x.name}
        bufs = set()
        for x in reads:
            if len(x.raw) > 1: bufs |= places(x.raw[1])
        lvs = {}
        for x in c.events:
            if x.thread == 'worker':
                l = line_values(c, x)
                if l: lvs[x] = l
        def where(): return loc(reads[0].span)
        c.explore(roots, ('none', 0, False, False, None), ev, edge, track=track, eval0=e0)
    for w in nums: R.bad('line-number', w, 'the stored line number is not a counter of the lines read')

def counts(c, p):
    xs = c.expand(p)
    return len(xs) <= 8 and all(y.op in ('const', 'undef', 'bin', 'sym', 'proj', 'cast') or y.op == 'call' and y.a[0] in ('Option::unwrap_or', 'Option::unwrap_or_default', 'cmp::min', 'cmp::max', 'Ord::min', 'Ord::max') for y in xs) and any(y.op == 'bin' for y in xs)

def zero_fact(c, t, v):
    """True: nothing was read (end of file); False: a line was read; None: no such fact."""
    if isinstance(v, tuple):
        if read_count(c, t) and 0 in v[1]: return False
        return None
    if t.op == 'bin' and t.a[2].op == 'const' and t.a[2].a[0] in (0, 1) and read_count(c, t.a[1]):
        o, k = t.a[0], t.a[2].a[0]
        r = {('Eq', 0): True, ('Ne', 0): False, ('Gt', 0): False, ('Lt', 1): True, ('Ge', 1): False, ('Le', 0): True}.get((o, k))
        if r is None: return None
        return r if v else not r
    if read_count(c, t): return v == 0
    return None

def read_count(c, t):
    """Whether t is the number of bytes the last read returned."""
    xs = [y for y in c.expand(peel(t)) if y.op != 'undef']
    if not xs: return False
    for y in xs:
        if y.op != 'proj' or y.a[1] != 'Ok': return False
        ys = [z for z in c.expand(y.a[0]) if z.op != 'undef']
        if not ys or not all(z.op == 'call' and z.a[0].startswith('BufRead::read_') for z in ys): return False
    return True

def text_fact(c, t):
    if t.op != 'discr': return False
    for y in c.expand(t.a[0]):
        if y.op == 'fld' and any('text' == z for z in y.a[1:] if isinstance(z, str)): return True
        if y.op in ('fld', 'proj'):
            b = y
            while b.op in ('fld', 'proj'): b = b.a[0]
            if any(z.op == 'call' and z.a[0].startswith('de::from_') for z in c.expand(b)) and y.op == 'fld': return True
    return False
