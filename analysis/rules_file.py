"""C04: the output file."""
from check import rule
from common import *
from rules_args import unwrap_copy

OPENS = {'File::create', 'File::create_new', 'OpenOptions::open', 'fs::write', 'fs::OpenOptions::open', 'File::create_buffered'}
DESTROY = {'fs::remove_file', 'fs::rename', 'fs::copy', 'fs::remove_dir_all', 'fs::hard_link', 'File::set_len', 'fs::set_permissions'}

def open_flags(c, x, E):
    """Flags a write-open is made with: name -> value (UNK when unknown)."""
    if x.name in ('File::create', 'fs::write', 'File::create_buffered'): return {'write': True, 'truncate': True, 'create': True}
    if x.name == 'File::create_new': return {'write': True, 'create_new': True}
    out = {}
    def go(t, depth=0):
        t = peel(t)
        if depth > 30: return
        if t.op in ('phi', 'either'):
            for y in c.expand(t):
                if y.op != 'undef': go(y, depth + 1)
            return
        n = None
        if t.op == 'call': n = t.a[0]; args = t.a[2:]
        elif t.op == 'mut': n = t.a[0] if isinstance(t.a[0], str) else None; args = [y for y in t.a[1:] if isinstance(y, (V, tuple))]
        if n is None: return
        flat = []
        for y in args:
            if isinstance(y, V): flat.append(y)
            else: flat += [z for z in y if isinstance(z, V)]
        m = n.rsplit('::', 1)[-1]
        if m in ('write', 'read', 'append', 'truncate', 'create', 'create_new') and len(flat) > 1:
            if m not in out: out[m] = E(flat[-1])
        if flat: go(flat[0], depth + 1)
    go(x.args[0])
    return out

def same_path(c, a, b):
    xs = {unwrap_copy(y) for y in c.expand(unwrap_copy(a))}; ys = {unwrap_copy(y) for y in c.expand(unwrap_copy(b))}
    return xs == ys and bool(xs)

def yes(v): return v is True or v == 1 and v is not UNK

@rule('C04', *[n for n in COMMANDS])
def output_file(c, R):
    out = option(c, 'out'); force = option(c, 'force')
    opens = [x for x in c.events if x.kind == 'call' and x.name in OPENS]
    opens = [x for x in opens if not (x.name == 'OpenOptions::open' and not any(yes(v) or v is UNK for k, v in open_flags(c, x, Eval(c, {})).items() if k in ('write', 'append', 'truncate', 'create', 'create_new')))]
    for x in [x for x in c.events if x.kind == 'call' and x.name in DESTROY]:
        R.bad('other-file-changed', loc(x.span), '%s calls %s' % (c.name.lower(), x.name))
    if out is None:
        R.ob('no-output-file', c.name)
        for x in opens: R.bad('other-file-opened', loc(x.span), '%s takes no --out but opens a file for writing' % c.name.lower())
        return
    if force is None: raise Missing('%s has --out but no --force' % c.name)
    if not opens: raise Missing('%s has --out but opens no file for writing' % c.name)
    for x in opens:
        R.ob('write-open', loc(x.span))
        if x.thread != 'main': R.bad('opened-in-worker', loc(x.span), 'a worker opens a file for writing')
        p = x.args[-1] if x.name != 'fs::write' else x.args[0]
        if not any(t is out or t is mk('proj', out, 'Some', 0) for t in c.deep(p)): R.bad('other-file-opened', loc(x.span), 'the file opened for writing is not the one given by --out')
    TEST = r'(Path::(is_file|exists|try_exists)|fs::(metadata|symlink_metadata|exists))$'
    for f in (False, True):
        E = Eval(c, {force: f, mk('discr', out): 1})
        name = 'with --force' if f else 'without --force'
        # state: (existence of the tested path, tested path, opened)
        def path_of(x): return x.args[-1] if x.name != 'fs::write' else x.args[0]
        def ev(st, x):
            ex, tp, opened = st
            if x.thread != 'main': return None
            fe = failing_exit(x)
            if fe is True: return None
            if fe is False:
                if ex == 'yes' and not f: R.bad('existing-file-accepted', loc(x.span) or c.name, '%s succeeds although its output file exists' % c.name.lower(), c.trace())
                return None
            if is_exec(x):
                R.ob('opened-before-work', loc(x.span), name)
                if ex == 'yes' and not f: R.bad('existing-file-accepted', loc(x.span), '%s starts its workers although the output file exists' % c.name.lower(), c.trace()); return None
                if not opened: R.bad('opened-late', loc(x.span), '%s starts its workers before the output file is opened' % c.name.lower(), c.trace()); return None
                return st
            if x in opens:
                fl = open_flags(c, x, E)
                R.ob('open-mode', loc(x.span), name)
                new = yes(fl.get('create_new'))
                if yes(fl.get('append')) or fl.get('append') is UNK: R.bad('appended', loc(x.span), 'the output file is opened for appending: old contents would stay', c.trace())
                known = tp is not None and same_path(c, tp, path_of(x))
                if not new:
                    if not f and not (ex == 'no' and known):
                        R.bad('overwritten-without-force', loc(x.span), '%s: without --force a file is opened for writing that may exist' % c.name.lower() + ('' if ex != 'no' else ' (the path tested is another one)'), c.trace())
                    elif f and not yes(fl.get('truncate')) and not (ex == 'no' and known):
                        R.bad('not-truncated', loc(x.span), 'an existing output file is opened without discarding its contents', c.trace())
                elif f and not (ex == 'no' and known):
                    R.bad('force-refused', loc(x.span), 'an existing output file is an error even with --force', c.trace())
                return (ex, tp, True)
            return st
        def edge(st, n, m, fa, lb):
            if not E.feasible(fa): return None
            for t, v in fa:
                y = t
                neg = False
                if y.op == 'discr' or y.op == 'proj': 
                    y = y.a[0]
                while y.op == 'un' and y.a[0] == 'Not': y = y.a[1]; neg = not neg
                if y.op == 'call' and y.a[0] in ('Result::is_ok', 'Result::is_err', 'Result::unwrap_or'):
                    neg ^= y.a[0] == 'Result::is_err'; y = peel(y.a[2])
                if y.op == 'proj': y = y.a[0]
                if y.op == 'call' and re.search(TEST, y.a[0]) and not isinstance(v, tuple):
                    if t.op == 'discr':
                        if y.a[0].endswith('exists'): continue
                        r = v == 0
                    else: r = bool(v) != neg
                    p = y.a[2]
                    if not any(z is out or z is mk('proj', out, 'Some', 0) for z in c.deep(p)): continue
                    if st[1] is not None and same_path(c, st[1], p) and st[0] != ('yes' if r else 'no'):
                        if y.a[0] == 'Path::is_file': return None
                    st = ('yes' if r else 'no', p, st[2])
            return st
        c.explore([c.entry], ('unknown', None, False), ev, edge)
    # without --out no file at all
    E = Eval(c, {mk('discr', out): 0})
    def ev(st, x):
        if x.thread != 'main' or failing_exit(x) is not None: return None
        if x in opens: R.bad('file-without-option', loc(x.span), 'without --out a file is opened for writing', c.trace())
        return st
    c.explore([c.entry], 0, ev, lambda st, n, m, fa, lb: st if E.feasible(fa) else None)
    R.ob('no-file-without-option', c.name)
