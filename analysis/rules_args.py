"""C14: unusable arguments are refused before work.  C15: expansion of directories."""
from check import rule
from common import *

WORK = {'File::open', 'File::create', 'File::create_new', 'OpenOptions::open', 'fs::create_dir_all', 'fs::create_dir', 'fs::write',
        'Vec::try_reserve_exact', 'Vec::try_reserve', 'fs::read', 'fs::read_to_string', 'DirBuilder::create'}
REQUIRED = {
    'Topk': ('file-limit', 'ngram', 'k', 'size', 'hashes'), 'Botk': ('file-limit', 'ngram', 'k', 'size', 'hashes', 'p-keep'),
    'Unique': ('file-limit', 'ngram', 'size', 'hashes'), 'Count': ('file-limit', 'search'), 'Search': ('file-limit', 'pattern', 'locations-limit'),
    'Stats': ('file-limit',),
}
BAD = {
    'file-limit': [('--file-limit 0', some(0))], 'ngram': [('-n 0', 0)], 'k': [('-k 0', 0)], 'size': [('--size 0', 0)], 'hashes': [('--hashes 0', 0)],
    'p-keep': [('--p-keep 0', some(0.0)), ('--p-keep -0', some(-0.0)), ('--p-keep -1', some(-1.0)), ('--p-keep 1.01', some(1.01)), ('--p-keep 2', some(2.0)), ('--p-keep 1e30', some(1e30)), ('--p-keep -1e-30', some(-1e-30)),
               ('--p-keep NaN', some(float('nan'))), ('--p-keep inf', some(float('inf'))), ('--p-keep -inf', some(float('-inf')))],
}
GOOD = {
    'file-limit': [('no --file-limit', NONE), ('--file-limit 1', some(1)), ('--file-limit 2', some(2))], 'ngram': [('-n 1', 1), ('-n 5', 5)], 'k': [('-k 1', 1), ('-k 100', 100)],
    'size': [('--size 8', 8), ('--size 16GiB', 1 << 34)], 'hashes': [('--hashes 1', 1), ('--hashes 7', 7)],
    'p-keep': [('no --p-keep', NONE), ('--p-keep 1', some(1.0)), ('--p-keep 0.5', some(0.5)), ('--p-keep 1e-6', some(1e-6))],
}

def is_work(c, x):
    if is_exec(x) or x.name in WORK: return True
    if x.name in ('Vec::with_capacity', 'vec::from_elem', 'iter::repeat_n') and x.args:
        size = option(c, 'size')
        return size is not None and size in c.deep(x.args[-1])
    return False

def attempt(c, ev, start=None, extra=None):
    """(work event or success exit reached, failing exit reached, ThreadPool reached) when the branches are pruned by ev."""
    hit = []; fails = []; execs = []
    def step(st, x):
        if x.thread != 'main': return None
        f = failing_exit(x)
        if f is True: fails.append(x); return None
        if f is False:
            hit.append((x, c.trace())); return None
        if is_exec(x): execs.append(x)
        if is_work(c, x): hit.append((x, c.trace()))
        return st
    def edge(st, n, m, fa, lb): return st if ev.feasible(fa) else None
    c.explore([c.entry], 0, step, edge)
    return hit, fails, execs

def nonzero_type(c, o):
    """The option's type itself excludes zero."""
    t = option_type(c, o)
    return t is not None and 'NonZero' in t

def option_type(c, o):
    for (ty, fn), nm in c.e.optnames.items():
        if nm == o.a[1] and ty.rsplit('::', 2)[-2:-1] == [c.name.lower()]:
            for T in c.F.types:
                if isinstance(T, dict) and T.get('k') == 'adt' and T.get('p') == ty and not T.get('enum'):
                    for f, ft in T['variants'][0][2]:
                        if f == fn: return str(c.F.types[ft] if isinstance(ft, int) else ft)
    return None

@rule('C14', *COMMANDS)
def refused(c, R):
    ds = decls(c)
    und = None
    for need in REQUIRED[c.name]:
        o = option(c, need)
        if o is None: raise Missing('%s takes no option %s' % (c.name, need))
        if need not in BAD: continue
        f32 = True
        for what, val in BAD[need]:
            v = val
            wrapped = isinstance(val, tuple)
            raw = val[1] if wrapped else val
            envs = [{o: v}]
            opt_is_option = is_option_typed(c, o)
            if wrapped and not opt_is_option: envs = [{o: raw}]
            if not wrapped and opt_is_option: envs = [{o: some(raw)}]
            hit, fails, _ = attempt(c, Eval(c, envs[0]))
            R.ob('refused', c.name, what)
            if need != 'p-keep' and nonzero_type(c, o): continue
            if hit and tabled(c, o): und = what; continue
            for x, tr in hit[:1]:
                R.bad('not-refused', loc(x.span) if x.span else c.name, '%s accepts %s: %s is reached' % (c.name.lower(), what, 'its successful end' if failing_exit(x) is False else x.name), tr)
            if not hit and not fails: R.bad('not-refused', c.name, '%s with %s ends in no error' % (c.name.lower(), what))
        for what, val in GOOD[need]:
            wrapped = isinstance(val, tuple)
            opt_is_option = is_option_typed(c, o)
            v = val
            if wrapped and not opt_is_option:
                if val == NONE: continue
                v = val[1]
            if not wrapped and opt_is_option: v = some(val)
            hit, fails, ex = attempt(c, Eval(c, {o: v}))
            R.ob('accepted', c.name, what)
            if not ex: R.bad('refused-valid', c.name, '%s with %s never starts its workers' % (c.name.lower(), what))
    if und: raise Gone('%s: %s is looked for by way of a table of conditions' % (c.name, und))

def tabled(c, o):
    """The outcome of a test of the option is an entry of a list that is gone through in a loop."""
    def tests(y): return (y.op == 'bin' or y.op == 'call' and (y.a[0] in LEN or y.a[0].startswith('PartialEq'))) and o in c.deep(y)
    for n in c.nodes:
        if n.ctx.thread != 'main': continue
        for m, fa, lb in n.succ:
            for t, v in fa:
                if any(y.op == 'call' and y.a[0] == 'Iterator::next' and any(z.op == 'struct' and any(isinstance(q, V) and any(tests(w) for w in subterms(q)) for q in z.a[1]) for z in c.deep(y)) for y in subterms(t)): return True
    return False

def is_option_typed(c, o):
    t = option_type(c, o)
    if t is not None: return 'Option' in t
    d = mk('discr', o)
    return any(t is d for e in (n.succ for n in c.nodes) for _, fa, _ in e for t, _ in fa)

LEN = ('Vec::is_empty', 'slice::is_empty', 'Vec::len', 'slice::len', 'slice::first', 'slice::last', 'Vec::first', 'ExactSizeIterator::len', 'VecDeque::len', 'VecDeque::is_empty')

def empty_hook(c, o, also=()):
    def hook(t, ev):
        if t.op == 'call' and len(t.a) > 2:
            if t.a[0] in LEN and from_list(c, t.a[2], o): return True if t.a[0].endswith('is_empty') else 0 if t.a[0].endswith('len') else NONE
            if t.a[0] == 'Iterator::next' and from_list(c, t.a[2], o): return NONE
        if t.op == 'discr' and t.a[0].op == 'call' and t.a[0].a[0] == 'Iterator::next' and from_list(c, t.a[0].a[2], o): return 0
        return UNK
    return hook

def from_list(c, t, o):
    """t is the list given for the option, or was filled from it (not: an element of it, or something computed from one)."""
    seen = set(); st = [peel(t)]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x is o: return True
        if x.op in ('&', 'deref'): st.append(x.a[0])
        elif x.op == 'cast': st.append(x.a[1])
        elif x.op == 'phi': st += list(c.e.phi.get(x, ()))
        elif x.op == 'either': st += list(x.a[0])
        elif x.op == 'mut': 
            st += [y for y in x.a if isinstance(y, V)]
        elif x.op == 'call' and x.a[0] in ('iter',) or x.op == 'iter': st += [y for y in x.a if isinstance(y, V)]
        elif x.op == 'call' and x.a[0] == 'Iterator::next': st += [y for y in x.a if isinstance(y, V)]
        elif x.op == 'proj': st.append(x.a[0])
        elif x.op == 'fld': st.append(x.a[0])
        elif x.op == 'struct': st += [y for y in x.a[1] if isinstance(y, V)]
        elif x.op == 'call' and len(x.a) > 2 and isinstance(x.a[2], V) and re.search(r'clone|to_vec|to_owned|into_iter|iter$|deref|as_slice|collect|into_boxed', x.a[0]): st.append(x.a[2])
    return False

@rule('C14', *COMMANDS)
def empty_lists(c, R):
    lists = [('path', 'an empty file list')]
    if c.name == 'Count': lists.append(('search', 'no search string'))
    if c.name == 'Search': lists.append(('pattern', 'no pattern'))
    for o, what in lists:
        os_ = c.opt(o) if o == 'path' else option(c, o)
        d = decls(c).get(os_.a[1], {}) if o != 'path' else {}
        hit, fails, _ = attempt(c, Eval(c, {}, empty_hook(c, os_)))
        R.ob('refused', c.name, what)
        if hit and tabled(c, os_): raise Gone('%s: %s is looked for by way of a table of conditions' % (c.name, what))
        for x, tr in hit[:1]:
            R.bad('not-refused', loc(x.span) if x.span else c.name, '%s accepts %s: %s is reached' % (c.name.lower(), what, 'its successful end' if failing_exit(x) is False else x.name), tr)
        if not hit and not fails: R.bad('not-refused', c.name, '%s with %s ends in no error' % (c.name.lower(), what))

@rule('C14', 'Search')
def patterns(c, R):
    o = option(c, 'pattern')
    new = [x for x in c.events if x.kind == 'call' and re.match(r'(Regex|RegexBuilder|RegexSet|RegexSetBuilder)::(new|build)$', x.name) and o in c.deep(x.args[0])]
    new = [x for x in new if x.name not in ('RegexBuilder::new', 'RegexSetBuilder::new')]
    if not new: raise Missing('search compiles no pattern')
    sites = {mk('discr', x.ret): x for x in new if x.ret is not None}
    for x in new:
        if x.thread != 'main': R.bad('pattern-compiled-late', loc(x.span), 'a worker compiles the patterns')
    calls = {mk_id(x): x for x in new}
    def step(st, x):
        f = failing_exit(x)
        if f is True: return None
        if st == 'bad' and (f is False or is_work(c, x)):
            R.bad('invalid-pattern-accepted', loc(x.span), '%s is reached although a pattern is invalid' % x.name, c.trace()); return None
        if f is False: return None
        if is_work(c, x) and st == 'none': R.bad('patterns-unchecked', loc(x.span), '%s is reached before the patterns are compiled' % x.name, c.trace()); return None
        if any(x is y for y in new): return 'ok' if st != 'bad' else st
        return st
    def edge(st, n, m, fa, lb):
        for t, v in fa:
            if t.op == 'discr' and any(y.op == 'call' and y.a[0] == new[0].name for y in c.expand(t.a[0])) and (v == 1): return 'bad'
        # no pattern at all: another rule
        for t, v in fa:
            if discr_next_none(c, t, v, o) and st == 'none': return 'ok'
        return st
    c.explore([c.entry], 'none', step, edge)
    R.ob('patterns-compiled-first', loc(new[0].span), n=len(new))

def mk_id(x): return (x.site, x.span)

def discr_next_none(c, t, v, o):
    return v == 0 and t.op == 'discr' and t.a[0].op == 'call' and t.a[0].a[0] == 'Iterator::next' and from_list(c, t.a[0].a[2], o)

@rule('C14', 'Search')
def needs_locations(c, R):
    lim = option(c, 'locations-limit'); w = option(c, 'with-locations')
    if lim is None or w is None: raise Missing('search has no --with-locations / --locations-limit')
    d = decls(c)[lim.a[1]]
    R.ob('refused', c.name, '--locations-limit without --with-locations')
    if d.get('requires') in ('with-locations', 'with_locations'): return
    for n in (0, 1, 1000):
        hit, fails, _ = attempt(c, Eval(c, {lim: some(n), w: False}))
        for x, tr in hit[:1]: R.bad('not-refused', loc(x.span) if x.span else c.name, 'search accepts --locations-limit %d without --with-locations: %s is reached' % (n, x.name), tr)
    for n in (1, 1000):
        hit, fails, ex = attempt(c, Eval(c, {lim: some(n), w: True}))
        if not ex: R.bad('refused-valid', c.name, 'search with --with-locations --locations-limit %d never starts its workers' % n)
    _, _, ex = attempt(c, Eval(c, {lim: NONE, w: False}))
    if not ex: R.bad('refused-valid', c.name, 'search without options on locations never starts its workers')

CUT = ('Vec::truncate', 'Iterator::take', 'Vec::split_off', 'Vec::drain', 'Vec::resize')

@rule('C14', *COMMANDS)
def file_limit(c, R):
    """With a limit, the expanded list is cut to exactly that many entries before any file is scheduled or the list is reordered."""
    o = option(c, 'file-limit'); path = c.opt('path')
    L = mk('proj', o, 'Some', 0)
    ev = Eval(c, {mk('discr', o): 1})
    seen_cut = []
    def step(st, x):
        if x.thread != 'main' or failing_exit(x) is not None: return None
        if st == 'whole':
            if cut(x):
                seen_cut.append(x); return 'cut'
            if is_exec(x) or re.search(r'shuffle|::sort|::reverse|swap', x.name) and x.args and from_list(c, x.args[0], path):
                if not bounded(x):
                    R.bad('file-limit-ignored', loc(x.span), '%s is reached with the list not cut to --file-limit' % x.name, c.trace())
                return None
        elif st == 'cut' and re.match(r'glob::glob|WalkDir|fs::read_dir', x.name):
            R.bad('file-limit-early', loc(x.span), 'the list is cut to --file-limit before directories are expanded', c.trace()); return None
        return st
    def cut(x):
        if x.name == 'Vec::truncate' and len(x.args) > 1: return is_L(x.args[1]) and from_list(c, x.args[0], path)
        if x.name in ('Vec::drain', 'Vec::split_off') and len(x.args) > 1: return any(is_L(t) or is_min(t) for t in subterms(x.args[1])) and from_list(c, x.args[0], path)
        return False
    def is_L(t):
        t = peel(t)
        if t is L: return True
        xs = [y for y in c.expand(t) if y.op != 'undef']
        if xs and all(y is L or (y.op == 'call' and y.a[0].endswith('::min') and L in subterms(y)) for y in xs): return True
        return False
    def is_min(t): return t.op == 'call' and re.search(r'min$', t.a[0]) and L in subterms(t)
    def bounded(x):
        """The scheduled path comes from a slice or an adaptor bounded by the limit, or under a counter compared with it."""
        for t in c.deep(x.args[-1] if x.args else x.raw[0]):
            if t.op == 'call' and re.search(r'Iterator::take$|Index::index$|slice::(split_at|get)$|chunks', t.a[0]) and any(is_L(y) or is_min(y) for y in bounds(t)): return True
        for t, v in (x.facts or {}).items():
            if t.op == 'bin' and 'const' in (peel(t.a[1]).op, peel(t.a[2]).op): continue
            if t.op == 'bin' and t.a[0] in ('Lt', 'Ge') and peel(t.a[2]) is L and bool(v) == (t.a[0] == 'Lt'): return True
            if t.op == 'bin' and t.a[0] in ('Gt', 'Le') and peel(t.a[1]) is L and bool(v) == (t.a[0] == 'Gt'): return True
            if t.op == 'bin' and t.a[0] in ('Eq', 'Ne') and L in (peel(t.a[2]), peel(t.a[1])) and bool(v) == (t.a[0] == 'Ne'): return True
        return False
    def countdown(t):
        xs = [y for y in c.expand(t) if y.op != 'undef']
        return len(xs) > 1 and L in xs and all(y is L or y.op == 'bin' and y.a[0].startswith('Sub') and y.a[2].op == 'const' and y.a[2].a[0] == 1 for y in xs)
    def bounds(t):
        out = []
        for a in t.a[2:]:
            if not isinstance(a, V): continue
            for y in c.expand(peel(a)):
                out.append(y)
                if y.op == 'struct': out += [z for z in y.a[1] if isinstance(z, V)]
        return out
    def edge(st, n, m, fa, lb):
        if not ev.feasible(fa): return None
        if st == 'whole':
            for t, v in fa:
                if t.op == 'bin' and t.a[2].op == 'const' and t.a[2].a[0] == 0 and countdown(t.a[1]): return 'cut'
                if countdown(t): return 'cut'
            # the list is known not to be longer than the limit
            for t, v in fa:
                if t.op == 'bin' and t.a[0] in ('Gt', 'Lt', 'Ge', 'Le'):
                    a, b, k = peel(t.a[1]), peel(t.a[2]), t.a[0]
                    if b is L and is_len(a): a, b = a, b
                    elif a is L and is_len(b): a, b, k = b, a, {'Gt': 'Lt', 'Lt': 'Gt', 'Ge': 'Le', 'Le': 'Ge'}[k]
                    else: continue
                    v = bool(v)
                    if (k, v) in (('Gt', False), ('Lt', True), ('Ge', False), ('Le', True)): return 'cut'
        return st
    def is_len(t): return t.op == 'call' and t.a[0] in LEN and from_list(c, t.a[2], path)
    c.explore([c.entry], 'whole', step, edge)
    R.ob('file-limit-applied', loc(seen_cut[0].span) if seen_cut else c.name)

# ---------------------------------------------------------------- C15
def strconsts(c, t): return [x.a[0] for x in c.deep(t) if x.op == 'const' and isinstance(x.a[0], str)]

def unwrap_copy(t):
    while True:
        if t.op in ('&', 'deref'): t = t.a[0]
        elif t.op == 'cast': t = t.a[1]
        elif t.op == 'call' and len(t.a) > 2 and isinstance(t.a[2], V) and re.search(r'::(clone|to_path_buf|to_owned|into|from|as_path|as_ref|into_path_buf|borrow|deref)$', t.a[0]): t = t.a[2]
        else: return t

NEWLIST = ('Vec::new', 'Vec::with_capacity', 'VecDeque::new', 'VecDeque::with_capacity', 'Default::default')

@rule('C15', *COMMANDS)
def expansion(c, R):
    path = c.opt('path')
    steps = [x for x in c.events if x.kind == 'call' and x.name == 'Iterator::next' and x.thread == 'main']
    def direct(t):
        t = peel(t)
        if t.op == 'iter' or t.op == 'call' and t.a[0] == 'iter': return peel([y for y in t.a if isinstance(y, V)][0]) is path
        return t is path
    globs = [x for x in c.events if x.kind == 'call' and re.match(r'glob::glob', x.name)]
    if not globs: raise Missing('%s: no directory is expanded with glob' % c.name)
    isdirs = [x for x in c.events if x.kind == 'call' and re.search(r'::(is_dir|is_file)$', x.name) and any(t.op == 'call' and t.a[0] == 'Iterator::next' and direct(t.a[2]) for t in subterms(x.args[0]))]
    if not isdirs: raise Missing('%s: the arguments are not tested for being directories' % c.name)
    bodies = {n.ctx.id for n in c.nodes for x in n.events if x in globs or x in isdirs}
    region = [n for n in c.nodes if within(n.ctx, bodies)]
    track = c.flags(region)
    def item_of(t): return t.op == 'call' and t.a[0] == 'Iterator::next' and direct(t.a[2])
    def glob_next(t): return t.op == 'call' and t.a[0] == 'Iterator::next' and any(y.op == 'call' and y.a[0].startswith('glob::glob') for y in c.expand(strip(t.a[2])))
    def strip(t):
        while True:
            t = peel(t)
            if t.op in ('proj', 'fld'): t = t.a[0]
            elif t.op == 'call' and t.a[0] == 'iter': t = [y for y in t.a if isinstance(y, V)][0]
            else: return t
    # the patterns
    for x in globs:
        ps = pieces(x.args[0])
        lits = ''.join(p for p in ps if isinstance(p, str))
        esc = [t for t in c.deep(x.args[0]) if t.op == 'call' and t.a[0] == 'Pattern::escape']
        R.ob('pattern', loc(x.span))
        simple = len(ps) == 2 and not isinstance(ps[0], str) and isinstance(ps[1], str)
        if not simple:
            cs = [s for s in strconsts(c, x.args[0]) if '*' in s]
            lits = ''.join(cs)
        if lits not in ('/**/*.json*.gz', '**/*.json*.gz'): R.bad('pattern', loc(x.span), 'a directory is expanded with %r instead of /**/*.json*.gz below it' % lits)
        if not esc: R.bad('pattern-unescaped', loc(x.span), 'the name of the directory is used as a pattern: characters such as [ or * in it would be interpreted')
        elif not any(item_of(y) for t in esc for y in c.deep(t)): R.bad('pattern', loc(x.span), 'the expanded directory is not the argument')
        if simple and not any(t.op == 'call' and t.a[0] == 'Pattern::escape' for y in c.expand(peel(ps[0][1])) for t in [peel(y)] ): 
            if not all(any(z.op == 'call' and z.a[0] == 'Pattern::escape' for z in subterms(y)) for y in c.expand(peel(ps[0][1]))): R.bad('pattern-unescaped', loc(x.span), 'the name of the directory is not always escaped')
        if x.name == 'glob::glob_with':
            o = peel(x.args[1])
            if not (o.op == 'call' and re.search(r'::(new|default)$', o.a[0])): R.bad('pattern-options', loc(x.span), 'glob options may exclude files or change matching')
    span = {}
    # state: (phase, kind, pushes, globbed, hits, entry)
    OUT = ('out', None, 0, 0, 0, None)
    def finish(st):
        ph, kind, pushes, globbed, hits, entry = st
        if ph != 'item': return
        R.ob('argument', loc(span.get('item', '')) or c.name)
        if entry == 'ok': R.bad('file-dropped', where(), 'a file found in a directory is not added to the list', c.trace())
        if kind == 'file' and pushes == 0: R.bad('argument-dropped', where(), 'a plain argument is not added to the list', c.trace())
        if kind == 'file' and pushes > 1: R.bad('argument-twice', where(), 'a plain argument is added more than once', c.trace())
        if kind == 'dir':
            if not globbed: R.bad('directory-not-expanded', where(), 'a directory is not expanded', c.trace())
            if pushes: R.bad('directory-kept', where(), 'the directory itself is added to the list', c.trace())
            if globbed and not hits: R.bad('empty-directory-accepted', where(), 'a directory without matching file is no error', c.trace())
        if kind is None: R.bad('argument-not-tested', where(), 'an argument is taken without testing whether it is a directory', c.trace())
    def where():
        for x in globs: return loc(x.span)
    def nothing(t, ev):
        # nothing was found: the lists filled from the search are as they were
        if t.op == 'call' and t.a[0] in LEN:
            n = 0 if all(y.a[1] in fresh for y in c.deep(t.a[2]) if y.op == 'call' and y.a[0] in NEWLIST) or born_here(t.a[2]) else base[0]
            return n == 0 if t.a[0].endswith('is_empty') else n if t.a[0].endswith('len') else NONE if n == 0 else UNK
        return UNK
    base = [0]
    class zero:
        """Feasible if nothing was found, the list of earlier arguments being empty or not."""
        def feasible(fa):
            for base[0] in (0, 3):
                if Eval(c, {}, nothing).feasible(fa): return True
            return False
    def born_here(t):
        """The list lives in a variable that exists only while one argument is dealt with."""
        slots = {y.a[1][0] for y in c.deep(t) if y.op == 'phi'}
        at = [y.a[0] for y in c.e.phi if y.a[1][0] in slots]
        return bool(at) and all(n in during for n in at)
    during = set()
    st = [m for n in c.nodes for m, fa, lb in n.succ if any(t.op == 'discr' and item_of(t.a[0]) and v == 1 for t, v in fa)]
    while st:
        n = st.pop()
        if n.id in during or any(t.op == 'discr' and item_of(t.a[0]) for m, fa, lb in n.succ for t, v in fa): continue
        during.add(n.id)
        st += [m for m, fa, lb in n.succ]
    # calls made while an argument is dealt with: a list created elsewhere may hold files of earlier arguments
    callers = set(bodies)
    ctxs = {n.ctx for n in c.nodes if any(t.op == 'discr' and item_of(t.a[0]) for m, fa, lb in n.succ for t, v in fa)}
    callers |= {x.id for x in ctxs}
    fresh = set(); st = [m for n in c.nodes for m, fa, lb in n.succ if any(t.op == 'discr' and item_of(t.a[0]) and v == 1 for t, v in fa)]; seen = set()
    while st:
        n = st.pop()
        if n in seen: continue
        seen.add(n)
        for x in n.events:
            if x.site is not None: fresh.add(x.site)
        # (and in functions called from there)
        st += [m for m, fa, lb in n.succ if within(m.ctx, callers)]
    def ev(st, x):
        if x.thread != 'main': return None
        f = failing_exit(x)
        if f is True: return None
        ph, kind, pushes, globbed, hits, entry = st
        if ph == 'fail':
            if f is False or is_exec(x) or is_work(c, x) or x.name == 'Iterator::next' and (direct(x.args[0])):
                R.bad('unreadable-entry-accepted', loc(x.span) or c.name, 'an error of the directory search is not reported', c.trace()); return None
            return st
        if f is False: return None
        if is_exec(x):
            d = c.deep(x.args[-1])
            R.ob('expanded-list-used', loc(x.span))
            if not any(t.op == 'call' and t.a[0].startswith('glob::glob') for t in d): R.bad('not-expanded', loc(x.span), '%s schedules arguments that were not expanded' % c.name.lower(), c.trace())
            return None
        if ph == 'done':
            if x.args and re.search(r'slice::(sort|reverse|rotate|select|fill|swap)|Vec::(dedup|retain|sort|remove|swap_remove|clear|pop|insert)|SliceRandom::|shuffle', x.name) and from_list(c, x.args[0], path):
                if not (c.name == 'Botk' and 'shuffle' in x.name): R.bad('list-changed', loc(x.span), '%s changes the expanded list' % x.name, c.trace())
            return st
        if ph != 'item': return st
        if x.name.startswith('glob::glob'):
            return (ph, kind, pushes, 1, hits, entry)
        if x.name in ('Vec::push', 'coll_add', 'VecDeque::push_back', 'Vec::insert', 'Vec::extend') and len(x.args) > 1:
            v = unwrap_copy(x.args[-1])
            if v.op == 'proj' and item_of(v.a[0]):
                if x.name == 'Vec::insert': R.bad('order', loc(x.span), 'the order of the arguments is not kept', c.trace())
                return (ph, kind, min(pushes + 1, 2), globbed, hits, entry)
            if v.op == 'proj' and v.a[1] == 'Ok' and v.a[0].op == 'proj' and glob_next(v.a[0].a[0]):
                if x.name == 'Vec::insert': R.bad('order', loc(x.span), 'the order of the arguments is not kept', c.trace())
                if entry == 'added': R.bad('file-twice', loc(x.span), 'a file found in a directory is added twice', c.trace())
                return (ph, kind, pushes, globbed, 1, 'added')
        return st
    def edge(st, n, m, fa, lb):
        for t, v in fa:
            ph, kind, pushes, globbed, hits, entry = st
            if t.op == 'discr':
                y = t.a[0]
                if item_of(y):
                    finish(st)
                    if ph == 'fail': return None
                    st = ('item', None, 0, 0, 0, None) if v == 1 else ('done', None, 0, 0, 0, None)
                    continue
                if ph != 'item': continue
                if glob_next(y):
                    if entry in ('ok', 'new'): R.bad('file-dropped', where(), 'an entry found in a directory is not added to the list', c.trace())
                    st = (ph, kind, pushes, globbed, hits, 'new' if v == 1 else None)
                elif y.op == 'call' and y.a[0].startswith('glob::glob') and v == 1: return ('fail', None, 0, 0, 0, None)
                elif y.op == 'proj' and glob_next(y.a[0]):
                    if v == 1: return ('fail', None, 0, 0, 0, None)
                    if entry == 'new': st = (ph, kind, pushes, globbed, hits, 'ok')
                continue
            if ph != 'item': continue
            if t.op == 'call' and re.search(r'::(is_dir|is_file)$', t.a[0]) and any(item_of(y) for y in subterms(t)):
                isdir = bool(v) == t.a[0].endswith('is_dir')
                if t.a[0].endswith('is_file') and kind: continue
                if kind and (kind == 'dir') != isdir: return None
                st = (ph, 'dir' if isdir else 'file', pushes, globbed, hits, entry)
            elif globbed and entry is None:
                if not hits and not zero.feasible([(t, v)]): return None
        return st
    c.explore([c.entry], OUT, ev, edge, track=track)
