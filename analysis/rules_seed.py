"""C06, C19: the hash functions and the counting table as --seed, --size and --hashes select them."""
from check import rule
from mainsim import *
from rules_counter import bodies, selfty, WIDTH
import re

SEEDS = (None, 0, 7, (1 << 64) - 1)
class Undecided(Exception): pass

def hasher(n, a):
    """The value of a call that makes a hash function: ('rs', ...) if its arguments determine it."""
    s = n.rsplit('::', 1)[-1]
    if not n.startswith('RandomState::'): return None
    if s == 'with_seeds' and len(a) == 4: return ('unk-rs', n) if UNK in a else ('rs',) + tuple(a)
    if s in ('new', 'with_seed', 'generate_with', 'default', 'set_random_source'): return ('random', n)
    return None

def built(F, b, size, hashes, seed):
    """Results of NgramCounter::new: (allocation failed, value), values of its arguments given."""
    c = Fn(F, b)
    args = {'arg0': size, 'arg1': hashes, 'arg2': NONE if seed is None else some(seed), 'arg3': ('init',)}
    res = []
    def value(m, st, t, E):
        if t.op == 'sym' and t.a[0] in args: return args[t.a[0]]
        if t.op == 'call':
            h = hasher(t.a[0], [E(y) for y in t.a[2:]])
            if h: return h
            if t.a[0] == 'Default::default' and 'RandomState' in t.a[-1:] : return ('random', t.a[0])
            s = t.a[0].rsplit('::', 1)[-1]
            if s in ('clone', 'to_owned') and len(t.a) == 3: return E(t.a[2])
    def step(m, st, x, E):
        n = x.name; s = n.rsplit('::', 1)[-1]
        if x.kind == 'return':
            if x.node.succ: return None
            res.append((st[2], m.freeze(st, E(x.args[0])), m.c.here)); return 'end'
        if x.kind != 'call': return None
        if n == 'Atomic::new': return [(st, ('cell', E(x.args[0])))]
        h = hasher(n, [E(y) for y in x.args])
        if h: return [(st, h)]
        if n.startswith('Default::default') and x.x and 'RandomState' in str(x.x.get('rs') or x.x.get('f', {}).get('self')): return [(st, ('random', n))]
        if s.startswith('try_reserve'):
            return [(st, ('Ok', UNK)), ((st[0], st[1], True), ('Err', UNK))]
        return None
    m = Sim(c, c.entry, {}, step, value, typemax=(1 << 64) - 1)
    m.run([((), (), False)], m.ev)
    return c, res

def parts(v):
    """(cells, hash functions) of the table in an Ok result."""
    if not (isinstance(v, tuple) and v[:1] == ('Ok',)) or not (isinstance(v[1], tuple) and v[1][:1] == ('S',)): return None
    cells = hs = None
    for y in v[1][2]:
        xs = y[1] if isinstance(y, tuple) and y[:1] == ('V',) else None
        if xs is None: continue
        if any(isinstance(z, tuple) and z[:1] == ('cell',) for z in xs): cells = xs
        elif any(isinstance(z, tuple) and z and z[0] in ('rs', 'random', 'unk-rs') for z in xs): hs = xs
    return cells, hs

@rule('C06', 'bin')
def hash_functions(f, R):
    F = f[0]
    bs = bodies(F, 'NgramCounter::new')
    if not bs: raise Missing('NgramCounter::new is not used')
    for b in bs:
        seen = {}
        name = b['n']
        for seed in SEEDS:
            c, res = built(F, b, 2, 3, seed)
            oks = [(v, k) for fl, v, k in res if not fl]
            if not oks: R.bad('no-table', name, 'never makes a table with seed %s' % seed); continue
            for v, k in oks:
                p = parts(v)
                if p is None or p[1] is None:
                    if p is not None and p[0] is not None and seed == SEEDS[-1]: pass
                    raise Undecided('%s: the hash functions are not seen' % name)
                hs = p[1]
                R.ob('hash-functions', '%s seed %s' % (name, seed))
                w = '%s:seed=%s' % (name, seed)
                if seed is None:
                    if not all(h[0] == 'random' for h in hs): R.bad('not-random', w, 'without --seed the hash functions are not random: %s' % (hs,))
                    continue
                rnd = [h for h in hs if h[0] == 'random']
                if rnd: R.bad('random', w, 'with a seed, hash functions are made by %s, which differs from process to process' % rnd[0][1])
                elif any(h[0] != 'rs' for h in hs): R.bad('not-from-seed', w, 'the hash functions are not a function of the seed and their index')
                elif len(set(hs)) != len(hs): R.bad('same-hash', w, 'different indices have the same hash function: %s' % (hs,))
                else: seen.setdefault(hs, set()).add(seed)
        for hs, ss in seen.items():
            R.ob('by-seed', name)
            if len(ss) > 1: R.bad('seed-ignored', name, 'seeds %s give the same hash functions' % sorted(ss))
        if len(seen) < len(SEEDS) - 1 and not R.violations: R.bad('seed-ignored', name, 'a seed gives different hash functions on different paths')

@rule('C19', 'bin')
def table(f, R):
    F = f[0]; unseen = None
    for b in bodies(F, 'NgramCounter::new'):
        name = b['n']
        for size in (1, 2, 3, 6):
            for hashes in (1, 2, 4):
                c, res = built(F, b, size, hashes, 7 if hashes > 1 else None)
                if not any(not fl for fl, v, k in res): R.bad('no-table', name, 'never makes a table of %d cells' % size); continue
                for failed, v, k in res:
                    w = '%s size=%d hashes=%d' % (name, size, hashes)
                    R.ob('table', w)
                    if failed:
                        if isinstance(v, tuple) and v[:1] == ('Ok',): R.bad('smaller-table', w, 'returns a table although the memory could not be allocated')
                        continue
                    p = parts(v)
                    if p is None: 
                        if isinstance(v, tuple) and v[:1] == ('Err',): R.bad('refused', w, 'fails although the memory was allocated')
                        else: raise Undecided(w)
                        continue
                    cells, hs = p
                    if cells is None or hs is None: unseen = w; continue
                    if len(cells) != size: R.bad('table-size', w, 'the table has %d cells instead of %d' % (len(cells), size))
                    if any(z != ('cell', ('init',)) for z in cells): R.bad('initial', w, 'cells do not start at the initial value')
                    if len(hs) != hashes: R.bad('hash-count', w, '%d hash functions instead of %d' % (len(hs), hashes))
    if unseen and not R.violations: raise Undecided(unseen + ': table or hash functions not seen')

def width(x):
    m = re.search(r'Atomic<?\s*[ui](\d+|size)', re.sub(r'sync::atomic::|std::|core::', '', str(x.x.get('rs') or '') ))
    if not m: m = re.search(r'Atomic<?[UIui](\d+|size)', str(x.x))
    return {'size': 8}.get(m.group(1)) or int(m.group(1)) // 8 if m else None

def determined(c, ts):
    """Whether unknown values depend on nothing but the seed and arithmetic."""
    seed = False
    for t in ts:
        for y in set(c.deep(t)) | set(subterms(t)):
            if y.op == 'sym' and y.a[:2] == ('opt', 'seed'): seed = True
            if y.op == 'call' and re.search(r'(process::id|now|random|thread_rng|entropy|env::|thread::|temp_dir|fs::|metadata|current|elapsed)', y.a[0]): return False
            if y.op == 'mut' and re.search(r'(fill|getrandom)', y.a[0]): return False
    return seed

class Start(Main):
    """A command up to its counting table, for chosen options."""
    def __init__(self, c, opts):
        self.tables = []; self.shuffles = []
        super().__init__(c, opts, on=Start.on1, value=Start.val, paths=('p1', 'p2', 'p3'))
    def rng(self, n, a, ts=None):
        s = n.rsplit('::', 1)[-1]
        if s in ('from_entropy', 'thread_rng', 'from_rng', 'from_os_rng', 'rng') or n in ('rand::random', 'random'): return ('rng', 'random')
        if s in ('seed_from_u64', 'from_seed'): return ('rng', s) + tuple(a) if a and not has_unk2(tuple(a)) else ('rng', 'unknown' if ts is None or determined(self.c, ts) else 'undetermined')
        return None
    def val(self, st, t, E):
        if t.op == 'call':
            ts = [y for y in t.a[2:] if isinstance(y, V)]; r = self.rng(t.a[0], [E(y) for y in ts], ts)
            if r: return r
        if t.op == 'mut':
            o = E(t.a[2])
            if isinstance(o, tuple) and o[:1] == ('rng',): return o
        return None
    @staticmethod
    def on1(self, st, x, E):
        if x.kind != 'call': return None
        if x.name == 'NgramCounter::new':
            self.tables.append((x, [E(y) for y in x.args], st[2])); return 'end'
        r = self.rng(x.name, [self.freeze(st, E(y)) for y in x.args], x.args)
        if r: return [(st, r)]
        if x.name.rsplit('::', 1)[-1] in ('shuffle', 'partial_shuffle', 'choose_multiple'):
            v = E(x.args[1])
            return [(self.log(st, ('shuffle', v if v is not UNK else ('rng', 'unknown'), loc(x.span))), UNK)]
        if x.kind == 'call' and (x.name.rsplit('::', 1)[-1] in ('expand_dirs', 'glob')): return [(st, ('Ok', UNK))]
        return None

SIZES = (8, 12, 16, 64, 4096, 1 << 30, 16 << 30, (1 << 30) + 4)
def starts(c, opts):
    o = {'size': 64, 'hashes': 2, 'seed': NONE, 'ngram': 2, 'topk': 3, 'k': 3, 'all': False, 'u64': False, 'p-keep': NONE, 'threshold': 1, 'tokenizer': 'unicode', 'file-limit': NONE}
    o.update(opts)
    m = Start(c, o)
    m.go()
    return m

@rule('C19', 'sim:Topk', 'sim:Botk', 'sim:Unique')
def from_options(c, R):
    want = 'max' if c.name == 'Botk' else 0; unseen = None
    flags = [{}] + ([{'u64': True}] if 'u64' in c.options else [])
    for fl in flags:
        for size in SIZES:
            for hashes in ((5,) if size != 64 else (1, 2, 5, 255)):
                m = starts(c, {'size': size, 'hashes': hashes, **fl})
                if not m.tables: raise Missing('%s makes no counting table' % c.name)
                for x, a, lg in m.tables:
                    W = width(x)
                    where = loc(x.span); d = '%s --size %d --hashes %d%s' % (c.name.lower(), size, hashes, ' --u64' if fl else '')
                    if W is None: raise Undecided('the cell type of %s is not seen' % where)
                    R.ob('options', where)
                    if a[0] is UNK or a[1] is UNK: unseen = where; continue
                    if a[0] != size // W: R.bad('table-bytes', where, '%s: a table of %d cells of %d bytes instead of %d cells' % (d, a[0], W, size // W))
                    if fl and W != 8 : R.bad('cell-width', where, '%s: cells of %d bytes' % (d, W))
                    if a[1] != hashes: R.bad('hashes', where, '%s: %d hash functions' % (d, a[1]))
                    init = (1 << (8 * W)) - 1 if want == 'max' else want
                    if a[3] is UNK: unseen = where
                    elif a[3] != init: R.bad('initial', where, '%s: cells start at %s instead of %s' % (d, a[3], init))
    if unseen and not R.violations: raise Undecided('the size of the table or the number of hash functions at %s' % unseen)

@rule('C06', 'sim:Topk', 'sim:Botk', 'sim:Unique')
def seed_used(c, R):
    seen = {}; unseen = None
    for seed in SEEDS:
        m = starts(c, {'seed': NONE if seed is None else some(seed)})
        if not m.tables: raise Missing('%s makes no counting table' % c.name)
        for x, a, lg in m.tables:
            where = loc(x.span)
            R.ob('seed-passed', where)
            want = NONE if seed is None else some(seed)
            if has_unk2(a[2]) and determined(c, [x.args[2]]): unseen = where
            elif a[2] != want: R.bad('seed-passed', where, 'with --seed %s the table is made with seed %s' % (seed, 'unknown' if a[2] is UNK else a[2]))
            for e in lg:
                if e[0] != 'shuffle': continue
                R.ob('shuffle', e[2])
                if seed is None: continue
                if e[1][1] == 'random': R.bad('shuffle-random', e[2], 'with --seed %s the files are shuffled by a generator seeded from the system' % seed)
                elif e[1][1] == 'unknown': unseen = e[2]
                elif e[1][1] == 'undetermined' : R.bad('shuffle-seed', e[2], 'the order of the files does not follow from the seed')
                else: seen.setdefault((e[2], e[1]), set()).add(seed)
    for (w, v), ss in seen.items():
        if len(ss) > 1: R.bad('shuffle-seed', w, 'seeds %s give the same order of files' % sorted(ss))
    if unseen and not R.violations: raise Undecided('the seed of the shuffle at %s' % unseen)


TEXTS = ('1', '16', '1.5', '4GiB', '512 MB', '100k', '2g', '1024B', '1_000')
@rule('C19', 'bin')
def units(f, R):
    F = f[0]
    n = 0
    for b in F.bodies.values():
        if b['n'] != 'StructOpt::from_clap' or not b['local']: continue
        cmd = next((k for k in ('topk', 'botk', 'unique') if '::%s::' % k in b['p']), None)
        if cmd is None: continue
        c = Fn(F, b)
        n += 1
        for text in TEXTS:
            want = text if any(ch.isalpha() for ch in text) else text + 'GiB'
            res = []
            def value(m, st, t, E):
                if t.op == 'call':
                    s = t.a[0].rsplit('::', 1)[-1]
                    if s in ('value_of', 'value_of_os') and len(t.a) > 3:
                        k = E(t.a[3])
                        return some(text) if k == 'size' else UNK
                    if s == 'format' and 'fmt' in t.a[0]:
                        ps = [p if isinstance(p, str) else UNK if p[1] is None else E(p[1]) for p in pieces(t)]
                        return ''.join(ps) if all(isinstance(p, str) for p in ps) else UNK
            def step(m, st, x, E):
                if x.kind == 'return':
                    if x.node.succ: return None
                    v = E(x.args[0])
                    if isinstance(v, tuple) and v[:1] == ('S',):
                        R.ob('size-kept', cmd)
                        if 7777777 not in v[2]: R.bad('size-changed', cmd, '%s: the size read from the option is changed before it is used' % cmd, c.trace())
                    return 'end'
                if x.kind != 'call' or not x.name.rsplit('::', 1)[-1].startswith('parse_size'): return None
                v = E(x.args[-1])
                res.append((x, v, c.trace())); return [(st, ('Ok', 7777777))]
            class P(Sim):
                def string(self, s, a):
                    if s in ('contains', 'ends_with', 'starts_with', 'parse', 'parse_size'): return UNK
                    return super().string(s, a)
            m = P(c, c.entry, {}, step, value, typemax=(1 << 64) - 1)
            m.run([((), (), ())], m.ev)
            if not res: R.bad('size-unparsed', cmd, '%s: --size is not read as a size' % cmd); continue
            for x, v, tr in res:
                w = '%s %s' % (cmd, loc(x.span))
                R.ob('unit', w)
                if v is UNK: raise Undecided('%s: the text of --size' % w)
                if v != want: R.bad('unit', w, '%s: --size %r is read as %r instead of %r' % (cmd, text, v, want), tr)
    if n < 3: raise Missing('the options of topk, botk and unique')
