"""C24: deduplication removes exactly the listed documents."""
import copy, itertools, shlex, json, re, os
from check import rule
from pyabs import *
from pyworld import *
import pyabs

D = 'wimbd/text_and_url_overlaps/'
DD = D + 'helper_scripts/deduplicate_by_hash.py'; GH = D + 'helper_scripts/get_text_hashes.py'

class Shared:
    """A memory-mapped array: the same for all processes."""
    def __init__(self, w, n, stale): self.w = w; self.v = [bool(stale)] * n
    def __deepcopy__(self, m): return self
    def __len__(self): return len(self.v)
    def __getitem__(self, i):
        if not isinstance(i, int): raise Undecided('index %r' % (i,))
        if i < -len(self.v) or i >= len(self.v): raise IndexError('index %d is out of bounds for axis 0 with size %d' % (i, len(self.v)))
        self.w.seen_access('read', i); return self.v[i]
    def __setitem__(self, i, x):
        if not isinstance(i, int): raise Undecided('index %r' % (i,))
        if i < -len(self.v) or i >= len(self.v): raise IndexError('index %d is out of bounds for axis 0 with size %d' % (i, len(self.v)))
        self.w.seen_access('write', i); self.v[i] = bool(x)
    def flush(self): pass

class DedupWorld(CliWorld):
    def __init__(self, order='in order', **kw):
        CliWorld.__init__(self, **kw); self.order = order; self.locked = None; self.sections = 0; self.problems = []; self.proc = 0; self.reads = {}
        self.pools = 0
    def digest(self, o): return '%s-of-%r' % (o.data['algo'], o.data['text'])
    def seen_access(self, op, i):
        if not self.locked: self.problems.append('the table of hashes already seen is %s without the lock' % ('read' if op == 'read' else 'written'))
        if op == 'read': self.reads[i] = (self.sections, self.locked)
        elif self.locked and self.reads.get(i) != (self.sections, self.locked): self.problems.append('a hash is marked as seen in another critical section than the one that looked')
    def enter(self, o):
        if o.kind == 'lock': self.acquire(o); return True
        if o.kind == 'pool': return o
        return CliWorld.enter(self, o)
    def exit(self, o, e):
        if o.kind == 'lock': self.release(o); return False
        if o.kind == 'pool':
            # leaving the block terminates the workers: what has not been waited for is lost
            o.data['dead'] = True
            return False
        return CliWorld.exit(self, o, e)
    def acquire(self, o):
        if self.locked is not None: self.problems.append('the lock is acquired while it is held'); raise Stop()
        self.locked = o; self.sections += 1
    def release(self, o):
        if self.locked is not o: raise ValueError('semaphore or lock released too many times')
        self.locked = None
    def modattr(self, name):
        if name in ('numpy.bool_', 'numpy.bool', 'numpy.uint8'): return bool
        return CliWorld.modattr(self, name)
    def call(self, name, a, k):
        if name in ('multiprocessing.Lock', 'multiprocessing.RLock'): return Obj('lock')
        if name == 'multiprocessing.Manager': return Obj('manager')
        if name in ('multiprocessing.get_context',): return Mod('multiprocessing')
        if name == 'multiprocessing.cpu_count' or name == 'os.cpu_count': return 8
        if name == 'multiprocessing.Pool' or name == 'multiprocessing.pool.Pool':
            names = ['processes', 'initializer', 'initargs', 'maxtasksperchild']
            k = dict(zip(names, a), **k)
            if k.get('processes') is not None and k['processes'] < 1: raise ValueError('Number of processes must be at least 1')
            self.pools += 1
            return Obj('pool', init=k.get('initializer'), args=k.get('initargs', ()), jobs=[], closed=False)
        if name == 'multiprocessing.Array':
            n = a[1]; return Shared(self, n if isinstance(n, int) else len(n), False)
        if name == 'numpy.memmap':
            names = ['filename', 'dtype', 'mode', 'offset', 'shape']
            k = dict(zip(names, a), **k)
            sh = k['shape']; sh = sh[0] if isinstance(sh, tuple) else sh
            if sh == 0: raise ValueError('cannot mmap an empty file')
            return Shared(self, sh, k.get('mode', 'r+') != 'w+')
        if name in ('numpy.zeros', 'numpy.full', 'numpy.ones'):
            n = a[0] if isinstance(a[0], int) else a[0][0]
            return [name.endswith('ones') or bool(len(a) > 1 and name.endswith('full') and a[1])] * n
        return CliWorld.call(self, name, a, k)
    def method(self, o, n, a, k):
        if o.kind == 'lock':
            if n == 'acquire': self.acquire(o); return True
            if n == 'release': return self.release(o)
        if o.kind == 'manager':
            if n in ('Lock', 'RLock'): return Obj('lock')
            raise Undecided('manager.' + n)
        if o.kind == 'pool':
            if n in ('apply_async', 'apply'):
                args = a[1] if len(a) > 1 else k.get('args', ()); kw = a[2] if len(a) > 2 else k.get('kwds', {})
                if o.data['closed']: raise ValueError('Pool not running')
                j = Obj('job', f=a[0], args=tuple(args), kw=kw, pool=o, done=False)
                o.data['jobs'].append(j)
                if n == 'apply': return self.method(j, 'get', (), {})
                return j
            if n in ('map', 'imap', 'imap_unordered', 'starmap', 'map_async', 'starmap_async'):
                js = [self.method(o, 'apply_async', (a[0], tuple(x) if n.startswith('star') else (x,)), {}) for x in self.m.iter(a[1])]
                if n.endswith('async'): return Obj('jobs', jobs=js)
                r = [self.method(j, 'get', (), {}) for j in js]
                return iter(r) if n.startswith('imap') else r
            if n == 'close': o.data['closed'] = True; return None
            if n == 'join':
                if not o.data['closed']: raise ValueError('Pool is still running')
                self.work(o); return None
            if n == 'terminate': o.data['dead'] = True; return None
        if o.kind == 'job':
            if n == 'get':
                self.work(o.data['pool'])
                if 'error' in o.data: raise o.data['error']
                return o.data['value']
            if n == 'wait': self.work(o.data['pool']); return None
            if n == 'successful': return 'error' not in o.data
            if n == 'ready': return o.data['done']
        if o.kind == 'jobs' and n == 'get': return [self.method(j, 'get', (), {}) for j in o.data['jobs']]
        return CliWorld.method(self, o, n, a, k)
    def work(self, pool):
        """Runs the jobs that have not run, each in a process of its own."""
        if pool.data.get('dead'): raise Undecided('waiting for a terminated pool')
        js = [j for j in pool.data['jobs'] if not j.data['done']]
        for j in (reversed(js) if self.order == 'reversed' else js):
            j.data['done'] = True
            f = j.data['f']
            mod = self.process(f)
            mf = self.inproc(f, mod)
            try:
                if pool.data['init'] is not None: self.m.call(self.inproc(pool.data['init'], mod), copy.deepcopy(tuple(pool.data['args'])), {})
                j.data['value'] = copy.deepcopy(self.m.call(mf, copy.deepcopy(j.data['args']), copy.deepcopy(j.data['kw'])))
            except (Undecided, Stop): raise
            except Exception as e: j.data['error'] = e
            if self.locked is not None: self.problems.append('the lock is still held when a shard is done'); self.locked = None
    def process(self, f):
        """A module of its own for a worker process, with copies of the data of the parent."""
        if not isinstance(f, pyabs.Func): raise Undecided('job %r' % (f,))
        m = self.m; parent = f.scope.module
        saved = m.modules.pop(parent.path)
        try: mod = m.load(parent.path, 'worker%d' % self.proc)
        finally: m.modules[parent.path] = saved
        self.proc += 1
        for n, v in parent.vars.items():
            if n not in mod.vars and not n.startswith('__') and not isinstance(v, (pyabs.Func, pyabs.Cls, pyabs.PyModule, pyabs.Mod)): mod.vars[n] = copy.deepcopy(v)
        return mod
    def inproc(self, f, mod):
        if isinstance(f, pyabs.Func) and f.scope.module.path == mod.path and f.__name__ in mod.vars: return mod.vars[f.__name__]
        raise Undecided('job %r' % (f,))

TEXTS = {'A': 'alpha', 'B': 'beta ', 'C': '', 'N': None, 'D': 'None', 'E': 'é\n'}
def doc(t, i): 
    d = {'id': '%s%d' % (t, i), 'text': TEXTS[t]}
    if i % 2: d['source'] = 's%d' % (i % 3)
    return d

@rule('C24', 'repo')
def dedup(repo, R):
    C = Cases(repo, R); where = line_of(repo, DD, 'process_shard'); wh = line_of(repo, GH, 'main'); wm = line_of(repo, DD, 'main')
    # the lines of the list-building script, for each text
    hashes = {}; bad = []
    names = 'ABCNDE'
    def body(m): main_of(m, C.module(m, GH))
    docs = {'R%d' % i: {'text': TEXTS[t], 'id': i} for i, t in enumerate(names)}
    def judge(m, k, v):
        if k == 'raise': R.bad('fails', wh, 'fails with %s: %s' % (type(v).__name__, v)); bad.append(1); return
        ls = m.world.lines_out(); R.ob('hash of each document', wh, n=len(names))
        if len(ls) != len(names): R.bad('lines', wh, 'prints %d lines for %d documents' % (len(ls), len(names))); bad.append(1); return
        for t, l in zip(names, ls):
            if hashes.setdefault(t, l) != l: raise Undecided('hash')
        if len(set(ls)) != len(names): R.bad('hash', wh, 'different texts are listed under one hash: %s' % ls); bad.append(1)
    C.run(lambda: DedupWorld(options={'in_file': 'f'}, files={'f': [x + '\n' for x in docs]}, docs=docs), body, judge)
    if not bad and hashes:
        shards = [['ABACA', 'ABNCN'], ['AAA'], ['NNA', 'ANN', 'DDD'], ['CABE', '', 'EEBB'], ['ABCNDE', 'EDNCBA']]
        for sh in shards:
            present = sorted(set(''.join(sh)))
            lists = [[], present, present[:1], present[1:], [x for x in present if ''.join(sh).count(x) > 1], [x for x in names if x not in present], present + present[:1]]
            for bl, keep, attr, order, np in itertools.product(lists, (False, True), (False, True), ('in order', 'reversed'), (1, 8)):
                if np == 1 and (attr or order == 'reversed'): continue
                case(C, R, repo, sh, bl, keep, attr, order, np, hashes, where, wm)
        # shards that would share an output file
        for files in (['a/s.gz', 'b/s.gz'],):
            docs = {'X1': doc('A', 1), 'X2': doc('B', 2)}
            def body(m): main_of(m, C.module(m, DD))
            def judge(m, k, v):
                R.ob('one output per shard', wm)
                if k != 'raise':
                    n = sum(1 for e in m.world.events if e[0] == 'create' and e[1].startswith('out'))
                    if len({e[1] for e in m.world.events if e[0] == 'create' and e[1].startswith('out')}) < 2: R.bad('shared-output', wm, 'two shards of the same name write one output file')
            C.run(lambda: DedupWorld(options=dict(shards=files, blocklist='bl', outpath='out', num_processes=2), files={'a/s.gz': ['X1\n'], 'b/s.gz': ['X2\n'], 'bl': ['zz\n']}, docs=docs), body, judge)
    steps(C, R, repo)
    C.done()

def case(C, R, repo, sh, bl, keep, attr, order, np, hashes, where, wm):
    docs = {}; files = {}; seq = []
    for j, s in enumerate(sh):
        ls = []
        for i, t in enumerate(s):
            key = 'K%d_%d' % (j, i); docs[key] = doc(t, i); docs[key]['id'] += '-%d' % j; ls.append(key + '\n'); seq.append((j, t, docs[key]))
        files['in/s%d.gz' % j] = ls
    files['bl'] = [hashes[x] + '\n' for x in bl]
    opts = dict(shards=sorted(f for f in files if f != 'bl'), blocklist='bl', outpath='out', keep_first_occurrence=keep, just_write_attributes=attr)
    if np == 1: opts['num_processes'] = 1
    what = 'shards %s, blocklist %s%s%s, workers %s' % (' '.join(repr(s) for s in sh), ''.join(bl) or 'empty', ', keep first' if keep else '', ', attributes' if attr else '', order)
    def body(m): main_of(m, C.module(m, DD))
    def judge(m, k, v):
        w = m.world
        for p in w.problems: R.bad('lock', where, '%s (%s)' % (p, what))
        if k == 'raise': R.bad('fails', wm, 'fails with %s: %s (%s)' % (type(v).__name__, v, what)); return
        R.ob('decision of each document', where, n=max(1, len(seq)))
        decided = []
        for j in range(len(sh)):
            p = 'out/s%d.gz' % j
            if p not in w.fs: R.bad('output', wm, 'the shard s%d has no output (%s)' % (j, what)); return
            t = concat(w.fs[p])
            try: rows = [json.loads(l) for l in t.split('\n')[:-1]] if t else []
            except Exception: R.bad('output', where, 'the output is not one record per line (%s)' % what); return
            if t and not t.endswith('\n'): R.bad('output', where, 'the last record is not a whole line (%s)' % what)
            mine = [d for jj, _, d in seq if jj == j]
            if attr:
                if [r.get('id') for r in rows] != [d['id'] for d in mine]: R.bad('decisions', where, 'the attributes are not those of each document once: %s instead of %s (%s)' % ([r.get('id') for r in rows], [d['id'] for d in mine], what)); return
                for r, d in zip(rows, mine):
                    decided.append(not r.get('contaminated'))
                    if r.get('source') != d.get('source', 'no_source'): R.bad('source', where, 'the source of a document is %r (%s)' % (r.get('source'), what))
            else:
                it = iter(rows); cur = next(it, None)
                for d in mine:
                    if cur is not None and cur == d: decided.append(True); cur = next(it, None)
                    else: decided.append(False)
                if cur is not None: R.bad('records', where, 'the output has a record that is not a document of its shard in order, or a changed one: %r (%s)' % (cur, what)); return
        listed = set(bl)
        kept = {}
        for (j, t, d), kp in zip(seq, decided):
            if t not in listed:
                if not kp: R.bad('unlisted-removed', where, 'a document that is not listed (text %r) is removed (%s)' % (TEXTS[t], what))
            else: kept[t] = kept.get(t, 0) + kp
        for t in sorted(kept):
            want = 1 if keep else 0
            if kept[t] != want: R.bad('listed', where, 'of the listed text %r %d documents are kept instead of %d (%s)' % (TEXTS[t], kept[t], want, what))
        if not attr:
            # the totals printed
            R.ob('totals', wm)
            gone = sum(1 for x in decided if not x)
            tot = [l for l in w.lines_out() if 'total' in l]
            if tot and str(gone) not in re.findall(r'\d+', tot[0]): R.bad('totals', wm, 'prints %r, but %d documents are removed (%s)' % (tot[0], gone, what))
    C.run(lambda: DedupWorld(options=opts, files=files, docs=docs, order=order), body, judge, what=what)

class StepWorld(CliWorld):
    """Each stage of each command may fail."""
    def __init__(self, **kw): CliWorld.__init__(self, **kw); self.steps = []; self.failed = None
    def call(self, name, a, k):
        if name in ('subprocess.run', 'subprocess.call', 'subprocess.check_call', 'os.system', 'subprocess.check_output'):
            cmd = a[0] if a else k['args']
            if isinstance(cmd, (list, tuple)): cmd = shlex.join(cmd)
            stages = [s for s in re.split(r'(?<!\|)\|(?!\|)', cmd.split(';')[-1])]
            pf = 'pipefail' in cmd and (k.get('executable', '').endswith('bash') or 'bash' in cmd.split()[0])
            n = len(stages)
            i = self.m.choose(n + 1, U('failing stage of step %d' % len(self.steps)))       # 0: none
            st = {'cmd': cmd, 'failed': i, 'stages': n}
            self.steps.append(st)
            seen = i and (pf or i == n)
            if i and self.failed is None: self.failed = len(self.steps) - 1
            code = 1 if seen else 0
            if code and (k.get('check') or name.startswith('subprocess.check')): raise exc('subprocess.CalledProcessError')(cmd)
            if name in ('os.system', 'subprocess.call', 'subprocess.check_call'): return code
            return Obj('proc', returncode=code)
        return CliWorld.call(self, name, a, k)
    def attr(self, o, n):
        if o.kind == 'proc' and n == 'returncode': return o.data['returncode']
        return CliWorld.attr(self, o, n)
    def method(self, o, n, a, k):
        if o.kind == 'proc' and n == 'check_returncode':
            if o.data['returncode']: raise exc('subprocess.CalledProcessError')()
            return None
        return CliWorld.method(self, o, n, a, k)

def opts_of(cmd):
    ws = shlex.split(cmd); out = {}; cur = None
    for x in ws:
        if x.startswith('--'): cur = x; out[cur] = []
        elif cur is not None: out[cur].append(x)
    return out

def steps(C, R, repo):
    for rel, dup in ((D + 'deduplicate.py', True), (D + 'decontaminate.py', False)):
        where = line_of(repo, rel, 'main')
        src = ['x1.gz', 'x2.gz', 'x3.gz']; tgt = src if dup else ['y1.gz', 'y2.gz']
        for given, only in itertools.product((False, True), repeat=2):
            o = {'out_dir': 'OUT', 'tmp_dir': 'TMP'}
            if given: o['blocklist'] = 'BL'
            if dup:
                if given: continue       # needs the files as well, which excludes a list
                o['in_files'] = src
            else:
                o['in_files2'] = tgt
                if not given: o['in_files1'] = src
            if only: o['build_blocklist_only'] = True
            what = ', '.join('%s=%s' % x for x in o.items())
            def body(m): main_of(m, C.module(m, rel))
            def judge(m, k, v):
                w = m.world; R.ob('steps', where)
                if w.failed is not None:
                    f = w.steps[w.failed]
                    if len(w.steps) > w.failed + 1: R.bad('failed-step', where, 'goes on with %r after stage %d of the first step failed (%s)' % (w.steps[w.failed + 1]['cmd'][:40], f['failed'], what))
                    elif k != 'raise': R.bad('failed-step', where, 'the failure of stage %d of a step is not reported (%s)' % (f['failed'], what))
                    return
                if k == 'raise': R.bad('fails', where, 'fails with %s: %s (%s)' % (type(v).__name__, v, what)); return
                build = [s['cmd'] for s in w.steps if 'get_text_hashes' in s['cmd']]
                apply = [s['cmd'] for s in w.steps if 'deduplicate_by_hash' in s['cmd']]
                if len(build) != (0 if given else 1) or len(apply) != (0 if only else 1): R.bad('steps', where, '%d list-building and %d applying steps (%s)' % (len(build), len(apply), what)); return
                bl = 'BL'
                if build:
                    c = build[0]
                    if not all(re.search(r'(?<!\S)%s(?!\S)' % re.escape(x), c) for x in src): R.bad('inputs', where, 'the list is not built from all files: %r' % c)
                    if ('get_duplicate_keys' in c) != dup or ('get_just_keys' in c) == dup: R.bad('keys', where, 'the list is not made of the %s hashes: %r' % ('repeated' if dup else 'given', c))
                    mm = re.search(r'>\s*(\S+)\s*$', c)
                    if not mm or '>>' in c: R.bad('list', where, 'the list is not written: %r' % c); return
                    bl = mm.group(1)
                    if w.steps[0]['cmd'] != c: R.bad('order', where, 'the list is applied before it is built')
                if apply:
                    a = opts_of(apply[0])
                    if a.get('--shards') != tgt: R.bad('shards', where, 'is applied to %s instead of %s' % (a.get('--shards'), tgt))
                    if a.get('--blocklist') != [bl]: R.bad('list', where, 'applies the list %s instead of %s' % (a.get('--blocklist'), bl))
                    if a.get('--outpath') != ['OUT']: R.bad('outpath', where, 'writes to %s' % a.get('--outpath'))
                    if ('--keep_first_occurrence' in a) != dup: R.bad('keep-first', where, '%s the first occurrence' % ('removes' if dup else 'keeps'))
            C.run(lambda: StepWorld(options=o), body, judge, what=what)

# --- the shell scripts that build the lists ------------------------------------------------------------
def sh_lines(stage, lines, where):
    """What one command of a pipeline makes of lines (commands and options that are not known: undecided)."""
    ws = shlex.split(stage); c = ws[0]; a = ws[1:]
    if c in ('pv', 'cat', 'tee', 'time'): return list(lines)
    if c == 'sed' and len([x for x in a if x not in ('-E', '-r')]) == 1:
        m = re.match(r'^s(.)(.*?)\1(.*?)\1(g?)$', a[-1])
        if m and '\\(' not in m.group(2):
            p = m.group(2)
            p = re.sub(r'\[\[:space:\]\]', r'[ \\t]', p).replace('[:space:]', ' \t')
            if not set(a) & {'-E', '-r'}: p = p.replace('\\+', '\0').replace('+', '\\+').replace('\0', '+')
            return [re.sub(p, m.group(3), l, count=0 if m.group(4) else 1) for l in lines]
    if c == 'cut':
        d = '\t'; f = None; i = 0
        while i < len(a):
            if a[i] == '-d': d = a[i + 1]; i += 2
            elif a[i].startswith('-d'): d = a[i][2:]; i += 1
            elif a[i] == '-f': f = a[i + 1]; i += 2
            elif a[i].startswith('-f'): f = a[i][2:]; i += 1
            else: break
        m = re.match(r'^(\d*)(-?)(\d*)$', f or 'x')
        if i == len(a) and m:
            lo = int(m.group(1) or 1); hi = int(m.group(3)) if m.group(3) else (None if m.group(2) else lo)
            return [d.join(l.split(d)[lo - 1:hi]) if d in l else l for l in lines]
    if c == 'awk':
        prog = a[-1].strip(); opts = a[:-1]
        sep = None
        if opts:
            o_ = ' '.join(opts)
            m = re.match(r'^-F ?(.?)$', o_) 
            if not m and o_ not in ('-F  ', "-F "): raise Undecided('%s: %s' % (where, stage))
            sep = (m.group(1) if m else ' ') or ' '
        m = re.match(r'^(?:\{\s*if\s*\()?\s*\$1\s*(>=|>|==|!=|<=|<)\s*(\d+)\s*\)?\s*(?:\{?\s*print(?:\s+(\$0|\$2))?\s*;?\s*\}?)?\s*\}?$', prog)
        if m:
            ops = {'>': lambda x, y: x > y, '>=': lambda x, y: x >= y, '==': lambda x, y: x == y, '!=': lambda x, y: x != y, '<=': lambda x, y: x <= y, '<': lambda x, y: x < y}
            out = []
            for l in lines:
                fs = l.split() if sep in (None, ' ') else l.split(sep)
                try: v = float(fs[0]) if fs else 0
                except ValueError: v = 0
                if ops[m.group(1)](v, int(m.group(2))): out.append(fs[1] if m.group(3) == '$2' else l)
            return out
        m = re.match(r'^\{\s*print \$(\d)\s*;?\s*\}$', prog)
        if m: return [(l.split() + [''] * 9)[int(m.group(1)) - 1] for l in lines]
    if c == 'sort' and not [x for x in a if x not in ('-u', '-S', '-n') and not x.startswith('--parallel') and not x.startswith('-T')]:
        r = sorted(lines)
        return sorted(set(r)) if '-u' in a else r
    if c == 'uniq' and not set(a) - {'-c', '-d', '-u'}:
        out = []
        for k, g in itertools.groupby(lines):
            n = len(list(g))
            if '-d' in a and n < 2 or '-u' in a and n > 1: continue
            out.append('%7d %s' % (n, k) if '-c' in a else k)
        return out
    raise Undecided('%s: %s' % (where, stage))

def sh_script(repo, rel):
    """The pipeline of a script, whether it reports the failure of each stage, and its line."""
    text = open(os.path.join(repo, rel)).read(); pf = False; found = []; vars = {}
    logical = []
    for i, l in enumerate(text.split('\n'), 1):
        if logical and logical[-1][1].rstrip().endswith(('\\', '|')) and not logical[-1][1].lstrip().startswith('#'): logical[-1] = (logical[-1][0], logical[-1][1].rstrip().rstrip('\\') + ' ' + l.strip())
        else: logical.append((i, l.strip()))
    for i, l in logical:
        if not l or l.startswith('#'): continue
        if re.match(r'^set\b', l):
            if 'pipefail' in l: pf = not re.search(r'\+\w*o\s+pipefail', l)
            continue
        m = re.match(r'^(?:local |export |readonly )?(\w+)=(.*)$', l)
        if m: vars[m.group(1)] = '<here>' if 'BASH_SOURCE' in l or '$0' in l else m.group(2).strip('"\''); continue
        l = re.sub(r'\$\{?(\w+)\}?', lambda m: vars.get(m.group(1), m.group(0)), l)
        found.append((i, l))
    if len(found) != 1: raise Undecided('%s: %d commands' % (rel, len(found)))
    i, l = found[0]; stages = []; cur = ''; q = None
    for ch in l:
        if q:
            if ch == q: q = None
        elif ch in '"\'': q = ch
        elif ch == '|': stages.append(cur.strip()); cur = ''; continue
        cur += ch
    stages.append(cur.strip())
    if any(not s for s in stages) or re.search(r'&&|;|&$', re.sub(r'"[^"]*"|\'[^\']*\'|<here>|\{\}', '', l)): raise Undecided('%s: %s' % (rel, l))
    return stages, pf, '%s:%d' % (rel, i)

@rule('C24', 'repo')
def list_scripts(repo, R):
    H = D + 'helper_scripts/'
    st, pf, where = sh_script(repo, H + 'run_get_text_hashes.sh')
    R.ob('script that builds a list', where)
    if len(st) > 1 and not pf: R.bad('failed-step', where, 'a failing stage of the pipeline is not reported: pipefail is not set')
    p = shlex.split(st[0])
    if p[0] != 'parallel' or ':::' not in p: raise Undecided('%s: %s' % (where, st[0]))
    i = p.index(':::')
    if p[i + 1:] != ['$@']: R.bad('inputs', where, 'the given files are passed on as %s' % ' '.join(p[i + 1:]))
    cmd = ' '.join(p[1:i])
    if not re.search(r'<here>/get_text_hashes\.py', cmd): raise Undecided('%s: %s' % (where, cmd))
    if not re.search(r'--in_file[ =]\{\}', cmd): R.bad('inputs', where, 'the file is not passed to the script as --in_file')
    counted = st[1:]
    dup, dpf, dw = sh_script(repo, H + 'get_duplicate_keys.sh')
    just, jpf, jw = sh_script(repo, H + 'get_just_keys.sh')
    for stages, f, w in ((dup, dpf, dw), (just, jpf, jw)):
        R.ob('script that builds a list', w)
        if len(stages) > 1 and not f: R.bad('failed-step', w, 'a failing stage of the pipeline is not reported: pipefail is not set')
    def flow(stages, lines, w):
        for s in stages: lines = sh_lines(s, lines, w)
        return lines
    a, b, c, n = 'a1f', '2bc', '0c1', 'None'
    for ls in ([], [a], [a, a], [a, b, a], [b, a, c, a, b, n], [n, a, n], [c] * 12 + [a], [a] * 1234567 if 0 else [a] * 101 + [b] * 10 + [c, n, n], [b, b, c, n, a, c, b]):
        R.ob('keys of hashes', dw)
        cs = flow(counted, ls, where)
        for stages, w, want in ((dup, dw, {x for x in ls if ls.count(x) > 1}), (just, jw, set(ls))):
            got = flow(stages, cs, w)
            if set(got) != want: R.bad('keys', w, 'of the hashes %s the list has %s instead of %s' % (' '.join(ls[:8]), sorted(got), sorted(want)))
