"""C25: splitting, combining and converting corpora loses and mixes nothing."""
import copy, fnmatch, itertools, json, os, posixpath, urllib.parse
from check import rule
from pyabs import *
from pyworld import *
import pyabs

DEFAULT_BATCH = 1000

class Frame:
    """A table as a list of rows."""
    def __init__(self, columns, rows): self.columns = list(columns); self.rows = [dict(r) for r in rows]
    def __deepcopy__(self, m): return Frame(self.columns, copy.deepcopy(self.rows))
    def __len__(self): return len(self.rows)
    def rename(self, columns): return Frame([columns.get(c, c) for c in self.columns], [{columns.get(c, c): v for c, v in r.items()} for r in self.rows])
    def __getitem__(self, c):
        if isinstance(c, list): return self.filter(items=c)
        if c not in self.columns: raise KeyError(c)
        return Col([r[c] for r in self.rows])
    def __setitem__(self, c, v):
        if c not in self.columns: self.columns.append(c)
        vs = v if isinstance(v, list) else [v] * len(self.rows)
        if len(vs) != len(self.rows): raise ValueError('Length of values does not match length of index')
        for r, x in zip(self.rows, vs): r[c] = x
    def filter(self, items): return Frame([c for c in items if c in self.columns], [{c: r[c] for c in items if c in r} for r in self.rows])
    def drop(self, columns):
        for c in columns:
            if c not in self.columns: raise KeyError(c)
        return Frame([c for c in self.columns if c not in columns], [{c: v for c, v in r.items() if c not in columns} for r in self.rows])
    def to_dict(self, orient='dict'):
        if orient != 'records': raise Undecided('to_dict(%s)' % orient)
        return copy.deepcopy(self.rows)
    def to_json(self, path=None, orient=None, lines=False):
        if path is not None or orient != 'records' or not lines: raise Undecided('to_json')
        return ''.join(json.dumps({c: r[c] for c in self.columns}) + '\n' for r in self.rows)
class Col(list):
    def apply(self, f): return Col([pyabs.M.call(f, (x,), {}) for x in self])
    def tolist(self): return list(self)
    map = apply

class FsWorld(CliWorld):
    """Files whose writes may be interrupted by a crash.  `lazy`: what is written reaches the file when it is
    flushed or closed; otherwise at once and in two halves.  `order`: when the threads run what they are given."""
    def __init__(self, lazy=False, order='at once', fs=None, dirs=(), buckets=None, **kw):
        CliWorld.__init__(self, **kw); self.lazy = lazy; self.order = order; self.dirs = {'', '.'} | set(dirs)
        if fs is not None: self.fs = copy.deepcopy(fs)
        for p in self.fs: self.mkdir(posixpath.dirname(p))
        self.buckets = copy.deepcopy(buckets or {}); self.tables = {}; self.sets = {}; self.urls = set(); self.digests = {}; self.texts = {}; self.interrupt = None; self.asked = 0
        self.removed = []; self.job = None; self.writers = {}
    interrupts = True
    def mkdir(self, d):
        while d and d not in self.dirs: self.dirs.add(d); d = posixpath.dirname(d)
    def digest(self, o):
        t = o.data['text']
        return self.digests.get(t, '0') + '-%s-of-%r' % (o.data['algo'], t)
    def open(self, path, mode='r', *a, **k):
        if isinstance(path, Obj) and path.kind == 'file': 
            return Obj('file', path=None, mode=mode, inode=[], pending=[], closed=False, over=path)
        if not isinstance(path, str) or not isinstance(mode, str): raise Undecided('open(%r)' % (path,))
        kind = mode.strip('bt')
        if kind[:1] in 'wax' and kind:
            self.tick('open')
            if posixpath.dirname(path) not in self.dirs: raise FileNotFoundError(path)
            if kind[0] == 'x' and path in self.fs: raise FileExistsError(path)
            if kind[0] != 'a' or path not in self.fs: self.fs[path] = []
            self.event('create', path)
            if self.job is not None: self.writers.setdefault(path, []).append(self.job)
            o = Obj('file', path=path, mode=mode, inode=self.fs[path], pending=[], closed=False)
            if '+' in mode: o.data.update(lines=[], pos=[0])
        else:
            if path not in self.fs: raise FileNotFoundError(path)
            o = Obj('file', path=path, mode=mode, inode=self.fs[path], lines=list(self.text_lines(path)), pos=[0], pending=[], closed=False)
        self.handles.append(o)
        return o
    def write(self, o, v):
        if o.kind == 'stdout': self.out.append(v); return
        d = o.data
        if d.get('closed'): raise ValueError('I/O operation on closed file.')
        if d['mode'].strip('tb') in ('r', ''): raise io_error()
        b = 'b' in d['mode']
        if b and isinstance(v, str): raise TypeError('a bytes-like object is required')
        if not b and isinstance(v, bytes): raise TypeError('write() argument must be str')
        if isinstance(v, U): raise Undecided('write %r' % v)
        if isinstance(v, bytes): v = v.decode('utf-8')
        d['rewound'] = False
        if not v: return 0
        if self.lazy or d.get('over') is not None or d.get('temp'): self.tick('write'); d['pending'].append(v)
        else:
            self.tick('write'); d['inode'].append(v[:len(v) // 2])
            self.tick('write'); d['inode'][-1] = v
        return len(v)
    def flush(self, o):
        d = o.data
        if d.get('over') is not None:
            return None                       # a compressed stream is complete only when it is closed
        d['inode'].extend(d['pending']); d['pending'][:] = []
    def close(self, o):
        d = o.data
        if d.get('closed'): return
        d['closed'] = True
        if d['mode'].strip('tb') == 'r': return
        self.tick('close')
        if d.get('over') is not None:
            t = ''.join(d['pending']); d['pending'][:] = []
            if t: d['over'].data['pending'].append(t)
        else:
            t = ''.join(d['pending']); d['pending'][:] = []
            if t and not d.get('temp'):
                d['inode'].append(t[:len(t) // 2]); self.tick('close'); d['inode'][-1] = t
            elif t: d['inode'].append(t)
    def finish(self):
        """The end of the program closes what is open."""
        for o in self.handles:
            if not o.data.get('closed'): self.flush(o)
    def exit(self, o, e):
        if o.kind == 'file':
            if e and e[0] is not None and issubclass(e[0], Crash): return False
            self.close(o); return False
        if o.kind == 'executor':
            if e and e[0] is not None and issubclass(e[0], Crash): return False
            self.work(o); return False
        return False
    # --- threads
    def submit(self, o, f, a, k):
        j = Obj('future', f=f, a=a, k=k, done=False, ex=o); o.data['jobs'].append(j)
        if self.order == 'at once': self.runjob(j)
        return j
    def runjob(self, j):
        if j.data['done']: return
        j.data['done'] = True
        outer, self.job = self.job, j
        try: j.data['value'] = self.m.call(j.data['f'], j.data['a'], j.data['k'])
        except (Undecided, Stop, Crash): raise
        except Exception as e: j.data['error'] = e
        finally: self.job = outer
    def work(self, o):
        js = [j for j in o.data['jobs'] if not j.data['done']]
        for j in (reversed(js) if self.order == 'reversed' else js): self.runjob(j)
    # --- names
    def modattr(self, name):
        if name == 'os.environ': return {'HF_TOKEN': 't'}
        if name == 'datasets.config.DEFAULT_MAX_BATCH_SIZE': return DEFAULT_BATCH
        return CliWorld.modattr(self, name)
    def call(self, name, a, k):
        if name in ('glob.glob', 'glob.iglob'): return [p for p in sorted(self.fs) if fnmatch.fnmatchcase(p, a[0]) and p.count('/') == a[0].count('/')]
        if name in ('os.makedirs', 'os.mkdir'):
            if a[0] in self.dirs and not k.get('exist_ok') and a[0] not in ('', '.'): raise FileExistsError(a[0])
            if a[0] == '': raise FileNotFoundError('')
            self.tick('mkdir'); self.mkdir(posixpath.normpath(a[0]) if a[0].endswith('/') else a[0]); return None
        if name in ('os.path.exists', 'os.path.isfile', 'os.path.isdir'):
            f = a[0] in self.fs; d = a[0].rstrip('/') in self.dirs and a[0] != ''
            return f if name.endswith('isfile') else d if name.endswith('isdir') else f or d
        if name == 'os.path.getsize':
            if a[0] not in self.fs: raise FileNotFoundError(a[0])
            return sum(len(x) for x in self.fs[a[0]])
        if name in ('datetime.datetime', 'datetime.datetime.utcnow', 'datetime.datetime.now', 'datetime.datetime.today'): return Obj('date')
        if name in ('pandas.read_parquet',):
            u = a[0].data['url'] if isinstance(a[0], Obj) and 'url' in a[0].data else None
            if u not in self.tables: raise Undecided('read_parquet(%r)' % (a,))
            return copy.deepcopy(self.tables[u])
        if name == 'fsspec.filesystem': return Obj('hf')
        if name in ('urllib.parse.urlparse', 'urllib.parse.urlsplit'): return getattr(urllib.parse, name.split('.')[-1])(*a, **k)
        if name == 'datasets.load_dataset': return {s: [copy.deepcopy(x) for x in xs] for s, xs in self.sets.items()}
        if name.startswith('datasets.'): return None
        if name in ('concurrent.futures.ThreadPoolExecutor', 'concurrent.futures.ProcessPoolExecutor'): return Obj('executor', jobs=[])
        if name == 'concurrent.futures.as_completed':
            js = list(self.m.iter(a[0]))
            for j in (reversed(js) if self.order == 'reversed' else js): self.runjob(j)
            return list(js)
        if name == 'concurrent.futures.wait':
            js = list(self.m.iter(a[0]))
            for j in js: self.runjob(j)
            return (set(js), set())
        if name == 'google.cloud.storage.Client': return Obj('storage')
        if name == 'more_itertools.chunked':
            xs = list(self.m.iter(a[0])); return [xs[i:i + a[1]] for i in range(0, len(xs), a[1])]
        if name in ('bettermap.map_per_process', 'bettermap.map_in_chunks', 'bettermap.ordered_map_per_process'): return [self.m.call(a[0], (x,), {}) for x in self.m.iter(a[1])]
        if name in ('tempfile.NamedTemporaryFile', 'tempfile.TemporaryFile'):
            md = a[0] if a else k.get('mode', 'w+b')
            p = '/tmp/t%d' % len(self.handles)
            o = Obj('file', path=p, mode=md, inode=[], pending=[], closed=False, temp=True)
            self.handles.append(o); return o
        if name == 'ftfy.ftfy' or name == 'ftfy.fix_text': return 'fixed ' + a[0]
        if name == 'tensorflow.python.data.TFRecordDataset' or name == 'tensorflow.data.TFRecordDataset':
            hs = [h for h in self.handles if h.data.get('path') == a[0]]
            if not hs: raise Undecided('TFRecordDataset')
            return [Obj('tfrec', key=x) for x in ''.join(hs[0].data['inode']).split('\n') if x]
        if name == 'tensorflow.train.Example.FromString': return Obj('example', key=a[0])
        return CliWorld.call(self, name, a, k)
    def attr(self, o, n):
        if o.kind == 'blob' and n == 'name': return o.data['name']
        if o.kind == 'file' and n == 'name': return o.data['path']
        if o.kind == 'example' and n == 'features': return o
        if o.kind == 'example' and n == 'feature': return Obj('features', key=o.data['key'])
        if o.kind == 'feat':
            if n == 'bytes_list': return o
            if n == 'value': return [('%s-of-%s' % (o.data['n'], o.data['key'])).encode()]
        return CliWorld.attr(self, o, n)
    def item(self, o, i):
        if o.kind == 'features': return Obj('feat', key=o.data['key'], n=i)
        return CliWorld.item(self, o, i)
    def method(self, o, n, a, k):
        if o.kind == 'date':
            return '2023-01-01T00:00:00' if n in ('isoformat', 'strftime', '__str__') else o
        if o.kind == 'hf':
            if n == 'open':
                if a[0] in self.texts: return Obj('file', path=a[0], mode='r', lines=list(self.texts[a[0]]), pos=[0], closed=False, inode=[], pending=[])
                return Obj('file', path=a[0], url=a[0], mode='r', lines=[], pos=[0], closed=False, inode=[], pending=[])
            if n == 'exists':
                self.asked += 1
                if self.interrupt is not None and self.asked > self.interrupt: raise KeyboardInterrupt()
                if self.asked > 200: raise Undecided('asks for ever')
                return a[0] in self.urls
        if o.kind == 'executor':
            if n == 'submit': return self.submit(o, a[0], a[1:], k)
            if n == 'map':
                js = [self.submit(o, a[0], x, {}) for x in zip(*[list(self.m.iter(y)) for y in a[1:]])]
                return (self.method(j, 'result', (), {}) for j in js)
            if n == 'shutdown': self.work(o); return None
        if o.kind == 'future':
            if n in ('result', 'exception'):
                self.runjob(o)
                if n == 'exception': return o.data.get('error')
                if 'error' in o.data: raise o.data['error']
                return o.data['value']
            if n == 'done': return o.data['done']
        if o.kind == 'storage' and n == 'bucket': return Obj('bucket', name=a[0])
        if o.kind == 'storage' and n == 'list_blobs': return self.method(a[0] if isinstance(a[0], Obj) else Obj('bucket', name=a[0]), 'list_blobs', (), k)
        if o.kind == 'bucket':
            b = self.buckets.setdefault(o.data['name'], {})
            if n == 'list_blobs': return [Obj('blob', bucket=b, name=x) for x in sorted(b) if x.startswith(k.get('prefix') or (a[0] if a else ''))]
            if n == 'blob': return Obj('blob', bucket=b, name=a[0])
        if o.kind == 'blob':
            b = o.data['bucket']; nm = o.data['name']
            if n == 'exists': return nm in b
            if n == 'compose':
                t = [x for s in self.m.iter(a[0]) for x in s.data['bucket'][s.data['name']]]
                self.tick('compose'); self.put(b, nm, t); return None
            if n == 'download_to_file': a[0].data['pending'].append(''.join(b[nm])); return None
            if n == 'upload_from_file':
                f = a[0]; self.flush(f)
                t = ''.join(f.data['inode']) if k.get('rewind') or f.data.get('rewound') else ''
                self.tick('upload'); self.put(b, nm, [t]); return None
        if o.kind == 'tfrec' and n == 'numpy': return o.data['key']
        if o.kind == 'file':
            if n == 'flush': return self.flush(o)
            if n == 'seek': o.data['rewound'] = a[0] == 0; return 0
            if n == 'tell': return 0
            if n == 'readlines': return list(self.reading(o))
        return CliWorld.method(self, o, n, a, k)
    def put(self, b, nm, t):
        if nm in b and nm not in getattr(self, 'before', ()): self.event('overwritten', nm)
        b[nm] = t
def io_error():
    import io
    return io.UnsupportedOperation('not writable')

def text(ls): return ''.join(ls)
def final(w):
    """The files and objects left, without temporary ones."""
    r = {p: text(ls) for p, ls in w.fs.items() if not (p.endswith('.tmp') or '/tmp' in p or '.tmp.' in p or posixpath.basename(p).startswith('.'))}
    for bn, b in w.buckets.items():
        for n, ls in b.items(): r['gs://%s/%s' % (bn, n)] = text(ls)
    return r

class Runner:
    def __init__(self, C, R, repo, rel, fn=None): self.C = C; self.R = R; self.repo = repo; self.rel = rel; self.where = line_of(repo, rel, fn) if fn else rel
    def once(self, mk, note):
        """One run: (world, kind, value)."""
        got = []
        def judge(m, k, v): 
            if k != 'raise' or not isinstance(v, Crash): m.world.finish()
            got.append((m.world, k, v))
        self.C.run(mk, lambda m: main_of(m, self.C.module(m, self.rel)), judge, what=self.rel + ', ' + note)
        return got[0] if len(got) == 1 else None
    def all(self, mk, good, note, orders=('at once',), fail=False, resume=True):
        """Runs without a crash, and with one at every point and a second start afterwards. mk(lazy, order, fs, buckets, crash_at)
        makes the world; good(files, world) -> complaint or None."""
        R = self.R
        for order in orders:
            for lazy in (False, True):
                def fresh(crash=None, src=None):
                    w = mk()
                    w.lazy = lazy; w.order = order; w.crash_at = crash
                    if src is not None:
                        w.fs = copy.deepcopy(src.fs); w.dirs = set(src.dirs); w.buckets = copy.deepcopy(src.buckets); w.before = {n for b in w.buckets.values() for n in b}
                    return w
                r = self.once(fresh, note)
                if r is None: return
                w, k, v = r
                R.ob('run', self.where)
                if fail:
                    if k != 'raise' or isinstance(v, SystemExit) and v.code in (None, 0): R.bad('silent', self.where, 'unusable input is not reported: %s' % note)
                    continue
                if k == 'raise': R.bad('fails', self.where, 'fails with %s: %s (%s)' % (type(v).__name__, v, note)); return
                c = good(final(w), w)
                if c: R.bad('records', self.where, '%s (%s)' % (c, note)); return
                for p, js in w.writers.items():
                    R.ob('file of a thread', self.where)
                    if len({id(j) for j in js}) > 1: R.bad('shared-output', self.where, '%s is written by %d tasks, which may run at the same time (%s)' % (p, len(js), note)); return
                if not resume: continue
                n = w.writes; clean = final(w)
                for at in range(1, n + 1):
                    r = self.once(lambda: fresh(at), note)
                    if r is None: return
                    w1, k1, v1 = r
                    if k1 != 'raise' or not isinstance(v1, Crash): continue
                    r = self.once(lambda: fresh(None, w1), note + ', started again')
                    if r is None: return
                    w2, k2, v2 = r
                    R.ob('crash point', self.where)
                    if k2 == 'raise': R.bad('restart', self.where, 'the run after a crash before effect %d (%s) fails with %s: %s (%s)' % (at, v1, type(v2).__name__, v2, note)); return
                    f2 = final(w2)
                    if f2 != clean:
                        p = next(p for p in sorted(set(f2) | set(clean)) if f2.get(p) != clean.get(p))
                        R.bad('restart', self.where, 'a run that crashes before effect %d (%s) and is started again leaves %s %s (%s)' % (at, v1, p, 'missing' if p not in f2 else 'that should not be there' if p not in clean else 'with %r instead of %r' % (f2[p][:40], clean[p][:40]), note)); return

def lines(n, name, end=True, different=99):
    ls = [json.dumps({'text': '%s %d' % (name, i % different)}) + '\n' for i in range(n)]
    if ls and not end: ls[-1] = ls[-1][:-1]
    return ls
def recs(t):
    return [json.loads(x) for x in t.split('\n') if x]

@rule('C25', 'repo')
def split_evenly(repo, R):
    C = Cases(repo, R); T = Runner(C, R, repo, 'wimbd/utils/file_split.py', 'main')
    for n in (1, 2, 3, 5):
        for sizes in ((0,), (1,), (4, 7), (5,), (6, 1), (3, 3)):
            for names in (('in/a', 'in/b'), ('in/x.y', 'in/x'), ('in/x', 'in/x_0'), ('in/jsonl.a', 'in/c.jsonl')):
                for end in (True, False):
                    files = {p + '.jsonl.gz': lines(k, p, end, 3 if names[1] == 'in/x_0' else 99) for p, k in zip(names, sizes)}
                    def mk(): return FsWorld(options={'in_folder': 'in', 'n': n}, files=files)
                    def good(f, w):
                        new = {p: t for p, t in f.items() if p not in files}
                        if len(new) != n * len(files): return 'makes %d files instead of %d parts for each of %d files' % (len(new), n, len(files))
                        for p, ls in files.items():
                            if f.get(p) != text(ls): return '%s is changed' % p
                        want = sorted(json.dumps(r) for ls in files.values() for r in recs(text(ls)))
                        try: got = sorted(json.dumps(r) for t in new.values() for r in recs(t))
                        except ValueError: return 'two records end up in one line'
                        if got != want: return 'the parts have %d of %d records' % (len(got), len(want)) if len(got) != len(want) else 'the parts have other records'
                        for t in new.values():
                            if len({r['text'].split()[0] for r in recs(t)}) > 1: return 'records of different files are mixed'
                    T.all(mk, good, '%d parts of %s with %s lines%s' % (n, ' '.join(names[:len(sizes)]), sizes, '' if end else ', no newline at the end'), resume=n == 3)
    C.done()

@rule('C25', 'repo')
def split_by_hash(repo, R):
    C = Cases(repo, R); T = Runner(C, R, repo, 'wimbd/utils/split_files.py', 'main')
    digests = {'t%s' % d: d for d in ('000', 'fff', 'ffe', 'ffd', 'ffc', 'ffb', 'fef', 'eff')}; digests[''] = '1'
    rows = [{'text': t, 'n': i} for i, t in enumerate(list(digests) + ['t000', 'tfff', None])]
    rows.append(rows[-1])
    outs = {}
    for name in ('a.jsonl.gz', 'd/a.jsonl.gz', 'd.gz/a.jsonl.gz', 'd.jsonl/e/a.b.jsonl.gz', 'x.1.jsonl.gz', 'x.2.jsonl.gz', 'x.gz', 'x.jsonl.gz', 'x.json.gz', 'a.gz.jsonl.gz', 'y.jsonl.jsonl.gz', 'y.jsonl.gz'):
        for prefix in ('out', 'o.gz/p.jsonl'):
            for count in (0, 1, len(rows)):
                docs = rows[:count]
                def mk():
                    w = FsWorld(options={'in_file': name, 'out_prefix': prefix}, files={name: [json.dumps(r) + '\n' for r in docs]}); w.digests = digests; return w
                def good(f, w):
                    new = {p: t for p, t in f.items() if p != name}
                    if len(new) != 3: return 'makes %d files instead of three' % len(new)
                    got = []
                    for p, t in new.items():
                        if not p.startswith(prefix + '/'): return 'writes %s, which is not below %s' % (p, prefix)
                        part = [x for x in ('train', 'valid', 'test') if '.%s.' % x in posixpath.basename(p)]
                        if len(part) != 1: return 'writes %s' % p
                        outs.setdefault(p, set()).add(name)
                        for r in recs(t):
                            got.append(r['n'])
                            tt = r.get('text') or ''
                            h = w.digests[tt]
                            want = 'test' if h in ('fff', 'ffe') else 'valid' if h in ('ffd', 'ffc') else 'train'
                            if want != part[0]: return 'a record whose hash begins with %s is put into %s' % (h, part[0])
                            o = dict(r); o.pop('id', None)
                            if o != next(x for x in docs if x['n'] == r['n']): return 'a record is changed: %r' % r
                    if sorted(got) != [r['n'] for r in docs]: return 'writes the records %s of %d' % (sorted(got), len(docs))
                T.all(mk, good, '%s below %s with %d records' % (name, prefix, count), resume=count > 1 and prefix == 'out' and name == 'd/a.jsonl.gz')
    for p, ins in sorted(outs.items()):
        R.ob('name of an output', T.where)
        if len(ins) > 1: R.bad('shared-output', T.where, '%s all write %s' % (' and '.join(sorted(ins)), p))
    for i in range(3):
        docs = [{'text': 'a'}, {'text': 'b'}, {'text': 'c'}]; docs[i]['id'] = ('x', '', None)[i]
        T.all(lambda: FsWorld(options={'in_file': 'a.jsonl.gz', 'out_prefix': 'out'}, files={'a.jsonl.gz': [json.dumps(r) + '\n' for r in docs]}), None, 'row %d already has an id' % i, fail=True)
        docs[i] = {'words': 'x'}
        T.all(lambda: FsWorld(options={'in_file': 'a.jsonl.gz', 'out_prefix': 'out'}, files={'a.jsonl.gz': [json.dumps(r) + '\n' for r in docs]}), None, 'row %d has no text' % i, fail=True)
        ls = [json.dumps(r) + '\n' for r in ({'text': 'a'}, {'text': 'b'}, {'text': 'c'})]; ls[i] = '{"text": \n'
        T.all(lambda: FsWorld(options={'in_file': 'a.jsonl.gz', 'out_prefix': 'out'}, files={'a.jsonl.gz': ls}), None, 'line %d is no JSON' % i, fail=True)
    C.done()

@rule('C25', 'repo')
def convert_dataset(repo, R):
    C = Cases(repo, R); T = Runner(C, R, repo, 'wimbd/indexing/huggingface.py', 'save_dataset_as_jsonl')
    for bs in (2, 3, 4, None):
        for counts in ({'train': 0}, {'train': 1}, {'train': 5, 'test': 2}, {'train': 6, 'train_1': 3}, {'a': 4, 'b': 0}):
            for field in ('text', 'content'):
                sets = {s: [{field: '%s %d' % (s, i), 'n': i} for i in range(k)] for s, k in counts.items()}
                opts = {'dataset': 'D', 'output_dir': 'out', 'text_field': field, 'num_workers': 2}
                if bs: opts['batch_size'] = bs
                def mk():
                    w = FsWorld(options=opts); w.sets = sets; return w
                def good(f, w):
                    got = []
                    for p, t in f.items():
                        if p.endswith('.config'): continue
                        try: rs = recs(t)
                        except ValueError: return '%s is not one record per line' % p
                        for r in rs:
                            if set(r) != {'text', 'n'}: return 'a record is changed: %r' % r
                        if len({r['text'].split()[0] for r in rs}) > 1: return 'records of different splits are mixed'
                        if bs and len(rs) > bs: return '%s has %d records with batches of %d' % (p, len(rs), bs)
                        got += rs
                    want = [{'text': x[field], 'n': x['n']} for xs in sets.values() for x in xs]
                    key = lambda r: json.dumps(r, sort_keys=True)
                    if sorted(map(key, got)) != sorted(map(key, want)): return 'the files have %d records of %d' % (len(got), len(want))
                T.all(mk, good, 'batches of %s, %s' % (bs or 'the default size', counts), orders=('at once', 'in order', 'reversed') if bs in (2, 3) else ('at once',), resume=bs in (2, 3, None) and field == 'text')
    for order in ('at once', 'reversed'):
        def mk():
            w = FsWorld(options={'dataset': 'D', 'output_dir': 'out', 'text_field': 'content', 'batch_size': 3}); w.sets = {'train': [{'content': 'a'}, {'content': 'b'}, {'words': 'c'}, {'content': 'd'}]}; return w
        T.all(mk, None, 'an example has no text', orders=(order,), fail=True)
    C.done()

@rule('C25', 'repo')
def combine(repo, R):
    C = Cases(repo, R); T = Runner(C, R, repo, 'preparation/mc4/combine_adjacent_files.py', 'main')
    for langs in ({'c4-en': 1}, {'c4-en': 4}, {'c4-en': 5, 'c4-de': 3}, {'c4-en': 9, 'c4-en-validation': 8}, {}):
        for op, skip in itertools.product(('', 'o', 'o/'), (True,)):
            src = {'in/%s.%05d.json.gz' % (l, i): ['%s %d\n' % (l, i)] for l, k in langs.items() for i in range(k)}
            src['in/readme.txt'] = ['no record\n']
            def mk(): return FsWorld(argv=['prog', 'gs://src/in', 'gs://dst/' + op], buckets={'src': src, 'dst': {}})
            def good(f, w):
                got = [l for p, t in f.items() if p.startswith('gs://dst/') for l in t.split('\n') if l]
                want = [x.strip() for n, ls in src.items() if n.endswith('.json.gz') for x in ls]
                if [e for e in w.events if e[0] == 'overwritten']: return 'two groups of files are written to one name'
                if sorted(got) != sorted(want): return 'the outputs have %d of %d files' % (len(got), len(want))
                for p, t in f.items():
                    if p.startswith('gs://dst/'):
                        if len({l.split()[0] for l in t.split('\n') if l}) > 1: return 'files of different languages are combined'
                        if not p.startswith('gs://dst/' + (op.rstrip('/') + '/' if op else '')): return 'writes %s' % p
            T.all(mk, good, '%s to %r' % (langs, op))
    T.all(lambda: FsWorld(argv=['prog', 'gs://src/in', 'gs://dst/'], buckets={'src': {'in/c4-en.x.json.gz': ['a\n'], 'in/c4-en.00001.json.gz': ['b\n']}, 'dst': {}}), None, 'a name without a number', fail=True)
    C.done()

@rule('C25', 'repo')
def records_to_json(repo, R):
    C = Cases(repo, R); T = Runner(C, R, repo, 'preparation/mc4/mc4.py', 'main')
    def name(l, i, n): return 'in/c4-%s.tfrecord-%05d-of-%05d' % (l, i, n)
    for shape in ([('en', 0, 1, 2)], [('en', 0, 2, 3), ('en', 1, 2, 1)], [('en', 0, 2, 0), ('en', 1, 2, 1), ('de', 0, 1, 2), ('en-validation', 0, 1, 1)], []):
        for op in ('', 'o', 'o/'):
            src = {name(l, i, n): ['%s/%d/%d\n' % (l, i, j) for j in range(k)] for l, i, n, k in shape}
            src['in/dataset_info.json'] = ['no record\n']
            def mk(): return FsWorld(argv=['prog', 'gs://src/in', 'gs://dst/' + op], buckets={'src': src, 'dst': {}})
            def good(f, w):
                outs = {p: t for p, t in f.items() if p.startswith('gs://dst/')}
                if [e for e in w.events if e[0] == 'overwritten']: return 'two files are written to one name'
                if len(outs) != len(shape): return 'makes %d files of %d' % (len(outs), len(shape))
                got = []
                for p, t in outs.items():
                    try: rs = recs(t)
                    except ValueError: return '%s is not one record per line' % p
                    for r in rs:
                        key = r['metadata']['url'].replace('url-of-', '')
                        if r['text'] != 'fixed text-of-' + key or r['timestamp'] != 'timestamp-of-' + key: return 'the features of records are mixed: %r' % r
                        got.append(key)
                    if len({r['metadata']['url'].rsplit('/', 1)[0] for r in rs}) > 1: return 'records of different files are mixed'
                    if len({r['id'] for r in rs}) < len(rs): return 'two records have one id'
                want = [x.strip() for n, ls in src.items() if 'tfrecord' in n for x in ls]
                if sorted(got) != sorted(want): return 'the outputs have %d of %d records' % (len(got), len(want))
            T.all(mk, good, '%s to %r' % (shape, op))
    # files of the same name below one prefix must not replace each other
    def mk(): return FsWorld(argv=['prog', 'gs://src/in', 'gs://dst/o'], buckets={'src': {'in/v1/c4-en.tfrecord-00000-of-00001': ['a\n'], 'in/v2/c4-en.tfrecord-00000-of-00001': ['b\n']}, 'dst': {}})
    r = T.once(mk, 'equal names')
    if r:
        R.ob('equal names', T.where)
        w, k, v = r
        if k != 'raise' and len(final(w)) < 4: R.bad('shared-output', T.where, 'two input files of the same name in different folders are written to one output file')
    C.done()

@rule('C25', 'repo')
def download(repo, R):
    C = Cases(repo, R); T = Runner(C, R, repo, 'preparation/stack/download_url.py', '_save_url_as_jsonl')
    base = 'https://h/data/'
    where_ = {}
    urls = [base + 'c/train-00000-of-00002.parquet', base + 'c/train-00001-of-00002.parquet', base + 'c++/train-00000-of-00002.parquet', base + 'x/train.v1.parquet', base + 'x/train.v2.parquet']
    for url, n, extra in itertools.product(urls, (0, 1, 3), (False, True)):
        rows = [dict({'hexsha': 'h%d' % i, 'content': '%s %d' % (url, i), 'lang': 'C Lang'}, **({'size': i, 'ext': 'c'} if extra else {})) for i in range(n)]
        cols = ['hexsha', 'content', 'lang'] + (['size', 'ext'] if extra else [])
        def mk():
            w = FsWorld(argv=['prog', url, 'out']); w.tables = {url: Frame(cols, rows)}; return w
        def good(f, w):
            if len(f) != 1: return 'makes %d files' % len(f)
            p = list(f)[0]; where_.setdefault(p, set()).add(url)
            try: rs = recs(f[p])
            except ValueError: return 'the output is not one record per line'
            want = [{'id': r['hexsha'], 'text': r['content'], 'lang': 'c-lang', 'metadata': {c: r[c] for c in cols[3:]}} for r in rows]
            got = [{c: r.get(c) for c in ('id', 'text', 'lang', 'metadata')} for r in rs]
            if got != want: return 'the output has %s instead of %s' % (repr(got)[:80], repr(want)[:80])
        T.all(mk, good, '%s with %d rows' % (url, n), resume=True)
    for p, us in sorted(where_.items()):
        R.ob('name of an output', T.where)
        if len(us) > 1: R.bad('shared-output', T.where, '%s are all written to %s' % (' and '.join(sorted(us)), p))
    for miss in ('hexsha', 'content'):
        def mk():
            w = FsWorld(argv=['prog', urls[0], 'out']); w.tables = {urls[0]: Frame([c for c in ('hexsha', 'content', 'lang') if c != miss], [{c: 'v' for c in ('hexsha', 'content', 'lang') if c != miss}])}; return w
        T.all(mk, None, 'a table without ' + miss, fail=True)
    T = Runner(C, R, repo, 'preparation/stack/get_urls.py', 'list_stack_files')
    B = 'https://huggingface.co/datasets/bigcode/the-stack/resolve/v9/'
    for counts in ({'C': 1}, {'C': 2, 'C#': 1}, {'C': 3, 'Jupyter Notebook': 2, 'C++': 1}):
        names = {l: l.lower().replace(' ', '-').replace('#', '-sharp') for l in counts}
        urls = ['%sdata/%s/train-%05d-of-%05d.parquet' % (B, names[l], i, k) for l, k in counts.items() for i in range(k)]
        for stop in (None,) + tuple(range(0, sum(counts.values()) + 1)):
            def mk(stop=stop):
                w = FsWorld(options={'output_file': 'urls.txt', 'version': 'v9'}); w.urls = set(urls); w.texts = {B + 'programming-languages.json': [json.dumps({l: [] for l in counts})]}; w.interrupt = stop; return w
            def good(f, w):
                if set(f) - {'urls.txt'}: return 'writes %s' % sorted(f)
                got = f.get('urls.txt', '').split('\n')[:-1]
                if got != urls: return 'lists %d urls instead of %d' % (len(got), len(urls))
            if stop is None: T.all(mk, good, 'languages %s' % counts); continue
            r = T.once(mk, 'interrupted at request %d' % stop)
            if not r: continue
            w1, k1, v1 = r
            def mk2():
                w = mk(None); w.fs = copy.deepcopy(w1.fs); w.dirs = set(w1.dirs); return w
            r = T.once(mk2, 'started again')
            if not r: continue
            R.ob('interrupted run', T.where)
            w, k, v = r
            c = 'fails with %s' % v if k == 'raise' else good(final(w), w)
            if c: R.bad('restart', T.where, 'a run interrupted at request %d and started again %s (languages %s)' % (stop, c, counts))
        if sum(counts.values()) < 3: continue
        for at in range(1, 400):                   # a key press at any statement
            def mk3():
                w = mk(None); w.at = None
                def step(m, s):
                    if m.steps == at: w.at = s.lineno; raise KeyboardInterrupt()
                w.on_step = step; return w
            r = T.once(mk3, 'interrupted at statement %d' % at)
            if not r: break
            w1, k1, v1 = r
            if w1.at is None: break
            def mk4():
                w = mk(None); w.fs = copy.deepcopy(w1.fs); w.dirs = set(w1.dirs); return w
            r = T.once(mk4, 'started again')
            if not r: continue
            R.ob('interrupted run', T.where)
            w, k, v = r
            c = 'fails with %s' % v if k == 'raise' else good(final(w), w)
            if c: R.bad('restart', T.where, 'a run interrupted at line %d and started again %s (languages %s)' % (w1.at, c, counts)); break
    C.done()
