"""The outside world of the command-line tools: command line, files, standard input, processes."""
import copy, json, types, os, io, hashlib
from pyabs import *
import pyabs

class Crash(BaseException): pass

class Args(types.SimpleNamespace): pass

class CliWorld(World):
    """files: path -> list of lines; lines that are keys of `docs` decode to those documents."""
    def __init__(self, options=None, files=None, argv=None, stdin=None, crash_at=None, docs=None):
        World.__init__(self); self.options = options or {}; self.fs = {}; self.argv = argv; self.stdin = stdin; self.docs = docs or {}
        for p, ls in (files or {}).items(): self.fs[p] = list(ls)
        self.out = []; self.writes = 0; self.crash_at = crash_at; self.handles = []; self.decoded = 0
    # effects that a crash may come between
    def tick(self, what):
        self.writes += 1
        if self.crash_at is not None and self.writes == self.crash_at: raise Crash(what)
    def print(self, a, k):
        sep = k.get('sep', ' '); end = k.get('end', '\n')
        m = self.m; parts = []
        for i, x in enumerate(a):
            if i: parts.append(sep)
            parts.append(m.to_str(x))
        f = k.get('file')
        if isinstance(f, Mod) and f.name == 'sys.stderr': return
        if isinstance(f, Obj) and f.kind == 'file': self.write(f, concat(parts + [end])); return
        self.out.append(concat(parts + [end]))
    def lines_out(self):
        t = concat(self.out)
        if isinstance(t, U): raise Undecided('output %r' % t)
        return t.split('\n')[:-1] if t.endswith('\n') else t.split('\n') if t else []
    def modattr(self, name):
        if name == 'sys.argv': return self.argv if self.argv is not None else ['prog']
        if name == 'sys.stdin': return self.std_in()
        if name == 'sys.stdout': return Obj('stdout')
        if name == 'os.sep': return '/'
        if name == 'json.JSONDecodeError': return json.JSONDecodeError
        return None
    def std_in(self):
        if not hasattr(self, '_in'): self._in = Obj('file', path='<stdin>', mode='r', lines=list(self.stdin or []), pos=[0])
        return self._in
    def setattr(self, o, n, v): o.data[n] = v
    def unpack(self, v, n): return [self.m.subscript(v, i) for i in range(n)]
    # --- files
    def open(self, path, mode='r', *a, **k):
        if not isinstance(mode, str): raise Undecided('open mode')
        if isinstance(path, Obj) and path.kind == 'file': return path
        if isinstance(path, Obj) and path.kind == 'tmp': path = path.data['path']
        if 'w' in mode or 'x' in mode:
            self.tick('open')
            if 'x' in mode and path in self.fs: raise FileExistsError(path)
            self.fs[path] = []; self.event('create', path)
            o = Obj('file', path=path, mode=mode, pending=[], closed=False)
        elif 'a' in mode or '+' in mode and 'r' not in mode:
            self.tick('open')
            self.fs.setdefault(path, [])
            o = Obj('file', path=path, mode=mode, pending=[], closed=False)
        else:
            if path not in self.fs: raise FileNotFoundError(path)
            self.event('read', path)
            o = Obj('file', path=path, mode=mode, lines=list(self.text_lines(path)), pos=[0], pending=[], closed=False)
        self.handles.append(o)
        return o
    def text_lines(self, path):
        out = []
        for x in self.fs[path]:
            if isinstance(x, str) and x.count('\n') > 1 or isinstance(x, str) and '\n' in x[:-1]: out += x.splitlines(True)
            elif out and isinstance(out[-1], str) and not out[-1].endswith('\n') and isinstance(x, str): out[-1] += x
            else: out.append(x)
        return [y for x in out for y in (x.splitlines(True) if isinstance(x, str) else [x])]
    def write(self, o, v):
        if o.kind == 'stdout': self.out.append(v); return
        if o.data.get('closed'): raise ValueError('I/O operation on closed file.')
        if 'r' == o.data['mode'].strip('tb'): raise io.UnsupportedOperation('not writable')
        if 'b' in o.data['mode'] and (isinstance(v, str) or isinstance(v, U) and v.ty is str): raise TypeError('a bytes-like object is required')
        if o.data.get('text') is not False and 'b' not in o.data['mode'] and isinstance(v, bytes): raise TypeError('write() argument must be str')
        self.tick('write')
        self.fs.setdefault(o.data['path'], []).append(v)
    def close(self, o):
        if not o.data.get('closed'):
            if 'r' != o.data['mode'].strip('tb'): self.tick('close')
            o.data['closed'] = True; self.event('close', o.data['path'])
    def iterate(self, o):
        if o.kind == 'file': return self.reading(o)
        if o.kind == 'tqdm': return self.m.iter(o.data['it'])
        return World.iterate(self, o)
    def reading(self, o):
        if 'lines' not in o.data: raise io.UnsupportedOperation('not readable')
        while o.data['pos'][0] < len(o.data['lines']):
            if o.data.get('closed'): raise ValueError('I/O operation on closed file.')
            i = o.data['pos'][0]; o.data['pos'][0] += 1
            yield o.data['lines'][i]
    def enter(self, o): return o
    def exit(self, o, e):
        if o.kind == 'file':
            if e and e[0] is not None and issubclass(e[0], Crash): return False
            self.close(o)
        return False
    def attr(self, o, n):
        if o.kind == 'parsed' or o.kind == 'record':
            if n in o.data: return o.data[n]
        if o.kind == 'file' and n in ('name',): return o.data['path']
        if o.kind == 'file' and n == 'file': return o
        if o.kind == 'file' and n == 'closed': return o.data.get('closed', False)
        if o.kind == 'any': return Obj('any')
        if o.kind == 'tqdm' and n == 'it': return o.data['it']
        return Method(o, n)
    def item(self, o, i):
        if o.kind == 'any': return Obj('any')
        return World.item(self, o, i)
    def setitem(self, o, i, v):
        if o.kind == 'any': return None
        return World.setitem(self, o, i, v)
    def method(self, o, n, a, k):
        if o.kind == 'any': return Obj('any')
        if o.kind == 'parser':
            if n == 'add_argument':
                o.data['opts'].append((a, k)); return Obj('action')
            if n in ('add_argument_group', 'add_mutually_exclusive_group'): return o
            if n == 'parse_args': return self.parse(o)
            if n == 'parse_known_args': return (self.parse(o), [])
            if n == 'error': raise SystemExit(2)
            return None
        if o.kind == 'file':
            if n == 'read': return concat(list(self.reading(o))) if not a else U('read', (o.data['path'],) + a)
            if n == 'readlines': return list(self.reading(o))
            if n == 'readline':
                for x in self.reading(o): return x
                return ''
            if n == '__iter__': return self.reading(o)
            if n == '__next__': return next(self.reading(o))
            if n == 'write': return self.write(o, *a)
            if n == 'writelines':
                for x in self.m.iter(a[0]): self.write(o, x)
                return None
            if n == 'close': return self.close(o)
            if n in ('flush', 'fileno', 'seek', 'truncate', 'tell'): return 0
        if o.kind == 'stdout':
            if n == 'write': self.out.append(a[0]); return None
            return None
        if o.kind == 'tqdm':
            if n == '__iter__': return iter(o)
            return None
        if o.kind == 'md5':
            if n == 'update': o.data['text'] = concat([o.data['text'], unbytes(a[0])]); return None
            if n in ('hexdigest', 'digest'): return self.digest(o)
            if n == 'copy': return Obj('md5', text=o.data['text'], algo=o.data['algo'])
        return World.method(self, o, n, a, k)
    def digest(self, o):
        return U('hash:' + o.data['algo'], (o.data['text'],), str)
    def parse(self, o):
        r = Args(); used = set()
        for a, k in o.data['opts']:
            names = [x for x in a if isinstance(x, str)]
            d = k.get('dest')
            if d is None:
                lg = [x for x in names if x.startswith('--')] or names
                d = lg[0].lstrip('-').replace('-', '_')
            act = k.get('action')
            v = k.get('default', False if act == 'store_true' else True if act == 'store_false' else None)
            if d in self.options:
                v = self.options[d]; used.add(d)
                if 'choices' in k and v not in k['choices']: raise SystemExit(2)
            elif k.get('required') or names and not names[0].startswith('-') and k.get('nargs') not in ('?', '*'): raise SystemExit(2)
            setattr(r, d, v)
        left = set(self.options) - used
        if left: raise Undecided('options %s are not declared' % sorted(left))
        self.args = r
        return r
    def call(self, name, a, k):
        f = getattr(self, 'x_' + name.replace('.', '_'), None)
        if f: return f(*a, **k)
        if name == 'argparse.ArgumentParser': return Obj('parser', opts=[])
        if name in ('open', 'gzip.open', 'io.open', 'smart_open.open', 'gzip.GzipFile', 'bz2.open'):
            mode = a[1] if len(a) > 1 else k.get('mode', 'rb' if name in ('gzip.open', 'gzip.GzipFile') else 'r')
            p = a[0] if a else k.get('filename', k.get('file', k.get('fileobj')))
            if name in ('gzip.open', 'bz2.open') and 't' not in mode and 'b' not in mode: mode += 'b'
            return self.open(p, mode)
        if name == 'json.loads': return self.loads(a[0])
        if name == 'json.dumps': return self.dumps(a[0])
        if name == 'json.dump':
            return self.write(a[1], self.dumps(a[0])) if isinstance(a[1], Obj) and a[1].kind == 'file' else None
        if name == 'json.load': return self.loads(concat(list(self.reading(a[0]))))
        if name == 'sys.exit': raise SystemExit(*a)
        if name == 'os.path.exists' or name == 'os.path.isfile': return a[0] in self.fs or a[0] in getattr(self, 'dirs', ())
        if name == 'os.path.getsize':
            if a[0] not in self.fs: raise FileNotFoundError(a[0])
            return len(self.fs[a[0]])
        if name in ('os.replace', 'os.rename', 'shutil.move'):
            if a[0] not in self.fs: raise FileNotFoundError(a[0])
            self.tick('replace'); self.fs[a[1]] = self.fs.pop(a[0]); self.event('replace', a[0], a[1]); return None
        if name in ('os.remove', 'os.unlink'):
            if a[0] not in self.fs: raise FileNotFoundError(a[0])
            self.tick('remove'); self.fs.pop(a[0]); return None
        if name == 'os.makedirs' or name == 'os.mkdir': return None
        if name in ('hashlib.md5', 'hashlib.sha1', 'hashlib.sha256'): return Obj('md5', text=unbytes(a[0]) if a else '', algo=name[8:])
        if name in ('tqdm.tqdm', 'tqdm', 'tqdm.autonotebook.tqdm', 'tqdm.auto.tqdm'):
            return Obj('tqdm', it=a[0] if a else k.get('iterable', ()))
        if name.startswith('logging.'): return Obj('logger')
        return World.call(self, name, a, k)
    def loads(self, s):
        if isinstance(s, U) or s.strip() not in self.docs:
            if isinstance(s, str): return json.loads(s)
            raise Undecided('json.loads(%r)' % s)
        self.decoded += 1
        return copy.deepcopy(self.docs[s.strip()])
    def dumps(self, v):
        if not has_u(v):
            try: return json.dumps(v)
            except TypeError: raise
        return U('json', (v,), str)

def unbytes(v):
    if isinstance(v, U) and v.op == 'str.encode' and len(v.args) >= 1: return v.args[0]
    if isinstance(v, bytes): return v.decode('utf-8', 'replace')
    if isinstance(v, (str,)): raise TypeError('Strings must be encoded before hashing')
    return v

def line_of(repo, rel, name=None):
    import ast
    if name:
        for n in ast.walk(parse(os.path.join(repo, rel))):
            if isinstance(n, ast.FunctionDef) and n.name == name: return '%s:%d %s' % (rel, n.lineno, name)
    return rel

class Cases:
    """Explores a program for one case after another; judge gets each path."""
    def __init__(self, repo, R): self.repo = repo; self.R = R; self.undecided = []; self.paths = 0
    def run(self, mk, body, judge, limit=3000, what=''):
        for m, out in explore(self.repo, mk, body, limit):
            self.paths += 1
            if out[0] == 'undecided': self.undecided.append(what + ': ' + out[1]); continue
            try: judge(m, out[0], out[1])
            except Undecided as e: self.undecided.append(what + ': ' + str(e))
    def module(self, m, rel, name=None): return m.load(os.path.join(self.repo, rel), name or rel[:-3].replace('/', '.'))
    def done(self):
        self.R.analysed['paths'] += self.paths
        if self.undecided: raise Exception('undecided: ' + '; '.join(sorted(set(self.undecided))[:3]))
def main_of(m, mod):
    """Runs the program: its main() with the options of the world, or the code under the main guard."""
    import ast
    tree = parse(mod.path)
    for s in tree.body:
        if isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Name) and s.test.left.id == '__name__':
            sc = pyabs.Scope(mod.vars, None, mod)
            pyabs.run(m.block(s.body, sc)); return
    raise Undecided('no main guard')
