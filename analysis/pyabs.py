"""Path-sensitive abstract interpretation of Python syntax trees.

Values are containers of the interpreter over uninterpreted terms (`U`): the inputs of the program are
distinct terms of which nothing but the type is known, operations on them build larger terms, and a
branch on a term is taken both ways (once per path: the same term always answers alike).  What lies
outside the repository (network clients, files, the command line) is given by a `World` of stubs that
may choose between several outcomes.  `explore` goes through all choices."""
import ast, os, sys, operator, builtins, collections, collections.abc, itertools, functools, types, copy, json, inspect, math, string, re, posixpath

class Undecided(Exception): pass
class PathT: pass                         # the type of path objects
class Stop(BaseException): pass            # the path cannot be continued (not a behaviour)

class U:
    """An uninterpreted term."""
    __slots__ = ('op', 'args', 'ty', '_h')
    def __init__(self, op, args=(), ty=None):
        self.op = op; self.args = tuple(args); self.ty = ty; self._h = hash((op, freeze(self.args)))
    def __repr__(self):
        if not self.args: return self.op
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))
    def __hash__(self): return self._h
    def same(self, o): return isinstance(o, U) and self._h == o._h and self.op == o.op and freeze(self.args) == freeze(o.args)
    def __eq__(self, o):
        if self is o or self.same(o): return True
        if self.free and isinstance(o, U) and o.free: return False
        if self.ty and not isinstance(o, U) and not isinstance(o, self.ty): return False
        if isinstance(o, U) and o.ty and self.ty and o.ty != self.ty and not {o.ty, self.ty} <= {int, float, bool}: return False
        if M is None: return False
        return M.truth(U('eq', sorted_pair(self, o), bool))
    def __ne__(self, o): return not self.__eq__(o)
    @property
    def free(self): return not self.args and self.op.startswith("'")
    def __bool__(self):
        if self.op == 'not': return not bool(self.args[0])
        return M.truth(self)
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __iter__(self): raise Undecided('iteration over %r' % self)
    def __len__(self): raise Undecided('length of %r' % self)
    def __lt__(self, o): return M.truth(U('lt', (self, o), bool))
    def __gt__(self, o): return M.truth(U('lt', (o, self), bool))
    def __le__(self, o): return not M.truth(U('lt', (o, self), bool))
    def __ge__(self, o): return not M.truth(U('lt', (self, o), bool))
    def __contains__(self, o): return M.truth(U('in', (o, self), bool))
    def __getitem__(self, i): return M.subscript(self, i)
    def __format__(self, spec): raise Undecided('format of %r' % self)
    def __str__(self): return repr(self)

def _bin(name, comm=False):
    def f(self, o): return fold(name, self, o)
    def r(self, o): return fold(name, o, self)
    return f, r
for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'and', 'or', 'xor', 'lshift', 'rshift'):
    _f, _r = _bin(_n)
    setattr(U, '__%s__' % _n, _f); setattr(U, '__r%s__' % _n, _r)
U.__neg__ = lambda s: U('neg', (s,), s.ty)

def fold(name, a, b):
    ta = a.ty if isinstance(a, U) else type(a); tb = b.ty if isinstance(b, U) else type(b)
    ty = ta if ta == tb else (float if {ta, tb} == {int, float} else None)
    if name == 'mod' and ta is str: ty = str
    if name == 'truediv' and {ta, tb} <= {int, float}: ty = float
    if name == 'truediv' and PathT in (ta, tb): ty = PathT
    if name == 'add':
        if a.__class__ is int and a == 0: return b
        if b.__class__ is int and b == 0: return a
        if a.__class__ is str and a == '' and tb is str: return b
        if b.__class__ is str and b == '' and ta is str: return a
        if ta is str or tb is str: return concat([a, b])
        # sums are kept as sorted lists of terms
        parts = []
        for x in (a, b):
            if isinstance(x, U) and x.op == 'sum': parts += x.args
            else: parts.append(x)
        c = sum(x for x in parts if not isinstance(x, U)) if {ta, tb} <= {int, float, bool} else None
        if c is None: return U('add', (a, b), ty)
        ts = sorted([x for x in parts if isinstance(x, U)], key=repr)
        return U('sum', tuple(ts) + ((c,) if c else ()), ty)
    return U(name, (a, b), ty)

def concat(parts):
    """The concatenation of texts: adjacent constants are joined."""
    out = []
    for p in parts:
        for q in (p.args if isinstance(p, U) and p.op == 'text' else (p,)):
            if isinstance(q, str):
                if not q: continue
                if out and isinstance(out[-1], str): out[-1] += q; continue
            out.append(q)
    if not out: return ''
    if len(out) == 1 and (isinstance(out[0], str) or out[0].ty is str): return out[0]
    return U('text', out, str)

def sorted_pair(a, b):
    return tuple(sorted((a, b), key=lambda x: (isinstance(x, U), repr(x))))

def freeze(v):
    if isinstance(v, U): return ('U', v.op, freeze(v.args))
    if isinstance(v, (list, tuple)): return (type(v).__name__,) + tuple(freeze(x) for x in v)
    if isinstance(v, dict): return ('dict',) + tuple((freeze(k), freeze(x)) for k, x in v.items())
    if isinstance(v, (set, frozenset)): return ('set',) + tuple(sorted((freeze(x) for x in v), key=repr))
    if isinstance(v, (str, int, float, bool, bytes, type(None))): return (type(v).__name__, v)
    if isinstance(v, Obj): return ('obj', v.kind, freeze(v.data))
    return ('id', id(v))

def tok(name, ty=str): return U("'" + name, (), ty)
def has_u(v, depth=0):
    if isinstance(v, U): return True
    if depth > 6: return False
    if isinstance(v, (list, tuple, set, frozenset)): return any(has_u(x, depth + 1) for x in v)
    if isinstance(v, dict): return any(has_u(x, depth + 1) for kv in v.items() for x in kv)
    return False

class Vector(list):
    """A column of a table: comparisons are element by element."""
    __hash__ = None
    def tolist(self): return list(self)

class Mod:
    """A module, class or function outside the repository, by its dotted name."""
    def __init__(self, name): self.name = name
    def __repr__(self): return self.name
    def __eq__(self, o): return isinstance(o, Mod) and o.name == self.name
    def __hash__(self): return hash(self.name)
    def __call__(self, *a, **k): return M.world.call(self.name, a, k)
    def __copy__(self): return self
    def __deepcopy__(self, m): return self

class Obj:
    """An object of the outside world."""
    def __init__(self, kind, **data): self.kind = kind; self.data = data
    def __repr__(self): return '<%s>' % self.kind
    def __iter__(self): return M.world.iterate(self)
    def __enter__(self): return M.world.enter(self)
    def __exit__(self, *e): return M.world.exit(self, e)
    def __len__(self): return M.world.length(self)
    def __getitem__(self, i): return M.world.item(self, i)
    def __setitem__(self, i, v): return M.world.setitem(self, i, v)
    def __call__(self, *a, **k): return M.world.method(self, '__call__', a, k)
    def __bool__(self): return True
    def __add__(self, o): return U('any')
    __radd__ = __sub__ = __rsub__ = __mul__ = __add__
    def __deepcopy__(self, m): return self

class Method:
    def __init__(self, obj, name): self.obj = obj; self.name = name
    def __call__(self, *a, **k): return M.world.method(self.obj, self.name, a, k)
    def __repr__(self): return '%r.%s' % (self.obj, self.name)

class UMethod:
    def __init__(self, u, name): self.u = u; self.name = name
    def __call__(self, *a, **k): return M.umethod(self.u, self.name, a, k)

class StrMethod:
    """A method of a constant text applied to terms."""
    def __init__(self, s, name): self.s = s; self.name = name
    def __call__(self, *a, **k):
        if not has_u(a) and not k:
            if self.name == 'join': a = (list(a[0]),)
            if not has_u(a): return getattr(self.s, self.name)(*a)
        if k and self.name != 'format' and not has_u(a) and not has_u(k): return getattr(self.s, self.name)(*a, **k)
        if self.name == 'join':
            parts = list(a[0]); out = []
            for i, p in enumerate(parts):
                if i: out.append(self.s)
                out.append(p)
            return concat(out)
        if self.name == 'format': 
            # only '{}' fields in order
            ps = list(string.Formatter().parse(self.s)); out = []; n = 0
            for lit, f, spec, conv in ps:
                out.append(lit)
                if f is None: continue
                if spec or conv: raise Undecided('format %r' % self.s)
                if f == '': v = a[n]; n += 1
                elif f.isdigit(): v = a[int(f)]
                elif f in k: v = k[f]
                else: raise Undecided('format %r' % self.s)
                out.append(M.to_str(v))
            return concat(out)
        k = {x: v for x, v in k.items()}
        if k: a = a + tuple(k.values())
        return U('str.' + self.name, (self.s,) + tuple(a), STR_RESULT.get(self.name))

STR_RESULT = {'strip': str, 'lstrip': str, 'rstrip': str, 'lower': str, 'upper': str, 'replace': str, 'title': str, 'casefold': str,
  'capitalize': str, 'startswith': bool, 'endswith': bool, 'isdigit': bool, 'isspace': bool, 'encode': bytes, 'join': str, 'format': str,
  'count': int, 'find': int, 'index': int, 'removeprefix': str, 'removesuffix': str, 'zfill': str, 'isalpha': bool, 'isalnum': bool, 'decode': str,
  'hexdigest': str, 'digest': bytes, 'split': list, 'rsplit': list, 'splitlines': list, 'isnumeric': bool, 'partition': tuple, 'rpartition': tuple, 'ljust': str, 'rjust': str, 'expandtabs': str, 'swapcase': str}

class _Return(BaseException):
    def __init__(self, v): self.v = v
class _Break(BaseException): pass
class _Continue(BaseException): pass

class PyModule(types.SimpleNamespace): pass

class Scope:
    __slots__ = ('vars', 'parent', 'module', 'globals', 'nonlocals', 'func')
    def __init__(self, vars, parent, module, func=None):
        self.vars = vars; self.parent = parent; self.module = module; self.globals = set(); self.nonlocals = set(); self.func = func

class Func:
    def __init__(self, node, scope, defaults, kwdefaults, name):
        self.node = node; self.scope = scope; self.defaults = defaults; self.kwdefaults = kwdefaults
        self.__name__ = name; self.gen = is_gen(node); self.attrs = {}
    def __call__(self, *a, **k): return M.call_func(self, a, k)
    def __get__(self, obj, t=None): return self if obj is None else functools.partial(self, obj)
    def __repr__(self): return '<function %s>' % self.__name__
    def __deepcopy__(self, m): return self

class Cls:
    def __init__(self, name, bases, ns): self.name = name; self.bases = bases; self.ns = ns
    def find(self, n):
        if n in self.ns: return self.ns[n]
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.find(n)
                if r is not None: return r
        return None
    def __call__(self, *a, **k):
        o = Inst(self); init = self.find('__init__')
        if init: init(o, *a, **k)
        return o
    def __repr__(self): return self.name
class Inst:
    def __init__(self, cls): self.cls = cls; self.attrs = {}
    def _m(self, n):
        f = self.cls.find(n)
        if f is None: raise Undecided('%s of %s' % (n, self.cls.name))
        return f
    def __enter__(self): return self._m('__enter__')(self)
    def __exit__(self, *e): return self._m('__exit__')(self, *e)
    def __iter__(self): return iter(self._m('__iter__')(self))
    def __next__(self): return self._m('__next__')(self)
    def __call__(self, *a, **k): return self._m('__call__')(self, *a, **k)
    def __len__(self): return self._m('__len__')(self)
    def __getitem__(self, i): return self._m('__getitem__')(self, i)

def is_gen(node):
    body = node.body if isinstance(node.body, list) else [node.body]
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)): continue
        todo.extend(ast.iter_child_nodes(n))
    return False

BINOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
  ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift}
IOPS = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.BitOr: operator.ior, ast.BitAnd: operator.iand}

TYPING = {'List': list, 'Dict': dict, 'Set': set, 'Tuple': tuple, 'Iterable': collections.abc.Iterable, 'Sequence': collections.abc.Sequence,
  'Mapping': collections.abc.Mapping, 'Iterator': collections.abc.Iterator, 'Generator': collections.abc.Generator, 'Any': object, 'Callable': collections.abc.Callable,
  'Collection': collections.abc.Collection, 'MutableMapping': collections.abc.MutableMapping}
NATIVE = {'itertools', 'collections', 'functools', 'math', 'operator', 'string', 'copy', 'collections.abc', 'contextlib', 'types', 'enum', 'textwrap'}
PURE_PATH = {'join', 'basename', 'dirname', 'splitext', 'normpath', 'split'}

class ExtError(Exception): pass
_exts = {}
def exc(name, base=None):
    """The class of an exception of the outside world."""
    if name not in _exts:
        _exts[name] = type(name.split('.')[-1], (base or ExtError,), {'__module__': name.rsplit('.', 1)[0]})
    return _exts[name]
_api = exc('elasticsearch.exceptions.ApiError'); _tr = exc('elasticsearch.exceptions.TransportError')
for _n in ('NotFoundError', 'ConflictError', 'BadRequestError', 'AuthenticationException', 'AuthorizationException', 'RequestError'):
    exc('elasticsearch.exceptions.' + _n, _api)
for _n in ('ConnectionError', 'ConnectionTimeout', 'SerializationError'):
    exc('elasticsearch.exceptions.' + _n, _tr)

class World:
    """The outside: rules derive their own."""
    on_step = None                # called before every statement
    def __init__(self): self.events = []
    def event(self, *e): self.events.append(e)
    def attr(self, obj, name): return Method(obj, name)
    def modattr(self, name):
        """A value for a dotted name outside the repository (None: unknown, stays a name)."""
        return None
    def call(self, name, a, k):
        f = getattr(self, 'x_' + name.replace('.', '_'), None)
        if f: return f(*a, **k)
        if name.startswith('typing.'): return Mod(name + '()')
        if name.startswith('os.path.') and name.split('.')[-1] in PURE_PATH: return pathop(name.split('.')[-1], a)
        if name in ('logging.getLogger',): return Obj('logger')
        if name in ('tqdm.tqdm', 'tqdm', 'tqdm.autonotebook.tqdm', 'tqdm.auto.tqdm') and a: return Obj('tqdm', it=a[0])
        if name.startswith('warnings.'): return None
        return self.unknown(name, a, k)
    def unknown(self, name, a, k):
        self.event('call', name, a, k)
        return U('call:' + name, a + tuple(('%s=' % x, k[x]) for x in sorted(k)))
    def method(self, obj, name, a, k):
        if obj.kind == 'logger': return None
        if obj.kind == 'tqdm':
            return None
        raise Undecided('%s.%s' % (obj.kind, name))
    def iterate(self, obj):
        if obj.kind == 'tqdm': return iter(obj.data['it'])
        raise Undecided('iteration over %s' % obj.kind)
    def length(self, obj): raise Undecided('length of %s' % obj.kind)
    def enter(self, obj): return obj
    def exit(self, obj, e): return False
    def item(self, obj, i): raise Undecided('item of %s' % obj.kind)
    def setitem(self, obj, i, v): raise Undecided('item of %s' % obj.kind)
    def print(self, a, k): self.event('print', a, k)
    def open(self, a, k): raise Undecided('open(%r)' % (a,))

def pathop(name, a):
    if not has_u(a): return getattr(posixpath, name)(*a)
    if name == 'join':
        out = []
        for i, p in enumerate(a):
            if i and p == '' if isinstance(p, str) else False: continue
            if i and not (isinstance(out[-1], str) and out[-1].endswith('/')): out.append('/')
            out.append(p)
        return concat(out)
    return U('path.' + name, a, str if name not in ('splitext', 'split') else tuple)

M = None

class Machine:
    def __init__(self, repo, world, script=()):
        self.repo = repo; self.world = world; self.script = list(script); self.pos = 0; self.memo = {}; self.taken = []; self.modules = {}; self.steps = 0
    # --- choices ---------------------------------------------------------------------------------
    def choose(self, n, what):
        if n == 1: return 0
        c = self.script[self.pos] if self.pos < len(self.script) else 0
        self.pos += 1; self.taken.append((c, n, what))
        return c
    def truth(self, u):
        """Whether an unknown term holds: asked once per path."""
        if u.ty in (str, bytes, list, tuple, dict): return not self.less(U('len', (u,), int), 1)
        if u.ty is int: return not self.equal_int(u, 0)
        if u.ty is PathT: return True
        if u.op == 'eq':
            a, b = u.args
            if isinstance(a, U) and not isinstance(b, U): a, b = b, a
            if isinstance(b, U) and not isinstance(a, U):
                if a == '' and b.ty is str: return self.less(U('len', (b,), int), 1)
                if b.ty is int and isinstance(a, int) and not isinstance(a, bool): return self.equal_int(b, a)
        k = freeze(u)
        if k not in self.memo: self.memo[k] = self.choose(2, u) == 0
        return self.memo[k]
    def cond(self, v):
        if isinstance(v, U):
            if v.op == 'not': return not self.cond(v.args[0])
            return self.truth(v)
        if isinstance(v, (Obj, Mod, Func)): return True
        return bool(v)
    # --- modules ---------------------------------------------------------------------------------
    def find_module(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        for q in (p + '.py', os.path.join(p, '__init__.py')):
            if os.path.isfile(q): return q
        return None
    def load(self, path, name=None):
        path = os.path.realpath(path)
        if path in self.modules: return self.modules[path]
        tree = parse(path)
        m = PyModule(path=path, vars={}, name=name or '__main__')
        self.modules[path] = m
        m.vars['__name__'] = m.name; m.vars['__file__'] = tok('file:' + os.path.relpath(path, self.repo))
        m.vars['__doc__'] = None
        sc = Scope(m.vars, None, m)
        run(self.block(tree.body, sc))
        return m
    def import_name(self, name, m=None):
        p = self.find_module(name)
        if p is None and m is not None:
            q = os.path.join(os.path.dirname(m.path), *name.split('.')) + '.py'
            if os.path.isfile(q) and '.' not in name: p = q
        if p: return self.load(p, name)
        if name in NATIVE: return importlib(name)
        return Mod(name)
    # --- attribute access ------------------------------------------------------------------------
    def getattr(self, o, n):
        if isinstance(o, U): return UMethod(o, n) if (o.ty in (str, bytes, list, dict) or n in STR_RESULT) and n in STR_RESULT else self.uattr(o, n)
        if isinstance(o, Mod):
            full = o.name + '.' + n
            if o.name in ('typing', 'collections.abc') and n in TYPING: return TYPING[n]
            v = self.world.modattr(full)
            if v is not None: return v
            if full in ('elasticsearch.' + n, 'elasticsearch.exceptions.' + n) and (n.endswith('Error') or n.endswith('Exception') or n.endswith('Timeout')): return exc('elasticsearch.exceptions.' + n)
            if n.endswith('Error') or n.endswith('Exception') or n.lower() == 'error' and o.name not in ('logging',): return exc(full)
            if full == 'json.JSONDecodeError': return json.JSONDecodeError
            return Mod(full)
        if isinstance(o, Obj): return self.world.attr(o, n)
        if isinstance(o, Inst):
            if n in o.attrs: return o.attrs[n]
            if n == '__class__': return o.cls
            if n == '__dict__': return o.attrs
            v = o.cls.find(n)
            if v is None: raise AttributeError(n)
            if isinstance(v, Func): return functools.partial(v, o)
            if isinstance(v, tuple) and len(v) == 2 and v[0] == 'property': return v[1](o)
            if isinstance(v, tuple) and len(v) == 2 and v[0] == 'static': return v[1]
            if isinstance(v, tuple) and len(v) == 2 and v[0] == 'class': return functools.partial(v[1], o.cls)
            return v
        if isinstance(o, Cls):
            v = o.find(n)
            if isinstance(v, tuple) and len(v) == 2 and v[0] == 'static': return v[1]
            if isinstance(v, tuple) and len(v) == 2 and v[0] == 'class': return functools.partial(v[1], o)
            if v is None: raise AttributeError(n)
            return v
        if isinstance(o, PyModule):
            if n in o.vars: return o.vars[n]
            sub = self.find_module(o.name + '.' + n)
            if sub: return self.load(sub, o.name + '.' + n)
            raise AttributeError('%s.%s' % (o.name, n))
        if isinstance(o, Func):
            if n in o.attrs: return o.attrs[n]
            if n in ('__name__', '__qualname__'): return o.__name__
            if n == '__wrapped__': return o
        if isinstance(o, str) and n in STR_RESULT and n != 'encode': return StrMethod(o, n)
        if isinstance(o, dict) and n in ('get', 'pop', 'setdefault'):
            return functools.partial(self.dict_method, o, n)
        if isinstance(o, list) and n in ('index', 'remove', 'count'): return getattr(o, n)
        if n.startswith('__') and n not in ('__name__', '__dict__', '__class__', '__len__', '__iter__', '__next__', '__doc__', '__enter__', '__exit__', '__getitem__', '__contains__', '__setitem__'):
            raise Undecided('attribute %s' % n)
        return getattr(o, n)
    def uattr(self, u, n):
        return U('attr', (u, n), PathT if u.ty is PathT and n in ('parent', 'resolve', 'absolute', 'joinpath', 'expanduser', 'with_suffix', 'with_name') else None)
    def umethod(self, u, n, a, k):
        if k: a = a + tuple(('%s=' % x, k[x]) for x in sorted(k))
        if u.op == 'text' and n == 'encode': pass
        return U('str.' + n, (u,) + a, STR_RESULT.get(n) if n not in ('split', 'rsplit', 'splitlines') else list)
    def dict_method(self, d, n, key, *rest, **kw):
        if isinstance(key, U) or any(isinstance(x, U) for x in d):
            key = self.find_key(d, key)
        return getattr(d, n)(key, *rest, **kw)
    def find_key(self, d, key):
        """The key of d that is equal to key, deciding unknown equalities."""
        if key in d: return key
        for x in list(d):
            if isinstance(key, U) or isinstance(x, U):
                if self.eq(key, x): return x
        return key
    def eq(self, a, b):
        if isinstance(a, U): return a == b
        if isinstance(b, U): return b == a
        return a == b
    def subscript(self, o, i):
        if isinstance(o, U):
            if o.op == 'str.encode' : pass
            if isinstance(i, slice):
                i = U('slice', (i.start, i.stop, i.step))
                if i.args == (None, None, None): return o
                return U('item', (o, i), o.ty)
            return U('item', (o, i), str if o.ty is str else None)
        if isinstance(o, Mod): return o
        if isinstance(o, type): return o
        if isinstance(o, dict):
            k = self.find_key(o, i); return o[k]
        if isinstance(o, (list, tuple, str)) and (isinstance(i, U) or isinstance(i, slice) and has_u((i.start, i.stop, i.step))):
            if isinstance(i, slice): i = U('slice', (i.start, i.stop, i.step))
            return U('item', (o, i), str if isinstance(o, str) else None)
        return o[i]
    def setitem(self, o, i, v):
        if isinstance(o, U): raise Undecided('assignment to an item of %r' % o)
        if isinstance(o, dict): o[self.find_key(o, i)] = v
        else: o[i] = v
    def contains(self, x, c):
        if isinstance(c, U): return self.truth(U('in', (x, c), bool))
        if isinstance(c, Obj): return self.world.method(c, '__contains__', (x,), {})
        if isinstance(c, str):
            if isinstance(x, U): return self.truth(U('in', (x, c), bool))
            return x in c
        if isinstance(c, dict): return self.find_key(c, x) in c
        if isinstance(c, (list, tuple, set, frozenset)):
            if isinstance(c, (set, frozenset)) and not isinstance(x, U) and not has_u(c): return x in c
            ys = list(c)
            if isinstance(x, U) and any(isinstance(y, U) and y.same(x) for y in ys): return True
            return any(self.eq(x, y) for y in ys)
        return x in c
    def to_str(self, v):
        if isinstance(v, U): return v if v.ty is str else U('str', (v,), str)
        if isinstance(v, (list, tuple, dict)) and has_u(v): return U('str', (v,), str)
        return str(v)
    # --- calls -----------------------------------------------------------------------------------
    def call(self, f, a, k):
        if isinstance(f, U): return U('call', (f,) + tuple(a) + tuple(('%s=' % x, k[x]) for x in sorted(k)), f.ty)
        if isinstance(f, Mod): return self.world.call(f.name, tuple(a), k)
        h = BUILTIN.get(f) if isinstance(f, (type, types.BuiltinFunctionType)) else None
        if h: return h(self, *a, **k)
        if f is None: raise TypeError("'NoneType' object is not callable")
        if isinstance(f, types.BuiltinMethodType) or isinstance(f, types.MethodWrapperType):
            self_ = getattr(f, '__self__', None)
            if isinstance(self_, (set,)) and f.__name__ in ('add', 'remove', 'discard') and (isinstance(a[0], U) or has_u(self_)) and f.__name__ != 'add':
                for y in list(self_):
                    if self.eq(a[0], y): self_.remove(y); return None
                if f.__name__ == 'remove': raise KeyError(a[0])
                return None
            if isinstance(self_, (set,)) and f.__name__ == 'add' and (isinstance(a[0], U) or has_u(self_)):
                if not self.contains(a[0], self_): self_.add(a[0])
                return None
        return f(*a, **k)
    def call_func(self, f, a, k):
        node = f.node; ar = node.args
        vars = {}
        names = [x.arg for x in ar.posonlyargs + ar.args]
        if len(a) > len(names) and not ar.vararg: raise TypeError('%s() takes %d positional arguments' % (f.__name__, len(names)))
        for n, v in zip(names, a): vars[n] = v
        if ar.vararg: vars[ar.vararg.arg] = tuple(a[len(names):])
        extra = {}
        for n, v in k.items():
            if n in names or n in [x.arg for x in ar.kwonlyargs]:
                if n in vars: raise TypeError('multiple values for ' + n)
                vars[n] = v
            elif ar.kwarg: extra[n] = v
            else: raise TypeError("%s() got an unexpected keyword argument '%s'" % (f.__name__, n))
        if ar.kwarg: vars[ar.kwarg.arg] = extra
        ds = f.defaults; off = len(names) - len(ds)
        for i, n in enumerate(names):
            if n not in vars:
                if i >= off: vars[n] = ds[i - off]
                else: raise TypeError("%s() missing argument '%s'" % (f.__name__, n))
        for x in ar.kwonlyargs:
            if x.arg not in vars:
                if x.arg in f.kwdefaults: vars[x.arg] = f.kwdefaults[x.arg]
                else: raise TypeError("%s() missing argument '%s'" % (f.__name__, x.arg))
        sc = Scope(vars, f.scope, f.scope.module, f)
        if isinstance(node, ast.Lambda):
            if f.gen: raise Undecided('yield in lambda')
            return run(self.ev(node.body, sc))
        if f.gen: return self.generator(node.body, sc)
        self.depth = getattr(self, 'depth', 0) + 1
        if self.depth > 60: raise Undecided('recursion')
        try: run(self.block(node.body, sc))
        except _Return as r: return r.v
        finally: self.depth -= 1
        return None
    def generator(self, body, sc):
        try: yield from self.block(body, sc)
        except _Return as r: return r.v
    # --- names -----------------------------------------------------------------------------------
    def lookup(self, n, sc):
        s = sc
        first = True
        while s is not None:
            if n in s.globals: 
                if n in s.module.vars: return s.module.vars[n]
                break
            if n in s.vars: return s.vars[n]
            if first and s.func is not None and n in local_names(s.func.node) and n not in s.nonlocals: raise UnboundLocalError(n)
            first = False
            s = s.parent
        if n in sc.module.vars: return sc.module.vars[n]
        if n == 'open': return Mod('open')
        if n in ('exit', 'quit'): return Mod('sys.exit')
        if n in ALLOWED: return getattr(builtins, n)
        if isinstance(getattr(builtins, n, None), type) and issubclass(getattr(builtins, n), BaseException): return getattr(builtins, n)
        raise NameError(n)
    def store(self, n, v, sc):
        if n in sc.globals: sc.module.vars[n] = v; return
        if n in sc.nonlocals:
            s = sc.parent
            while s is not None:
                if n in s.vars: s.vars[n] = v; return
                s = s.parent
        sc.vars[n] = v
    def assign(self, t, v, sc):
        if isinstance(t, ast.Name): self.store(t.id, v, sc)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, U):
                if any(isinstance(x, ast.Starred) for x in t.elts): raise Undecided('unpacking %r' % v)
                vs = self.world.unpack(v, len(t.elts)) if hasattr(self.world, 'unpack') else [self.subscript(v, i) for i in range(len(t.elts))]
            else: vs = list(v)
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                i = st[0]; m = len(t.elts) - 1
                if len(vs) < m: raise ValueError('not enough values to unpack')
                j = len(vs) - (m - i)
                vs = vs[:i] + [vs[i:j]] + vs[j:]
            elif len(vs) != len(t.elts): raise ValueError('unpack %d values into %d' % (len(vs), len(t.elts)))
            for x, y in zip(t.elts, vs):
                yield from self.assign(x.value if isinstance(x, ast.Starred) else x, y, sc)
        elif isinstance(t, ast.Attribute):
            o = yield from self.ev(t.value, sc)
            if isinstance(o, Inst): o.attrs[t.attr] = v
            elif isinstance(o, Func): o.attrs[t.attr] = v
            elif isinstance(o, Obj): self.world.setattr(o, t.attr, v) if hasattr(self.world, 'setattr') else o.data.__setitem__(t.attr, v)
            elif isinstance(o, types.SimpleNamespace): setattr(o, t.attr, v)
            elif isinstance(o, (U, Mod)): self.world.event('setattr', o, t.attr, v)
            else: setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = yield from self.ev(t.value, sc); i = yield from self.ev(t.slice, sc)
            self.setitem(o, i, v)
        else: raise Undecided('assignment')
        return
        yield
    # --- statements ------------------------------------------------------------------------------
    def block(self, body, sc):
        for s in body:
            self.steps += 1
            if self.steps > 200000: raise Undecided('too many steps')
            if self.world.on_step is not None: self.world.on_step(self, s)
            yield from getattr(self, 's_' + type(s).__name__)(s, sc)
    def s_Expr(self, s, sc): yield from self.ev(s.value, sc)
    def s_Pass(self, s, sc):
        return
        yield
    def s_Assign(self, s, sc):
        v = yield from self.ev(s.value, sc)
        for t in s.targets: yield from self.assign(t, v, sc)
    def s_AnnAssign(self, s, sc):
        if s.value is not None:
            v = yield from self.ev(s.value, sc)
            yield from self.assign(s.target, v, sc)
    def s_AugAssign(self, s, sc):
        t = s.target
        if isinstance(t, ast.Name): old = self.lookup(t.id, sc)
        elif isinstance(t, ast.Attribute):
            o = yield from self.ev(t.value, sc); old = self.getattr(o, t.attr)
        else:
            o = yield from self.ev(t.value, sc); i = yield from self.ev(t.slice, sc); old = self.subscript(o, i)
        v = yield from self.ev(s.value, sc)
        if isinstance(old, (list, set, dict)) and type(s.op) in IOPS:
            if isinstance(v, Obj): v = list(v)
            new = IOPS[type(s.op)](old, v)
        else: new = self.binop(type(s.op), old, v)
        if isinstance(t, ast.Name): self.store(t.id, new, sc)
        elif isinstance(t, ast.Attribute):
            if isinstance(o, Inst): o.attrs[t.attr] = new
            else: setattr(o, t.attr, new)
        else: self.setitem(o, i, new)
    def s_Return(self, s, sc):
        v = None
        if s.value is not None: v = yield from self.ev(s.value, sc)
        raise _Return(v)
    def s_If(self, s, sc):
        c = yield from self.ev(s.test, sc)
        yield from self.block(s.body if self.cond(c) else s.orelse, sc)
    def s_While(self, s, sc):
        n = 0
        while True:
            c = yield from self.ev(s.test, sc)
            if not self.cond(c): yield from self.block(s.orelse, sc); return
            n += 1
            if n > 3000: raise Undecided('loop without end at line %d' % s.lineno)
            try: yield from self.block(s.body, sc)
            except _Break: return
            except _Continue: pass
    def s_For(self, s, sc):
        it = yield from self.ev(s.iter, sc)
        it = self.iter(it)
        while True:
            try: x = next(it)
            except StopIteration: yield from self.block(s.orelse, sc); return
            yield from self.assign(s.target, x, sc)
            try: yield from self.block(s.body, sc)
            except _Break: return
            except _Continue: pass
    def iter(self, v):
        if isinstance(v, U) and hasattr(self.world, 'iter_u'): return iter(self.world.iter_u(v))
        return iter(v)
    def s_Break(self, s, sc):
        raise _Break()
        yield
    def s_Continue(self, s, sc):
        raise _Continue()
        yield
    def s_FunctionDef(self, s, sc):
        f = yield from self.make(s, sc, s.name)
        for d in reversed(s.decorator_list):
            dv = yield from self.ev(d, sc)
            f = self.decorate(dv, f)
        self.store(s.name, f, sc)
    def decorate(self, dv, f):
        n = dv.name if isinstance(dv, Mod) else getattr(dv, '__name__', '')
        if dv in (functools.cache, functools.lru_cache) or getattr(dv, '_lru', False):
            memo = {}
            def cached(*a, **k):
                key = (freeze(a), freeze(k))
                if key not in memo: memo[key] = M.call(f, a, k)
                return memo[key]
            cached.__name__ = f.__name__; cached.inner = f
            return cached
        if dv is property: return ('property', f)
        if dv is staticmethod: return ('static', f)
        if dv is classmethod: return ('class', f)
        if n == 'wraps' or getattr(dv, '_wraps', False): return f
        return self.call(dv, (f,), {})
    def make(self, s, sc, name):
        ds = []
        for d in s.args.defaults: ds.append((yield from self.ev(d, sc)))
        kd = {}
        for x, d in zip(s.args.kwonlyargs, s.args.kw_defaults):
            if d is not None: kd[x.arg] = yield from self.ev(d, sc)
        # a class body is not a scope for its methods
        return Func(s, sc, ds, kd, name)
    def s_ClassDef(self, s, sc):
        bases = []
        for b in s.bases: bases.append((yield from self.ev(b, sc)))
        ns = {}
        csc = Scope(ns, sc, sc.module)
        yield from self.block(s.body, csc)
        nat = [b for b in bases if isinstance(b, type) and issubclass(b, BaseException)]
        if nat:
            v = type(s.name, tuple(nat), {})
        else: v = Cls(s.name, bases, ns)
        self.store(s.name, v, sc)
    def s_Global(self, s, sc):
        sc.globals.update(s.names)
        return
        yield
    def s_Nonlocal(self, s, sc):
        sc.nonlocals.update(s.names)
        return
        yield
    def s_Import(self, s, sc):
        for a in s.names:
            if a.asname: self.store(a.asname, self.import_name(a.name, sc.module), sc)
            else:
                self.import_name(a.name, sc.module)
                self.store(a.name.split('.')[0], self.import_name(a.name.split('.')[0], sc.module), sc)
        return
        yield
    def s_ImportFrom(self, s, sc):
        name = s.module or ''
        if s.level:
            base = sc.module.path
            for _ in range(s.level): base = os.path.dirname(base)
            rel = os.path.relpath(base, os.path.realpath(self.repo)).replace('/', '.')
            name = rel + ('.' + name if name else '') if rel != '.' else name
        m = self.import_name(name, sc.module)
        for a in s.names:
            if a.name == '*':
                if isinstance(m, PyModule):
                    for n, v in m.vars.items():
                        if not n.startswith('_'): self.store(n, v, sc)
                    continue
                raise Undecided('import *')
            sub = self.find_module(name + '.' + a.name)
            if sub and not (isinstance(m, PyModule) and a.name in m.vars): v = self.load(sub, name + '.' + a.name)
            else: v = self.getattr(m, a.name)
            self.store(a.asname or a.name, v, sc)
        return
        yield
    def s_Raise(self, s, sc):
        if s.exc is None:
            e = sys.exc_info()[1]
            while isinstance(e, (_Break, _Continue, _Return)): e = e.__context__
            cur = getattr(self, 'handling', [])
            if cur: raise cur[-1]
            raise RuntimeError('No active exception to reraise')
        v = yield from self.ev(s.exc, sc)
        if s.cause is not None: yield from self.ev(s.cause, sc)
        if isinstance(v, type) and issubclass(v, BaseException): v = v()
        if isinstance(v, Mod): v = exc(v.name)()
        if isinstance(v, U): raise Undecided('raise %r' % v)
        raise v
    def s_Assert(self, s, sc):
        c = yield from self.ev(s.test, sc)
        if not self.cond(c):
            raise AssertionError(s.lineno)
    def s_Delete(self, s, sc):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id in sc.vars: del sc.vars[t.id]
                else: raise NameError(t.id)
            elif isinstance(t, ast.Subscript):
                o = yield from self.ev(t.value, sc); i = yield from self.ev(t.slice, sc)
                if isinstance(o, dict): del o[self.find_key(o, i)]
                else: del o[i]
            else: raise Undecided('del')
    def s_Try(self, s, sc):
        hs = getattr(self, 'handling', None)
        if hs is None: hs = self.handling = []
        try:
            try:
                yield from self.block(s.body, sc)
            except (_Return, _Break, _Continue, Stop, Undecided): raise
            except BaseException as e:
                h = yield from self.match_handler(s.handlers, e, sc)
                if h is None: raise
                hs.append(e)
                try:
                    if h.name: self.store(h.name, e, sc)
                    yield from self.block(h.body, sc)
                    if h.name: sc.vars.pop(h.name, None)
                finally: hs.pop()
            else:
                yield from self.block(s.orelse, sc)
        finally:
            e = sys.exc_info()[1]
            if not isinstance(e, (Stop, Undecided)): yield from self.block(s.finalbody, sc)
    def match_handler(self, hs, e, sc):
        for h in hs:
            if h.type is None: return h
            t = yield from self.ev(h.type, sc)
            ts = t if isinstance(t, tuple) else (t,)
            for t in ts:
                if isinstance(t, Mod): t = exc(t.name)
                if isinstance(t, U): raise Undecided('except %r' % t)
                if isinstance(t, type) and isinstance(e, t): return h
        return None
    def s_With(self, s, sc): yield from self.with_(s.items, s.body, sc)
    def with_(self, items, body, sc):
        if not items: yield from self.block(body, sc); return
        it = items[0]
        o = yield from self.ev(it.context_expr, sc)
        if isinstance(o, U): ent = lambda: U('enter', (o,), o.ty); ext = lambda *e: False
        else:
            ent = o.__enter__; ext = o.__exit__
        v = ent()
        if it.optional_vars is not None: yield from self.assign(it.optional_vars, v, sc)
        try: yield from self.with_(items[1:], body, sc)
        except (Stop, Undecided): raise
        except (_Return, _Break, _Continue):
            ext(None, None, None); raise
        except BaseException as e:
            if not ext(type(e), e, e.__traceback__): raise
        else: ext(None, None, None)
    def s_Match(self, s, sc):
        raise Undecided('match')
        yield
    # --- expressions -----------------------------------------------------------------------------
    def ev(self, e, sc): return getattr(self, 'e_' + type(e).__name__)(e, sc)
    def e_Constant(self, e, sc):
        return e.value
        yield
    def e_Name(self, e, sc):
        return self.lookup(e.id, sc)
        yield
    def e_Attribute(self, e, sc):
        o = yield from self.ev(e.value, sc)
        return self.getattr(o, e.attr)
    def e_Subscript(self, e, sc):
        o = yield from self.ev(e.value, sc)
        i = yield from self.ev(e.slice, sc)
        return self.subscript(o, i)
    def e_Slice(self, e, sc):
        r = []
        for x in (e.lower, e.upper, e.step): r.append((yield from self.ev(x, sc)) if x is not None else None)
        return slice(*r)
    def seq(self, es, sc):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = yield from self.ev(x.value, sc); out.extend(self.iter(v))
            else: out.append((yield from self.ev(x, sc)))
        return out
    def e_List(self, e, sc): return (yield from self.seq(e.elts, sc))
    def e_Tuple(self, e, sc): return tuple((yield from self.seq(e.elts, sc)))
    def e_Set(self, e, sc): return set((yield from self.seq(e.elts, sc)))
    def e_Dict(self, e, sc):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None: d.update((yield from self.ev(v, sc)))
            else:
                kk = yield from self.ev(k, sc)
                d[kk] = yield from self.ev(v, sc)
        return d
    def e_JoinedStr(self, e, sc):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant): out.append(v.value)
            else:
                x = yield from self.ev(v.value, sc)
                spec = ''
                if v.format_spec is not None: spec = yield from self.ev(v.format_spec, sc)
                if v.conversion == 114 and has_u(x): out.append(U('repr', (x,), str))
                elif v.conversion == 114: out.append(repr(x))
                elif not spec: out.append(self.to_str(x))
                elif isinstance(x, U): out.append(U('format', (x, spec), str))
                else: out.append(format(x, spec))
        return concat(out)
    def e_FormattedValue(self, e, sc):
        raise Undecided('format')
        yield
    def binop(self, op, a, b):
        if op is ast.Mod and isinstance(a, str) and has_u(b):
            xs = list(b) if isinstance(b, tuple) else [b]
            ps = re.split(r'(%[sd])', a); out = []
            if '%' in re.sub(r'%[sd]', '', a): return U('mod', (a, b), str)
            for p in ps:
                out.append(self.to_str(xs.pop(0)) if p in ('%s', '%d') else p)
            return concat(out)
        return BINOPS[op](a, b)
    def e_BinOp(self, e, sc):
        a = yield from self.ev(e.left, sc); b = yield from self.ev(e.right, sc)
        return self.binop(type(e.op), a, b)
    def e_UnaryOp(self, e, sc):
        v = yield from self.ev(e.operand, sc)
        if isinstance(e.op, ast.Not): return not self.cond(v)
        if isinstance(e.op, ast.USub): return -v
        if isinstance(e.op, ast.UAdd): return +v
        return ~v
    def e_BoolOp(self, e, sc):
        is_and = isinstance(e.op, ast.And)
        for x in e.values[:-1]:
            v = yield from self.ev(x, sc)
            if self.cond(v) != is_and: return v
        return (yield from self.ev(e.values[-1], sc))
    def e_Compare(self, e, sc):
        l = yield from self.ev(e.left, sc)
        for op, rx in zip(e.ops, e.comparators):
            r = yield from self.ev(rx, sc)
            if isinstance(l, Vector) and len(e.ops) == 1: return Vector([self.compare(op, x, r) for x in l])
            if not self.compare(op, l, r): return False
            l = r
        return True
    def compare(self, op, l, r):
        t = type(op)
        if t is ast.Eq: return self.cond(self.eq(l, r))
        if t is ast.NotEq: return not self.cond(self.eq(l, r))
        if t is ast.In: return self.contains(l, r)
        if t is ast.NotIn: return not self.contains(l, r)
        if t is ast.Is or t is ast.IsNot:
            if isinstance(l, U) or isinstance(r, U):
                if isinstance(l, U) and isinstance(r, U): v = l.same(r) if l.free or r.free or l.same(r) else self.truth(U('is', (l, r), bool))
                else:
                    u, o = (l, r) if isinstance(l, U) else (r, l)
                    v = False if u.ty and o is None else self.truth(U('is', (u, o), bool))
            else: v = l is r or (isinstance(l, (int, str, Mod)) and type(l) == type(r) and l == r)
            return v == (t is ast.Is)
        if isinstance(l, U) and not isinstance(r, U) or isinstance(r, U):
            if isinstance(l, U) and isinstance(r, U) and l.same(r): return t in (ast.LtE, ast.GtE)
            # over integers, a > b is b < a and a >= b + 1; one memoised atom a < c per constant bound
            if t is ast.Lt: return self.less(l, r)
            if t is ast.Gt: return self.less(r, l)
            if t is ast.LtE: return not self.less(r, l)
            return not self.less(l, r)
        return {ast.Lt: operator.lt, ast.Gt: operator.gt, ast.LtE: operator.le, ast.GtE: operator.ge}[t](l, r)
    def less(self, a, b):
        """a < b; comparisons of one term with several constants are kept consistent."""
        if isinstance(a, U) and isinstance(b, U) or not isinstance(a if isinstance(b, U) else b, (int, float)):
            return self.truth(U('lt', (a, b), bool))
        u, c, left = (a, b, True) if isinstance(a, U) else (b, a, False)
        integer = u.ty is int and isinstance(c, int)
        if integer and not left: c = c + 1; # c < u  <=>  u >= c+1
        elif not left:
            return self.truth(U('lt', (a, b), bool))
        # atom: u < c
        key = freeze(u); known = getattr(self, 'bounds', None)
        if known is None: known = self.bounds = {}
        lo, hi = known.get(key, (low(u), math.inf))      # lo <= u < hi
        if c <= lo: r = False
        elif c >= hi: r = True
        else:
            r = self.choose(2, U('lt', (u, c), bool)) == 0
            known[key] = (lo, c) if r else (c, hi)
        return r if left else not r
    def equal_int(self, u, c):
        if self.less(u, c): return False
        return self.less(u, c + 1)
    def e_IfExp(self, e, sc):
        c = yield from self.ev(e.test, sc)
        return (yield from self.ev(e.body if self.cond(c) else e.orelse, sc))
    def e_Lambda(self, e, sc): return (yield from self.make(e, sc, '<lambda>'))
    def e_NamedExpr(self, e, sc):
        v = yield from self.ev(e.value, sc)
        self.store(e.target.id, v, sc)
        return v
    def e_Call(self, e, sc):
        f = yield from self.ev(e.func, sc)
        a = yield from self.seq(e.args, sc)
        k = {}
        for w in e.keywords:
            v = yield from self.ev(w.value, sc)
            if w.arg is None:
                for n in v:
                    if n in k: raise TypeError('multiple values for ' + n)
                    k[n] = v[n]
            else: k[w.arg] = v
        self.line = e.lineno
        if f is builtins.super or f is builtins.locals or f is builtins.globals: raise Undecided(f.__name__)
        return self.call(f, tuple(a), k)
    def e_Yield(self, e, sc):
        v = None
        if e.value is not None: v = yield from self.ev(e.value, sc)
        return (yield v)
    def e_YieldFrom(self, e, sc):
        v = yield from self.ev(e.value, sc)
        return (yield from self.iter(v))
    def e_Starred(self, e, sc):
        raise Undecided('starred')
        yield
    def comp(self, gens, sc, emit, i=0):
        if i == len(gens): yield from emit(sc); return
        g = gens[i]
        it = yield from self.ev(g.iter, sc)
        for x in self.iter(it):
            yield from self.assign(g.target, x, sc)
            ok = True
            for c in g.ifs:
                v = yield from self.ev(c, sc)
                if not self.cond(v): ok = False; break
            if ok: yield from self.comp(gens, sc, emit, i + 1)
    def inner(self, sc):
        return Scope({}, sc, sc.module)
    def e_ListComp(self, e, sc):
        out = []; s2 = self.inner(sc)
        def emit(s):
            out.append((yield from self.ev(e.elt, s)))
        yield from self.comp(e.generators, s2, emit)
        return out
    def e_SetComp(self, e, sc):
        out = []; s2 = self.inner(sc)
        def emit(s):
            v = yield from self.ev(e.elt, s)
            if not self.contains(v, out): out.append(v)
        yield from self.comp(e.generators, s2, emit)
        return set(out)
    def e_DictComp(self, e, sc):
        out = {}; s2 = self.inner(sc)
        def emit(s):
            k = yield from self.ev(e.key, s)
            out[k] = yield from self.ev(e.value, s)
        yield from self.comp(e.generators, s2, emit)
        return out
    def e_GeneratorExp(self, e, sc):
        # the first iterable is evaluated at once, the rest when asked for
        first = yield from self.ev(e.generators[0].iter, sc)
        it = self.iter(first)
        s2 = self.inner(sc)
        def gen():
            g = e.generators[0]
            for x in it:
                run(self.assign(g.target, x, s2))
                if all(self.cond(run(self.ev(c, s2))) for c in g.ifs):
                    if len(e.generators) == 1: yield run(self.ev(e.elt, s2))
                    else:
                        out = []
                        def emit(s):
                            out.append((yield from self.ev(e.elt, s)))
                        run(self.comp(e.generators[1:], s2, emit))
                        yield from out
        return gen()

def low(u):
    """The least value of a term."""
    if u.op == 'len': return 1 if isinstance(u.args[0], U) and u.args[0].free and not u.args[0].op.startswith("'?") else 0
    return 0 if u.op == 'str.count' else -math.inf

def run(g):
    """Runs code that does not yield to its end."""
    try: next(g)
    except StopIteration as s: return s.value
    raise Undecided('yield outside of a generator')

_locals = {}
def local_names(node):
    r = _locals.get(id(node))
    if r is None:
        r = set()
        glob = set()
        if not isinstance(node, ast.Lambda):
            todo = list(node.body)
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)): r.add(n.name); continue
                if isinstance(n, ast.Lambda) or isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)): continue
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): r.add(n.id)
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names: r.add((a.asname or a.name).split('.')[0])
                if isinstance(n, (ast.Global, ast.Nonlocal)): glob.update(n.names)
                todo.extend(ast.iter_child_nodes(n))
        r -= glob
        _locals[id(node)] = r
        _keep.append(node)
    return r
_keep = []

_trees = {}
def parse(path):
    t = _trees.get(path)
    if t is None:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            t = _trees[path] = ast.parse(open(path, encoding='utf-8').read(), path)
    return t

def importlib(name):
    import importlib as il
    return il.import_module(name)

ALLOWED = {'len', 'int', 'float', 'str', 'repr', 'bool', 'list', 'dict', 'set', 'tuple', 'frozenset', 'sorted', 'reversed', 'enumerate', 'zip', 'map', 'filter',
  'range', 'sum', 'min', 'max', 'any', 'all', 'abs', 'isinstance', 'issubclass', 'iter', 'next', 'print', 'type', 'getattr', 'hasattr', 'setattr', 'round', 'id',
  'object', 'bytes', 'slice', 'property', 'staticmethod', 'classmethod', 'divmod', 'chr', 'ord', 'hash', 'callable', 'vars', 'NotImplemented', 'super', 'locals', 'globals', 'Ellipsis', 'hex', 'input'}

BUILTIN = {}
def bi(f):
    def d(g): BUILTIN[f] = g; return g
    return d
@bi(len)
def _(m, x):
    if isinstance(x, U):
        return U('len', (x,), int)
    return len(x)
@bi(str)
def _(m, x='', *a): return m.to_str(x) if not a else U('str', (x,) + a, str)
@bi(repr)
def _(m, x): return U('repr', (x,), str) if has_u(x) else repr(x)
@bi(int)
def _(m, x=0, *a):
    if isinstance(x, U): return x if x.ty is int else x.args[0] if x.op == 'str' and isinstance(x.args[0], U) and x.args[0].ty is int else U('int', (x,) + a, int)
    return int(x, *a)
@bi(float)
def _(m, x=0.0): return (x if x.ty is float else U('float', (x,), float)) if isinstance(x, U) else float(x)
@bi(bool)
def _(m, x=False): return m.cond(x)
@bi(isinstance)
def _(m, x, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, U):
        if x.ty is None:
            return m.truth(U('isinstance', (x, tuple(str(y) for y in ts)), bool))
        return any(isinstance(y, type) and issubclass(x.ty, y) for y in ts)
    if isinstance(x, Obj): return any((isinstance(y, Mod) and y.name.split('.')[-1] == x.kind) for y in ts)
    if isinstance(x, Inst): return any(isinstance(y, Cls) and cls_sub(x.cls, y) for y in ts)
    return any(isinstance(y, type) and isinstance(x, y) for y in ts)
def cls_sub(c, d): return c is d or any(isinstance(b, Cls) and cls_sub(b, d) for b in c.bases)
@bi(print)
def _(m, *a, **k): return m.world.print(a, k)
@bi(getattr)
def _(m, o, n, *d):
    try: return m.getattr(o, n)
    except AttributeError:
        if d: return d[0]
        raise
@bi(hasattr)
def _(m, o, n):
    try: m.getattr(o, n); return True
    except AttributeError: return False
@bi(vars)
def _(m, o): return o.__dict__
@bi(type)
def _(m, x, *a):
    if a: raise Undecided('type')
    if isinstance(x, U): return x.ty if x.ty else U('type', (x,))
    return type(x)
@bi(list)
def _(m, x=()): return list(m.iter(x))
@bi(tuple)
def _(m, x=()): return tuple(m.iter(x))
@bi(set)
def _(m, x=()): return dedup(m, x)
@bi(frozenset)
def _(m, x=()): return frozenset(dedup(m, x))
def dedup(m, x):
    out = []
    for y in m.iter(x):
        if not m.contains(y, out): out.append(y)
    return set(out)
@bi(dict)
def _(m, x=(), **k): return dict(x, **k)
@bi(iter)
def _(m, x, *a):
    if a: return iter(x, *a)
    return m.iter(x)
@bi(next)
def _(m, x, *a): return next(x, *a)
@bi(sorted)
def _(m, x, **k): return sorted(m.iter(x), **k)
@bi(sum)
def _(m, x, start=0):
    r = start
    for y in m.iter(x): r = m.binop(ast.Add, r, y)
    return r
@bi(min)
def _(m, *a, **k):
    if len(a) > 1 and has_u(a) and not k: return U('min', tuple(sorted(a, key=repr)), int if all((x.ty if isinstance(x, U) else type(x)) is int for x in a) else None)
    return min(*a, **k)
@bi(max)
def _(m, *a, **k):
    if len(a) > 1 and has_u(a) and not k: return U('max', tuple(sorted(a, key=repr)), int if all((x.ty if isinstance(x, U) else type(x)) is int for x in a) else None)
    return max(*a, **k)
@bi(range)
def _(m, *a):
    if has_u(a): raise Undecided('range%r' % (a,))
    return range(*a)
@bi(any)
def _(m, x):
    for y in m.iter(x):
        if m.cond(y): return True
    return False
@bi(all)
def _(m, x):
    for y in m.iter(x):
        if not m.cond(y): return False
    return True
@bi(enumerate)
def _(m, x, start=0):
    if isinstance(start, U): raise Undecided('enumerate')
    return enumerate(m.iter(x), start)
@bi(zip)
def _(m, *a, **k): return zip(*[m.iter(x) for x in a], **k)
@bi(map)
def _(m, f, *a): return (m.call(f, x, {}) for x in zip(*[m.iter(y) for y in a]))
@bi(filter)
def _(m, f, a): return (x for x in m.iter(a) if m.cond(x if f is None else m.call(f, (x,), {})))
@bi(reversed)
def _(m, x): return reversed(x)
@bi(hash)
def _(m, x): return U('hash', (x,), int)
@bi(copy.deepcopy)
def _(m, x, *a): return copy.deepcopy(x)

def explore(repo, make_world, body, limit=4000):
    """Runs body(machine) for every sequence of choices; yields (machine, outcome) where the outcome is
    ('return', value), ('raise', exception) or ('undecided', text)."""
    global M
    script = []; n = 0
    while True:
        n += 1
        if n > limit: yield None, ('undecided', 'more than %d paths' % limit); return
        w = make_world()
        M = m = Machine(repo, w, script)
        w.m = m
        try: out = ('return', body(m))
        except Stop: out = None
        except Undecided as e: out = ('undecided', str(e))
        except (_Return, _Break, _Continue): raise
        except RecursionError: out = ('undecided', 'recursion')
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt,)) and not getattr(w, 'interrupts', False): raise
            out = ('raise', e)
        if out is not None: yield m, out
        t = m.taken[:]
        while t and t[-1][0] == t[-1][1] - 1: t.pop()
        if not t: return
        script = [c for c, _, _ in t[:-1]] + [t[-1][0] + 1]

def trace(m): return ['%r: %s' % (w, 'yes' if c == 0 else 'no') if n == 2 else '%r: %d' % (w, c) for c, n, w in m.taken]
