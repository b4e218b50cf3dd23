"""C27: in the Python tools every name that is read is bound on the path that reaches it, and every
option that is read is declared.  A definite-assignment analysis of each scope, a table of the names of
each module, and a table of the options of each parser."""
import ast, os, builtins, importlib, sys, warnings
from check import rule

BUILTIN = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__spec__', '__path__', '__builtins__', '__annotations__', '__dict__', '__class__', '__loader__', '__debug__'}
FN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)

def files(repo):
    out = []
    for d in ('wimbd', 'preparation', 'runs'):
        for r, ds, fs in os.walk(os.path.join(repo, d)):
            ds[:] = sorted(x for x in ds if not x.startswith('.') and x not in ('target', '__pycache__'))
            out += [os.path.join(r, f) for f in sorted(fs) if f.endswith('.py')]
    return out

class Module:
    def __init__(self, repo, path):
        self.path = path; self.rel = os.path.relpath(path, repo)
        self.src = open(path, encoding='utf-8').read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = ast.parse(self.src, path)
        self.name = self.rel[:-3].replace(os.sep, '.')
        if self.name.endswith('.__init__'): self.name = self.name[:-9]
    def at(self, n): return '%s:%d' % (self.rel, getattr(n, 'lineno', 0))

def is_guard(s):
    return isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and any(isinstance(y, ast.Name) and y.id == '__name__' for y in ast.walk(s.test))

def bound_in(body, top=True):
    """Names a list of statements binds in its own scope (any path)."""
    out = set()
    def target(t):
        for y in ast.walk(t):
            if isinstance(y, ast.Name) and isinstance(y.ctx, (ast.Store, ast.Del)): out.add(y.id)
    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            for d in n.decorator_list: visit(d)
            return
        if isinstance(n, ast.Lambda): return
        if isinstance(n, COMP):
            # only assignment expressions bind outside
            for y in ast.walk(n):
                if isinstance(y, ast.NamedExpr): target(y.target)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): out.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names: out.add((a.asname or a.name).split('.')[0])
        if isinstance(n, ast.ExceptHandler) and n.name: out.add(n.name)
        if hasattr(ast, 'MatchAs') and isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name: out.add(n.name)
        for y in ast.iter_child_nodes(n): visit(y)
    for s in body: visit(s)
    return out

def declared_global(body):
    return {x for s in body for n in ast.walk(s) if isinstance(n, ast.Global) for x in n.names}

class Scope:
    """One function or module: definite assignment."""
    def __init__(self, mod, node, outer, R):
        self.mod = mod; self.node = node; self.outer = outer; self.R = R
        self.body = node.body if not isinstance(node, ast.Lambda) else [ast.Expr(node.body)]
        a = getattr(node, 'args', None)
        self.params = {x.arg for x in (a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y])} if a else set()
        self.globals = declared_global(self.body) if a else set()
        self.nonlocals = {x for s in self.body for n in ast.walk(s) if isinstance(n, ast.Nonlocal) for x in n.names} if a else set()
        self.local = (bound_in(self.body) | self.params) - self.globals - self.nonlocals
        self.later = []
        self.cond = {}
    def bad(self, rule, n, what): self.R.bad(rule, self.mod.at(n), what)
    # state: frozenset of bound names, or None where control does not come
    def read(self, name, n, st):
        self.R.ob('name read', self.mod.at(n))
        if name in self.local and not isinstance(self.node, ast.ClassDef):
            if st is not None and name not in st:
                if isinstance(self.node, ast.Module) and name in BUILTIN: return
                self.bad('unbound', n, 'the name %s is read where it may not have been bound' % name)
            return
        s = self.outer
        while s is not None:
            if not isinstance(s.node, ast.ClassDef) and name in s.local:
                if isinstance(s.node, ast.Module) and name not in s.unguarded:
                    self.bad('bound-in-entry-point', n, 'the name %s is bound only where the file is run as a program, and read in a function that can be called without that' % name)
                return
            s = s.outer
        if name in self.local or name in BUILTIN or name in self.mod.stars: return
        if self.mod.star_unknown: return
        g = self.mod.scope
        if name in self.globals | self.mod.globals_set and name in g.unguarded | self.mod.globals_set: return
        self.bad('undefined', n, 'the name %s is not defined' % name)
    def expr(self, n, st):
        """Reads in evaluation order; returns the state after."""
        if n is None or st is None: return st
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load): self.read(n.id, n, st)
            elif isinstance(n.ctx, ast.Del):
                self.read(n.id, n, st); return st - {n.id}
            else: return st | {n.id}
            return st
        if isinstance(n, ast.NamedExpr):
            st = self.expr(n.value, st); return st | {n.target.id}
        if isinstance(n, ast.Lambda):
            a = n.args
            for d in a.defaults + [x for x in a.kw_defaults if x]: st = self.expr(d, st)
            self.later.append(n); return st
        if isinstance(n, COMP):
            st = self.expr(n.generators[0].iter, st)
            inner = st; keep = self.local
            names = {y.id for g in n.generators for y in ast.walk(g.target) if isinstance(y, ast.Name)}
            self.local = self.local | names
            for i, g in enumerate(n.generators):
                if i: inner = self.expr(g.iter, inner)
                inner = inner | {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
                for c in g.ifs: inner = self.test(c, inner)[0]
                if inner is None: inner = st | names
            for e in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]): self.expr(e, inner)
            self.local = keep
            return st
        if isinstance(n, ast.BoolOp):
            first = st
            for i, v in enumerate(n.values):
                t, f = self.test(v, first)
                if i == 0: out = t if isinstance(n.op, ast.Or) else f
                first = f if isinstance(n.op, ast.Or) else t
                if first is None: break
            return join(join(out, first), None)
        if isinstance(n, ast.IfExp):
            t, f = self.test(n.test, st)
            return join(self.expr(n.body, t), self.expr(n.orelse, f))
        for y in ast.iter_child_nodes(n):
            if isinstance(y, (ast.expr, ast.keyword, ast.comprehension, ast.FormattedValue, ast.Slice)) or isinstance(y, ast.expr): st = self.expr(y, st) if isinstance(y, ast.expr) else self.expr(y.value, st)
        return st
    def test(self, n, st):
        """States where the condition is true and where it is false."""
        if st is None: return None, None
        # names bound in some branches only: what is tested may tell which
        st = st | {x[1:] for x in st if x[0] == '~'}
        if isinstance(n, ast.Constant): return (st, None) if n.value else (None, st)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            t, f = self.test(n.operand, st); return f, t
        if isinstance(n, ast.BoolOp):
            out = None; cur = st
            for v in n.values:
                t, f = self.test(v, cur)
                if isinstance(n.op, ast.And): out = join(out, f); cur = t
                else: out = join(out, t); cur = f
                if cur is None: break
            return (cur, out) if isinstance(n.op, ast.And) else (out, cur)
        st = self.expr(n, st)
        k = ast.dump(n)
        return st | self.cond.get((k, True), frozenset()), st | self.cond.get((k, False), frozenset())
    def block(self, body, st):
        for s in body:
            if st is None: break
            st = self.stmt(s, st)
        return st
    def stmt(self, s, st):
        E = self.expr
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in s.decorator_list: st = E(d, st)
            if isinstance(s, ast.ClassDef):
                for b in s.bases: st = E(b, st)
                c = Scope(self.mod, s, self, self.R); c.unguarded = c.local
                c.block(c.body, st); self.later += [(c, x) for x in c.later]
            else:
                a = s.args
                for d in a.defaults + [x for x in a.kw_defaults if x]: st = E(d, st)
                self.later.append(s)
            return st | {s.name}
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return st | {(a.asname or a.name).split('.')[0] for a in s.names}
        if isinstance(s, ast.Assign):
            st = E(s.value, st)
            for t in s.targets: st = E(t, st)
            self.forget(s.targets); return st
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name): self.read(s.target.id, s.target, st)
            else: st = E(s.target, st)
            st = E(s.value, st); self.forget([s.target])
            return st | {s.target.id} if isinstance(s.target, ast.Name) else st
        if isinstance(s, ast.AnnAssign):
            if s.value is None: return st
            st = E(s.value, st); return E(s.target, st)
        if isinstance(s, ast.Return):
            E(s.value, st); return None
        if isinstance(s, ast.Raise):
            st = E(s.exc, st); E(s.cause, st); return None
        if isinstance(s, ast.If):
            t, f = self.test(s.test, st)
            k = ast.dump(s.test)
            a = self.block(s.body, t) if t is not None else None
            b = self.block(s.orelse, f) if f is not None else None
            if a is None or b is None: out = join(a, b)
            elif complete(s): out = (a & b) | {'~' + x.lstrip('~') for x in a ^ b}
            # without an else the condition may be known to hold wherever the name is read
            else: out = a | b
            # the same condition, tested again, has the same outcome
            if out is not None and not any(isinstance(y, ast.Call) for y in ast.walk(s.test)):
                for v, z in ((True, a), (False, b)):
                    if z is not None: self.cond[k, v] = z - out
            return out
        if isinstance(s, (ast.For, ast.AsyncFor)):
            st = E(s.iter, st)
            return self.loop(s, st, lambda q: (E(s.target, q), q), st is not None and nonempty(s.iter))
        if isinstance(s, ast.While):
            return self.loop(s, st, lambda q: self.test(s.test, q), False)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                st = E(i.context_expr, st)
                if i.optional_vars is not None: st = E(i.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            end = self.block(s.body, st)
            # a failure may come before anything in the body is bound
            outs = [self.block(s.orelse, end) if end is not None else None]
            for h in s.handlers:
                q = E(h.type, st)
                if h.name: q = q | {h.name}
                q = self.block(h.body, q)
                if q is not None and h.name: q = q - {h.name}
                outs.append(q)
            out = None
            for o in outs: out = join(out, o)
            if s.finalbody:
                fin = self.block(s.finalbody, st)
                if fin is None: return None
                if out is not None: out = out | fin
            return out
        if isinstance(s, (ast.Break, ast.Continue)):
            d = self.loops[-1]['break' if isinstance(s, ast.Break) else 'continue']
            d.append(st); return None
        if isinstance(s, ast.Expr):
            st = E(s.value, st)
            return None if exits(s.value) else st
        if isinstance(s, ast.Assert):
            t, f = self.test(s.test, st); E(s.msg, f); return t
        if isinstance(s, ast.Delete):
            for t in s.targets: st = E(t, st)
            return st
        if isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass)): return st
        for y in ast.iter_child_nodes(s):
            if isinstance(y, ast.expr): st = E(y, st)
        return st
    loops = ()
    def loop(self, s, st, head, sure):
        self.loops = list(self.loops) + [{'break': [], 'continue': []}]
        inside, leave = head(st)
        end = self.block(s.body, inside) if inside is not None else None
        L = self.loops.pop()
        for q in L['continue']: end = join(end, q)
        if isinstance(s, ast.While):
            out = leave
        else: out = end if sure and end is not None else leave
        if s.orelse and out is not None: out = self.block(s.orelse, out)
        for q in L['break']: out = join(out, q)
        return out
    def forget(self, ts):
        names = {y.id for t in ts for y in ast.walk(t) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
        for k in [k for k in self.cond if any("id='%s'" % x in k[0] for x in names)]: del self.cond[k]

def nonempty(e): return isinstance(e, (ast.List, ast.Tuple)) and bool(e.elts) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'range' and len(e.args) == 1 and isinstance(e.args[0], ast.Constant) and e.args[0].value > 0
def complete(s):
    """Whether a condition has an else branch at the end of its elifs."""
    return bool(s.orelse) and (complete(s.orelse[0]) if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If) else True)
def join(a, b): return b if a is None else a if b is None else a & b
def exits(e):
    return isinstance(e, ast.Call) and (isinstance(e.func, ast.Name) and e.func.id in ('exit', 'quit') or isinstance(e.func, ast.Attribute) and e.func.attr in ('exit', '_exit', 'abort') and isinstance(e.func.value, ast.Name) and e.func.value.id in ('sys', 'os'))

def analyse(mod, R):
    """All scopes of a module."""
    m = Scope(mod, mod.tree, None, R)
    m.unguarded = bound_in([s for s in mod.tree.body if not is_guard(s)])
    for s in mod.tree.body:
        if is_guard(s) and s.orelse: m.unguarded |= bound_in(s.orelse)
    mod.scope = m; mod.stars = set(); mod.star_unknown = False
    mod.globals_set = set()
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
            o = resolve(mod, n)
            if o is None: mod.star_unknown = True
            else: mod.stars |= bound_in(o.tree.body)
        if isinstance(n, FN) and not isinstance(n, ast.Lambda): mod.globals_set |= declared_global(n.body) & bound_in(n.body)
    m.block(m.body, frozenset())
    todo = [(m, x) for x in m.later]
    while todo:
        o, n = todo.pop(0)
        while isinstance(n, tuple): o, n = n
        s = Scope(mod, n, o, R); s.unguarded = s.local
        s.block(s.body, frozenset(s.params))
        R.analysed['functions'] += 1
        todo += [(s, x) for x in s.later]

def resolve(mod, n, sub=None):
    """The module of the repository an import names, if it is one."""
    if isinstance(n, ast.ImportFrom):
        base = mod.name.split('.')
        if n.level:
            pk = base if mod.path.endswith('__init__.py') else base[:-1]
            pk = pk[:len(pk) - (n.level - 1)]
            name = '.'.join(pk + ([n.module] if n.module else []))
            return mod.all.get(name)
        return mod.all.get(n.module) or beside(mod, n.module)
    return mod.all.get(sub) or beside(mod, sub)
def beside(mod, name):
    """A module next to a script, when the script is run from its folder."""
    if not name or '.' in name: return None
    base = mod.name.rsplit('.', 1)[0] if '.' in mod.name and not mod.path.endswith('__init__.py') else mod.name
    return mod.all.get(base + '.' + name)

STD = set(getattr(sys, 'stdlib_module_names', ()))
RISKY = {'antigravity', 'this', 'idlelib', 'turtle', 'tkinter', '__main__'}
def stdlib(name):
    if name.split('.')[0] not in STD or name.split('.')[0] in RISKY: return None
    try: return importlib.import_module(name)
    except Exception: return None

def imports(mod, R):
    alias = {}
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.ImportFrom):
            if not n.level and n.module is None: continue
            o = resolve(mod, n)
            if o is not None:
                have = bound_in([s for s in o.tree.body if not is_guard(s)]) | {g for g in o.globals_set}
                for a in n.names:
                    R.ob('import', mod.at(n))
                    if a.name != '*' and a.name not in have and not o.stars and (o.name + '.' + a.name) not in mod.all and a.name not in BUILTIN:
                        R.bad('import', mod.at(n), '%s has no %s' % (o.rel, a.name))
            elif not n.level:
                m = stdlib(n.module)
                if m is not None:
                    for a in n.names:
                        R.ob('import', mod.at(n))
                        if a.name != '*' and not hasattr(m, a.name) and stdlib(n.module + '.' + a.name) is None: R.bad('import', mod.at(n), '%s has no %s' % (n.module, a.name))
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname: alias[a.asname] = a.name
                else: alias[a.name.split('.')[0]] = a.name.split('.')[0]
    # attributes of imported modules
    stores = {}
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): stores[n.id] = 1
        if isinstance(n, ast.arg): stores[n.arg] = 1
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id in alias and n.value.id not in stores:
            nm = alias[n.value.id]; o = mod.all.get(nm) or (beside(mod, nm) if nm not in STD else None)
            if o is not None:
                R.ob('module attribute', mod.at(n))
                have = bound_in([s for s in o.tree.body if not is_guard(s)]) | o.globals_set | o.stars | BUILTIN
                if n.attr not in have and (o.name + '.' + n.attr) not in mod.all and not o.star_unknown: R.bad('module-attribute', mod.at(n), '%s has no %s' % (o.rel, n.attr))
            else:
                m = stdlib(nm)
                if m is not None:
                    R.ob('module attribute', mod.at(n))
                    if not hasattr(m, n.attr) and stdlib(nm + '.' + n.attr) is None: R.bad('module-attribute', mod.at(n), 'the module %s has no %s' % (nm, n.attr))

# ---------------------------------------------------------------- options
def parsers(mod):
    """Variables that hold parsers, and the options added to each: var -> {dest: call}."""
    return mod

def dest_of(c):
    for k in c.keywords:
        if k.arg == 'dest' and isinstance(k.value, ast.Constant): return k.value.value
    fl = [a.value for a in c.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
    if not fl: return None
    long = [f for f in fl if f.startswith('--')]
    f = (long or fl)[0]
    return f.lstrip('-').replace('-', '_')

def kw(c, name):
    for k in c.keywords:
        if k.arg == name: return k.value
    return None

def options(mod, R):
    adds = [n for n in ast.walk(mod.tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'add_argument']
    parses = [n for n in ast.walk(mod.tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('parse_args', 'parse_known_args')]
    if not parses: return
    decl = {}
    for c in adds:
        d = dest_of(c)
        if d is None: return        # options added in a computed way
        if d in decl and ast.dump(decl[d]) != ast.dump(c): R.bad('option-twice', mod.at(c), 'the option %s is declared twice' % d)
        decl[d] = c
    extra = {k for n in ast.walk(mod.tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('set_defaults', 'add_subparsers') for k in [y.arg for y in n.keywords] + [y.value.value for y in n.keywords if y.arg == 'dest' and isinstance(y.value, ast.Constant)] if k}
    # names that hold the parsed options: assigned from parse_args (also through a function that returns it), and parameters they are passed to
    holders = set(); funcs = set()
    def is_parse(v):
        if isinstance(v, ast.Call):
            if v in parses: return True
            if isinstance(v.func, ast.Name) and v.func.id in funcs: return True
        if isinstance(v, ast.Name): return v.id in holders
        return False
    ch = True
    while ch:
        k = (len(holders), len(funcs))
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Assign) and is_parse(n.value):
                for t in n.targets:
                    if isinstance(t, ast.Name): holders.add(t.id)
                    if isinstance(t, ast.Tuple) and t.elts and isinstance(t.elts[0], ast.Name): holders.add(t.elts[0].id)
            if isinstance(n, (ast.FunctionDef,)):
                for r in ast.walk(n):
                    if isinstance(r, ast.Return) and r.value is not None and is_parse(r.value): funcs.add(n.name)
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                f = next((y for y in ast.walk(mod.tree) if isinstance(y, ast.FunctionDef) and y.name == n.func.id), None)
                if f is None: continue
                ps = f.args.posonlyargs + f.args.args
                for p, a in zip(ps, n.args):
                    if is_parse(a): holders.add(p.arg)
                for q in n.keywords:
                    if q.arg and is_parse(q.value): holders.add(q.arg)
        ch = (len(holders), len(funcs)) != k
    def value_kind(c):
        act = kw(c, 'action'); ty = kw(c, 'type'); nargs = kw(c, 'nargs')
        if isinstance(act, ast.Constant) and str(act.value).startswith('store_') or act is not None and not isinstance(act, ast.Constant): return 'flag'
        if nargs is not None: return 'list'
        if isinstance(ty, ast.Name): return {'int': 'int', 'float': 'float', 'str': 'str'}.get(ty.id, '?')
        return 'str' if ty is None and act is None else '?'
    set_attrs = {n.attr for n in ast.walk(mod.tree) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in holders}
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and (isinstance(n.value, ast.Name) and n.value.id in holders or n.value in parses):
            if n.attr.startswith('__') : continue
            R.ob('option read', mod.at(n))
            if n.attr not in decl and n.attr not in extra and n.attr not in set_attrs:
                R.bad('option', mod.at(n), 'the option %s is read but not declared' % n.attr)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for a, b in ((n.left, n.comparators[0]), (n.comparators[0], n.left)):
                if not (isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id in holders and a.attr in decl): continue
                c = decl[a.attr]; ch_ = kw(c, 'choices'); kind = value_kind(c)
                lits = [b] if isinstance(b, ast.Constant) else list(b.elts) if isinstance(b, (ast.Tuple, ast.List, ast.Set)) and isinstance(n.ops[0], (ast.In, ast.NotIn)) else []
                lits = [l for l in lits if isinstance(l, ast.Constant) and l.value is not None]
                for l in lits:
                    if isinstance(n.ops[0], (ast.In, ast.NotIn)) and a is n.comparators[0]: continue
                    R.ob('option compared', mod.at(n))
                    if isinstance(ch_, (ast.List, ast.Tuple, ast.Set)) and all(isinstance(y, ast.Constant) for y in ch_.elts) and isinstance(l.value, str):
                        if l.value not in [y.value for y in ch_.elts]: R.bad('option-value', mod.at(n), 'the option %s is compared with %r, which it does not accept' % (a.attr, l.value))
                    elif kind == 'flag' and isinstance(l.value, str) and isinstance(n.ops[0], (ast.Eq, ast.NotEq, ast.In, ast.NotIn)): R.bad('option-value', mod.at(n), 'the option %s is a switch but compared with %r' % (a.attr, l.value))
                    elif kind in ('int', 'float') and isinstance(l.value, str): R.bad('option-value', mod.at(n), 'the option %s is a number but compared with %r' % (a.attr, l.value))
                    elif kind == 'str' and isinstance(l.value, (int, float)) and not isinstance(l.value, bool) and not (kw(c, 'default') is not None and isinstance(kw(c, 'default'), ast.Constant) and isinstance(kw(c, 'default').value, (int, float)) and kw(c, 'default').value == l.value):
                        R.bad('option-value', mod.at(n), 'the option %s is text but compared with %r' % (a.attr, l.value))
    for d, c in decl.items():
        df = kw(c, 'default'); ch_ = kw(c, 'choices')
        if isinstance(ch_, (ast.List, ast.Tuple)) and all(isinstance(y, ast.Constant) for y in ch_.elts) and isinstance(df, ast.Constant) and df.value is not None:
            R.ob('option default', mod.at(c))
            if df.value not in [y.value for y in ch_.elts]: R.bad('option-default', mod.at(c), 'the default of %s is none of its choices' % d)

def load(repo):
    ms = [Module(repo, p) for p in files(repo)]
    al = {m.name: m for m in ms}
    for m in ms: m.all = al
    return ms

@rule('C27', 'repo')
def names(repo, R):
    ms = load(repo)
    for m in ms: analyse(m, R)
    for m in ms:
        imports(m, R); options(m, R)
        R.analysed['modules'] += 1
