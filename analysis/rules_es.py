"""C20, C21, C22: the Elasticsearch library, interpreted abstractly over every argument shape with a client whose answers are not known."""
import os, copy, itertools
from check import rule
from pyabs import *
import pyabs

ES = 'wimbd/es/__init__.py'

class EsWorld(World):
    """A client that records its requests; counts, hits and page lengths are unknown, requests may fail."""
    def __init__(self, pages=2, fail=False, env=None, config=None, size=2, rename=False):
        World.__init__(self); self.pages = pages; self.fail = fail; self.env = env; self.config = config; self.size = size; self.npage = 0; self.nhit = 0; self.open_pits = []; self.rename = rename
        self.hits = []; self.client = Obj('es'); self.inits = []; self.opened = []
    def attr(self, obj, name):
        if obj.kind == 'es' and name in ('cat', 'indices'): return Obj('es.' + name)
        if obj.kind == 'path' : return U('path.' + name, (obj.data['v'],))
        return Method(obj, name)
    def failing(self, what):
        if self.fail and self.m.choose(2, U('failure of ' + what)) == 1:
            self.event('failed', what)
            raise exc('elasticsearch.exceptions.ApiError')(what)
    def method(self, obj, name, a, k):
        if obj.kind in ('logger', 'tqdm'): return World.method(self, obj, name, a, k)
        if obj.kind == 'file':
            return U('content', (obj.data['path'],), str)
        if obj.kind == 'es':
            k = dict(k)
            if a: raise Undecided('positional arguments of the client')
            if name == 'options': return obj
            self.event('es', name, copy.deepcopy(k))
            self.failing(name)
            if name == 'count': return {'count': U('count', (freeze_query(k),), int)}
            if name == 'search': return self.search(k)
            if name == 'msearch':
                ss = k.get('searches', k.get('body'))
                rs = []
                for h, b in zip(ss[::2], ss[1::2]):
                    rs.append({'hits': {'total': U('total', (freeze_query({'index': h.get('index', k.get('index')), 'query': b.get('query')}),), int), 'hits': []}, 'status': 200})
                return {'responses': rs}
            if name == 'open_point_in_time':
                p = tok('pit%d' % len(self.open_pits)); self.open_pits.append(p)
                return {'id': p}
            if name == 'close_point_in_time':
                if self.fail and self.m.choose(2, U('already closed')) == 1: raise exc('elasticsearch.exceptions.NotFoundError')('closed')
                return {'succeeded': True}
            if name == 'termvectors':
                return TermVectors(k)
            raise Undecided('client operation ' + name)
        if obj.kind == 'es.cat' and name == 'shards': return [Obj('shard') for _ in range(2)]
        if obj.kind == 'es.cat' and name == 'indices':
            return [{'index': 'one', 'docs.count': tok('n1')}, {'index': 'two', 'docs.count': tok('n2')}]
        if obj.kind == 'es.indices' and name == 'get_mapping':
            return {i: {'mappings': {'properties': {'text': {}}}} for i in k['index']}
        return World.method(self, obj, name, a, k)
    def search(self, k):
        size = self.size
        if 'pit' in k:
            # a page: how many hits it has is not known; beyond the last page there are none
            self.npage += 1
            n = 0
            if self.npage <= self.pages: n = (size, 1, 0)[self.m.choose(3, U('hits of page %d' % self.npage))]
            if n == 0: self.pages = 0
        else:
            n = (1, 0, 2)[self.m.choose(3, U('hits of the search'))] if not getattr(self, 'onehit', False) else (1, 0)[self.m.choose(2, U('hits of the search'))]
        hs = []
        for _ in range(n):
            h = {'_id': tok('id%d' % self.nhit), '_source': tok('doc%d' % self.nhit, dict), 'sort': [tok('sort%d' % self.nhit)]}
            self.nhit += 1; hs.append(h)
        self.hits += hs
        self.event('page', list(hs))
        return {'hits': {'hits': hs, 'total': {'value': U('total', (freeze_query(k),), int)}}, 'pit_id': self.open_pits[-1] if self.open_pits else None}
    def call(self, name, a, k):
        if name == 'open':
            self.opened.append(a[0]); return Obj('file', path=a[0])
        if name == 'yaml.safe_load': return copy.deepcopy(self.config)
        if name in ('os.getenv', 'os.environ.get'):
            if a[0] == 'ES_API_KEY': return self.env if self.env is not None else (a[1] if len(a) > 1 else k.get('default'))
            return U('env', a)
        if name in ('elasticsearch.Elasticsearch',):
            self.inits.append((a, dict(k))); return self.client
        if name in ('pathlib.Path',): return U('Path', a, PathT)
        return World.call(self, name, a, k)
    def modattr(self, name):
        if name == 'os.environ': return Environ(self)
        if name == 'logging.WARNING' or name == 'logging.INFO' or name == 'logging.DEBUG': return 0
    def length(self, obj):
        if obj.kind == 'termvector': return 1
        return World.length(self, obj)

class Environ(dict):
    def __init__(self, w):
        dict.__init__(self)
        if w.env is not None: self['ES_API_KEY'] = w.env
    def __deepcopy__(self, m): return self

class TermVectors(dict):
    """What term vectors give: a value for each path of keys, whatever the term."""
    def __init__(self, k, path=()): dict.__init__(self); self.k = k; self.path = path
    def _at(self, i):
        p = self.path + (i,)
        if isinstance(i, str) and i in ('ttf', 'doc_freq', 'term_freq'): return U('ttf', (self.k.get('index'), self.k.get('id'), self.k.get('preference'), p), int)
        return TermVectors(self.k, p)
    def __getitem__(self, i): return self._at(i)
    def __contains__(self, i): return True
    def get(self, i, d=None): return self._at(i)
    def __deepcopy__(self, m): return self

def freeze_query(k): return freeze((k.get('index'), k.get('query')))

# --- what a query means ------------------------------------------------------------------------------
class Bad(Exception): pass
def aslist(x): return list(x) if isinstance(x, (list, tuple)) else [x]
def clause(c):
    if not isinstance(c, dict) or len(c) != 1: raise Bad('a clause is not a single object: %r' % (c,))
    (kind, v), = c.items()
    if kind == 'bool': return meaning(c)
    if kind in ('match_phrase', 'match', 'regexp', 'term', 'terms', 'wildcard', 'prefix', 'query_string'):
        if not isinstance(v, dict) or len(v) != 1: raise Bad('a %s clause does not name one field: %r' % (kind, v))
        (f, p), = v.items()
        if not isinstance(p, dict): p = {'value' if kind in ('regexp', 'term', 'wildcard', 'prefix') else 'query': p}
        p = dict(p)
        if kind == 'match_phrase' and not isinstance(p.get('slop', 0), U) and p.get('slop', 0) == 0: p.pop('slop', None)
        p.pop('boost', None)
        if kind == 'regexp': p.pop('flags', None); p.pop('case_insensitive', None)
        return (kind, f, frozenset((a, freeze(b)) for a, b in p.items()))
    if kind == 'constant_score': return clause(v['filter'])
    if kind == 'match_all': return ('and', frozenset())
    raise Bad('a clause of kind %s' % kind)
def meaning(q):
    """The set of required clauses of a query, as nested and/or."""
    if not isinstance(q, dict) or len(q) != 1: raise Bad('not a query: %r' % (q,))
    if 'bool' not in q: return norm_and([clause(q)])
    b = dict(q['bool'])
    req = [clause(c) for k in ('must', 'filter') for c in aslist(b.pop(k, []))]
    should = [clause(c) for c in aslist(b.pop('should', []))]
    msm = b.pop('minimum_should_match', None)
    not_ = [clause(c) for c in aslist(b.pop('must_not', []))]
    b.pop('boost', None)
    if b: raise Bad('unknown keys of a bool query: %s' % sorted(b))
    if should:
        if msm is None: msm = 0 if req else 1
        if isinstance(msm, U): raise Bad('minimum_should_match is not a constant')
        msm = int(msm)
        if msm < 0: msm = len(should) + msm
        if msm >= len(set(should)): req += should
        elif msm > 0: req.append(('or', frozenset(should), msm))
    for n in not_: req.append(('not', n))
    return norm_and(req)
def norm_and(req):
    out = set()
    for r in req:
        if r[0] == 'and': out |= r[1]
        else: out.add(r)
    return ('and', frozenset(out))
def term(f): (k, v), = f.items(); return ('term', k, frozenset([('value', freeze(v))]))
def phrase(p, slop=0):
    s = {('query', freeze(p))}
    if isinstance(slop, U) or slop: s.add(('slop', freeze(slop)))
    return ('match_phrase', 'text', frozenset(s))
def show(m):
    if m[0] == 'and': return 'all of {%s}' % ', '.join(sorted(map(show, m[1])))
    if m[0] == 'or': return 'at least %d of {%s}' % (m[2], ', '.join(sorted(map(show, m[1]))))
    if m[0] == 'not': return 'not ' + show(m[1])
    return '%s %s %s' % (m[0], m[1], ' '.join('%s=%s' % (a, show_f(b)) for a, b in sorted(m[2], key=repr)))
def show_f(b):
    return b[1] if b and b[0] == 'U' and not b[2][1:] else repr(b[1:])

P = [tok('p%d' % i) for i in range(6)]
F = [{'subset': tok('f0')}, {'lang': tok('f1')}]
EN = {'subset': 'en'}
FILTERS = [None, [], [F[0]], [F[0], F[1]], [EN]]
INDICES = ['c4', 'pile', 'c4-v2', tok('index')]
SLOPS = [0, tok('slop', int)]

def fn(m, name, R=None):
    mod = m.load(os.path.join(m.repo, ES), 'wimbd.es')
    if name not in mod.vars: raise Missing(name)
    return mod.vars[name]
class Missing(Exception): pass

class Checker:
    def __init__(self, repo, R, where): self.repo = repo; self.R = R; self.undecided = []
    def explore(self, name, mk, call, judge, limit=3000):
        """call(machine, function) on every path; judge(machine, kind, value)."""
        n = 0
        def body(m):
            f = fn(m, name)
            return call(m, f)
        for m, out in explore(self.repo, mk, body, limit):
            n += 1
            if out[0] == 'undecided': self.undecided.append('%s: %s' % (name, out[1])); continue
            if out[0] == 'raise' and isinstance(out[1], Missing): self.R.bad('anchor', ES, 'there is no function %s' % name); return
            try: judge(m, out[0], out[1])
            except Undecided as e: self.undecided.append('%s: %s' % (name, e))
        self.R.analysed['paths'] += n
    def line(self, name):
        import ast
        t = parse(os.path.join(self.repo, ES))
        for n in t.body:
            if isinstance(n, ast.FunctionDef) and n.name == name: return '%s:%d %s' % (ES, n.lineno, name)
        return '%s %s' % (ES, name)
    def done(self):
        for u in sorted(set(self.undecided))[:5]: self.R.notes.append('undecided: ' + u)
        if self.undecided: raise Exception('undecided: ' + '; '.join(sorted(set(self.undecided))[:3]))

def filters_of(index, filters):
    return {term(f) for f in (filters or [])} | ({term(EN)} if index == 'c4' else set())

def call_text(k): return ', '.join('%s=%r' % (a, k[a]) for a in k if a != 'es')

@rule('C20', 'repo')
def queries(repo, R):
    C = Checker(repo, R, ES)
    combos = []
    for ph in (P[0], [P[0]], [P[0], P[1]], [P[2], P[0], P[1]]):
        for allp, rx in itertools.product((False, True), repeat=2):
            for slop in ((0,) if rx else SLOPS):
                for fl in FILTERS:
                    for ix in INDICES: combos.append(dict(index=ix, phrases=ph, all_phrases=allp, is_regexp=rx, slop=slop, subset_filter=fl))
    def expected(k):
        ps = [k['phrases']] if isinstance(k['phrases'], U) else k['phrases']
        if k['is_regexp']: cs = [('regexp', 'text', frozenset([('value', freeze(p))])) for p in ps]
        else: cs = [phrase(p, k['slop']) for p in ps]
        req = list(filters_of(k['index'], k['subset_filter']))
        if k['all_phrases'] or len(cs) == 1: req += cs
        else: req.append(('or', frozenset(cs), 1))
        return ('and', frozenset(req))
    def check_query(where, got, want, k):
        R.ob('query', where)
        try: g = meaning(got)
        except Bad as e: R.bad('query', where, '%s (for %s)' % (e, call_text(k))); return
        if g == want: return
        # slop 0 for an unknown slop, and the like, differ in clauses
        R.bad('query', where, 'for %s the query asks for %s instead of %s' % (call_text(k), show(g), show(want)))
    def check_index(where, ev, k, key='index'):
        R.ob('index', where)
        if key not in ev or freeze(ev[key]) != freeze(k['index']): R.bad('index', where, 'the request goes to %r for %s' % (ev.get(key), call_text(k)))
    for name in ('count_documents_containing_phrases', 'get_documents_containing_phrases'):
        where = C.line(name)
        modes = [{}] if name.startswith('count') else [dict(num_documents=2), dict(num_documents=2, return_all_hits=True)]
        for k in combos:
            for extra in modes:
                kk = dict(k, **extra)
                def call(m, f, kk=kk):
                    v = f(es=m.world.client, **copy.deepcopy(kk))
                    return list(v) if name.startswith('get') else v
                def judge(m, kind, v, kk=kk):
                    if kind == 'raise': R.bad('fails', where, 'fails with %s: %s for %s' % (type(v).__name__, v, call_text(kk))); return
                    reqs = [e for e in m.world.events if e[0] == 'es' and e[1] in ('count', 'search', 'msearch')]
                    if not reqs: R.bad('query', where, 'sends no request for %s' % call_text(kk)); return
                    for _, op, ev in reqs:
                        check_query(where, ev.get('query'), expected(kk), kk)
                        if 'pit' not in ev: check_index(where, ev, kk)
                    for e in m.world.events:
                        if e[:2] == ('es', 'open_point_in_time'): check_index(where, e[2], kk)
                    if name.startswith('count'):
                        R.ob('count', where)
                        if len(reqs) != 1 or not isinstance(v, U) or v.op != 'count': R.bad('count', where, 'returns %r instead of the count of its request' % (v,))
                    elif not extra.get('return_all_hits'):
                        R.ob('hits', where)
                        if [freeze(x) for x in v] != [freeze(h) for h in m.world.hits]: R.bad('hits', where, 'does not yield the hits found')
                        if len(reqs) != 1 or reqs[0][2].get('size') != kk['num_documents']: R.bad('size', where, 'asks for %r documents instead of num_documents' % reqs[0][2].get('size'))
                C.explore(name, lambda: EsWorld(pages=1), call, judge)
    # counts for each phrase
    name = 'count_documents_for_each_phrase'; where = C.line(name)
    for phs, allp in ((P[0], False), ([P[0]], False), ([P[0], P[1], P[2]], False), ([[P[0], P[1]], [P[2]]], True)):
        for fl in FILTERS:
            for ix in INDICES:
                k = dict(index=ix, phrases=phs, all_phrases=allp, subset_filter=fl)
                def call(m, f): return f(es=m.world.client, batch_size=2, **copy.deepcopy(k))
                def judge(m, kind, v):
                    if kind == 'raise': R.bad('fails', where, 'fails with %s: %s for %s' % (type(v).__name__, v, call_text(k))); return
                    want = [[p] if isinstance(p, U) else p for p in ([phs] if isinstance(phs, U) else phs)]
                    got = []
                    for e in m.world.events:
                        if e[0] != 'es': continue
                        if e[1] == 'msearch':
                            ss = e[2].get('searches', e[2].get('body'))
                            if len(ss) % 2: R.bad('query', where, 'an odd number of header and body lines'); return
                            for h, b in zip(ss[::2], ss[1::2]): got.append((h.get('index', e[2].get('index')), b.get('query')))
                        elif e[1] in ('count', 'search'): got.append((e[2].get('index'), e[2].get('query')))
                    R.ob('per phrase', where)
                    if len(got) != len(want): R.bad('per-phrase', where, '%d queries for %d phrases (%s)' % (len(got), len(want), call_text(k))); return
                    for (i, q), ps in zip(got, want):
                        check_index(where, {'index': i}, k)
                        check_query(where, q, ('and', frozenset([phrase(p) for p in ps]) | frozenset(filters_of(ix, fl))), k)
                C.explore(name, EsWorld, call, judge)
    name = 'count_total_occurrences_of_unigrams'; where = C.line(name)
    def mk():
        w = EsWorld(); w.onehit = True; return w
    for us in (P[0], [P[0]], [P[0], P[1]]):
        for fl in FILTERS:
            for ix in INDICES:
                k = dict(index=ix, unigrams=us, subset_filter=fl)
                def call(m, f): return f(es=m.world.client, **copy.deepcopy(k))
                def judge(m, kind, v):
                    if kind == 'raise': R.bad('fails', where, 'fails with %s: %s for %s' % (type(v).__name__, v, call_text(k))); return
                    want = [us] if isinstance(us, U) else us
                    ops = [e for e in m.world.events if e[0] == 'es' and e[1] in ('search', 'count')]
                    fs = frozenset(filters_of(ix, fl))
                    exp = {}
                    for t in want:
                        for mt in (('match', 'text', frozenset([('query', freeze(t))])), phrase(t), ('term', 'text', frozenset([('value', freeze(t))]))): exp[('and', frozenset([mt]) | fs)] = t
                    seen = {}
                    for _, op, ev in ops:
                        check_index(where, ev, k)
                        R.ob('query', where)
                        try: g = meaning(ev.get('query'))
                        except Bad as e: R.bad('query', where, '%s (for %s)' % (e, call_text(k))); continue
                        if g not in exp: R.bad('query', where, 'for %s the query asks for %s' % (call_text(k), show(g))); continue
                        seen.setdefault(exp[g], []).append(ev.get('preference'))
                    R.ob('unigram totals', where)
                    for t in want:
                        if sorted(map(str, seen.get(t, []))) != ['_shards:0', '_shards:1']: R.bad('shards', where, 'asks the shards %s instead of each of the two once' % seen.get(t, [])); return
                    if not isinstance(v, dict) or [freeze(x) for x in v] != [freeze(x) for x in want]: R.bad('totals', where, 'returns %r' % (v,)); return
                    # the total is the sum over the shards in which a document was found
                    pages = [e[1] for e in m.world.events if e[0] == 'page']
                    i = 0; sums = {}
                    for (_, op, ev), hs in zip(ops, pages):
                        try: t = exp[meaning(ev['query'])]
                        except Exception: continue
                        if hs: sums.setdefault(t, []).append((freeze(hs[0]['_id']), ev.get('preference')))
                    for t in want:
                        x = v[t]; parts = list(x.args) if isinstance(x, U) and x.op == 'sum' else [] if not isinstance(x, U) and x == 0 else [x]
                        got = sorted((repr(freeze(y.args[1])), str(y.args[2])) for y in parts if isinstance(y, U) and y.op == 'ttf' and freeze(y.args[3][-2]) == freeze(t) and y.args[3][-1] == 'ttf' and freeze(y.args[0]) == freeze(ix))
                        if len(got) != len(parts) or got != sorted((repr(a), str(b)) for a, b in sums.get(t, [])):
                            R.bad('totals', where, 'the total of %r is %r, not the sum of the total term frequencies of the shards that have it' % (t, x))
                C.explore(name, mk, call, judge)
    C.done()

@rule('C21', 'repo')
def unchanged(repo, R):
    C = Checker(repo, R, ES)
    def run_twice(name, k, consume=False, mk=EsWorld, twice=True):
        where = C.line(name)
        def call(m, f):
            kk = {a: (v if a == 'es' else copy.deepcopy(v)) for a, v in k.items()}
            before = freeze_args(kk)
            inner = getattr(f, 'inner', f)
            defaults = freeze((inner.defaults, inner.kwdefaults))
            f0 = freeze(m.load(os.path.join(repo, ES), 'wimbd.es').vars.get('DEFAULT_CONFIG_LOCATION'))
            m.world.snap = []
            for i in range(2 if twice else 1):
                start = len(m.world.events)
                try:
                    v = f(es=m.world.client, **kk)
                    if consume: list(v)
                except Undecided: raise
                except Exception as e: m.world.error = e
                m.world.snap.append([freeze(e[2]) for e in m.world.events[start:] if e[0] == 'es'])
                after = freeze_args(kk)
                if after != before: m.world.changed = [a for a in kk if freeze(kk[a]) != before[a]]; break
            if freeze((inner.defaults, inner.kwdefaults)) != defaults: m.world.dflt = True
        def judge(m, kind, v):
            if kind == 'raise': raise Undecided('%s: %s' % (type(v).__name__, v))
            R.ob('arguments unchanged', where, n=len(k))
            w = m.world
            if getattr(w, 'changed', None): R.bad('argument-changed', where, 'the argument %s is modified (called with %s)' % (', '.join(w.changed), call_text(k)))
            R.ob('defaults unchanged', where)
            if getattr(w, 'dflt', False): R.bad('default-changed', where, 'a default value is modified (called with %s)' % call_text(k))
            if getattr(w, 'changed', None) is None and len(w.snap) == 2 and twice == 'same':
                R.ob('same requests again', where)
                if w.snap[0] != w.snap[1]: R.bad('repeated', where, 'a second call with the same arguments sends other requests (%s)' % call_text(k))
        C.explore(name, mk, call, judge)
    def freeze_args(k): return {a: freeze(v) for a, v in k.items()}
    for ix in ('c4', 'pile', tok('index')):
        for fl in ([], [F[0]], [F[0], F[1]], 'absent'):
            base = dict(index=ix)
            if fl != 'absent': base['subset_filter'] = fl
            for ph in (P[0], [P[0]], [P[0], P[1]]):
                for allp, rx in itertools.product((False, True), repeat=2):
                    k = dict(base, phrases=ph, all_phrases=allp, is_regexp=rx)
                    run_twice('count_documents_containing_phrases', k, twice='same')
                    run_twice('get_documents_containing_phrases', dict(k, num_documents=2), consume=True)
                    run_twice('get_documents_containing_phrases', dict(k, num_documents=2, return_all_hits=True), consume=True, mk=lambda: EsWorld(pages=1), twice=False)
                run_twice('count_total_occurrences_of_unigrams', dict(base, unigrams=ph), mk=mk_one, twice=False)
            for ph, allp in ((P[0], False), ([P[0], P[1], P[2]], False), ([[P[0], P[1]], [P[2]]], True)):
                run_twice('count_documents_for_each_phrase', dict(base, phrases=ph, all_phrases=allp, batch_size=2), twice='same')
    run_twice('get_indices', {}, twice='same'); run_twice('get_indices', {'return_mapping': True}, twice='same')
    settings(repo, R, C)
    C.done()

def mk_one():
    w = EsWorld(); w.onehit = True; return w

def settings(repo, R, C):
    """The settings that es_init gives the client."""
    where = C.line('es_init')
    cid, key, env = tok('cloud'), tok('key'), tok('env')
    acid, akey = tok('arg-cloud'), tok('arg-key')
    path = tok('config-path')
    cases = []
    for fkey in ('absent', None, key):
        for e in (None, env):
            cfg = {'cloud_id': cid}
            if not isinstance(fkey, str): cfg['api_key'] = fkey
            for pos in (False, True):
                cases.append((dict(config=path), cfg, e, cid, key if fkey is key else e))
            cases.append((dict(), cfg, e, cid, key if fkey is key else e))
            # keys given beside a configuration file: the file is used as given
    for k in (akey, None):
        for e in (None, env):
            for none in (None, ''):
                cases.append((dict(config=none, cloud_id=acid, api_key=k), None, e, acid, k if k is not None else e))
    for kw, cfg, e, want_id, want_key in cases:
        for tm in (None, tok('timeout', int)):
            kk = dict(kw)
            if tm is not None: kk['timeout'] = tm
            def call(m, f):
                c = copy.deepcopy(kk); b = freeze(c)
                inner = getattr(f, 'inner', f); d = freeze((inner.defaults, inner.kwdefaults))
                try: return f(**c)
                finally:
                    m.world.argch = freeze(c) != b or freeze((inner.defaults, inner.kwdefaults)) != d
            def judge(m, kind, v):
                w = m.world; R.ob('settings', where)
                what = 'es_init(%s), file %r, ES_API_KEY %r' % (call_text(kk), cfg, e)
                if w.argch: R.bad('argument-changed', where, 'an argument or default is modified: ' + what)
                if want_key is None:
                    if kind != 'raise' and any(x[1].get('api_key') is None for x in w.inits): R.bad('no-key', where, 'a client without a key: ' + what)
                    return
                if kind == 'raise': R.bad('settings', where, 'fails with %s: %s' % (type(v).__name__, what)); return
                if len(w.inits) != 1 or v is not w.client: R.bad('settings', where, 'does not give a new client: ' + what); return
                k = w.inits[0][1]
                if freeze(k.get('cloud_id')) != freeze(want_id): R.bad('cloud_id', where, 'the client gets cloud_id %r: %s' % (k.get('cloud_id'), what))
                if freeze(k.get('api_key')) != freeze(want_key): R.bad('api_key', where, 'the client gets api_key %r instead of %r: %s' % (k.get('api_key'), want_key, what))
                if tm is not None and not any(freeze(k.get(t)) == freeze(tm) for t in ('request_timeout', 'timeout')): R.bad('timeout', where, 'the given timeout is not used: ' + what)
                if 'config' in kw and kw['config'] is path and [freeze(x) for x in w.opened] != [freeze(path)]: R.bad('config', where, 'reads %r instead of the given file: %s' % (w.opened, what))
            C.explore('es_init', lambda: EsWorld(env=e, config=cfg), call, judge)

@rule('C22', 'repo')
def batches(repo, R):
    C = Checker(repo, R, ES)
    name = 'count_documents_for_each_phrase'; where = C.line(name)
    for n in range(1, 6):
        for dup in (False, True):
            phs = [P[0] if dup and i == n - 1 else P[i] for i in range(n)]
            if dup and n < 2: continue
            for bs in (1, 2, 3, 4, 5, None):
                for form in ('list', 'lists', 'tuple'):
                    k = dict(index='pile', phrases=[[p, P[5]] for p in phs] if form == 'lists' else tuple(phs) if form == 'tuple' else list(phs), all_phrases=form == 'lists')
                    if bs is not None: k['batch_size'] = bs
                    def call(m, f): return f(es=m.world.client, **copy.deepcopy(k))
                    def judge(m, kind, v):
                        what = '%d phrases, batch_size %s' % (n, bs)
                        if kind == 'raise': R.bad('fails', where, 'fails with %s: %s (%s)' % (type(v).__name__, v, what)); return
                        sent = []
                        for e in m.world.events:
                            if e[0] != 'es': continue
                            if e[1] == 'msearch':
                                ss = e[2].get('searches', e[2].get('body'))
                                R.ob('batch', where)
                                if len(ss) // 2 > (bs or 500): R.bad('batch-size', where, '%d queries in one request (%s)' % (len(ss) // 2, what))
                                if not ss: R.bad('empty-batch', where, 'a request without a query (%s)' % what)
                                for h, b in zip(ss[::2], ss[1::2]): sent.append((U('total', (freeze_query({'index': h.get('index', e[2].get('index')), 'query': b.get('query')}),), int), phrases_of(b.get('query'))))
                            elif e[1] == 'count': sent.append((U('count', (freeze_query(e[2]),), int), phrases_of(e[2].get('query'))))
                        R.ob('each phrase once', where)
                        want = [frozenset(freeze(x) for x in ([p, P[5]] if form == 'lists' else [p])) for p in phs]
                        if [q for _, q in sent] != want: R.bad('phrases', where, 'does not query each phrase once, in order (%s)' % what); return
                        if not isinstance(v, (list, tuple)) or [freeze(x) for x in v] != [freeze(x) for x, _ in sent]: R.bad('counts', where, 'does not return the counts of the phrases in order (%s)' % what)
                    C.explore(name, EsWorld, call, judge)
    paging(repo, R, C)
    C.done()

def phrases_of(q):
    try: m = meaning(q)
    except Exception: return None
    out = set()
    def go(x):
        if x[0] in ('and', 'or'):
            for y in x[1]: go(y)
        elif x[0] == 'match_phrase':
            for a, b in x[2]:
                if a == 'query': out.add(b)
    go(m)
    return frozenset(out)

def paging(repo, R, C):
    name = 'get_documents_containing_phrases'; where = C.line(name)
    size = tok('num', int)
    for fail in (False, True):
        for stop in (None, 0, 1, 2, 3):
            for sf in (None, tok('field')):
                if fail and sf is not None: continue
                k = dict(index='pile', phrases=P[0], num_documents=size, return_all_hits=True)
                if sf is not None: k['sort_field'] = sf
                def call(m, f):
                    g = f(es=m.world.client, **copy.deepcopy(k)); got = m.world.got = []
                    if stop is None: got.extend(g) if not fail else collect(g, got)
                    else:
                        for _ in range(stop):
                            try: got.append(next(g))
                            except StopIteration: break
                        g.close()
                    return got
                def collect(g, got):
                    for x in g: got.append(x)
                def judge(m, kind, v):
                    w = m.world; got = w.got
                    what = 'all hits' if stop is None else 'abandoned after %d hits' % stop
                    failed = [e[1] for e in w.events if e[0] == 'failed']
                    if failed: what += ', %s fails' % failed[0]
                    if kind == 'raise' and not failed: R.bad('fails', where, 'fails with %s: %s (%s)' % (type(v).__name__, v, what)); return
                    R.ob('paging', where)
                    if failed and kind != 'raise' and not (failed == ['close_point_in_time']): R.bad('failure-hidden', where, 'a failed request ends the hits like the last page (%s)' % what)
                    # the requests, in order
                    open_ = [e for e in w.events if e[:2] == ('es', 'open_point_in_time')]
                    closes = [e for e in w.events if e[:2] == ('es', 'close_point_in_time')]
                    searches = []; last = None; ended = False
                    for e in w.events:
                        if e[0] == 'es' and e[1] == 'search':
                            q = e[2]
                            if 'pit' not in q: R.bad('no-snapshot', where, 'a page is requested outside of the snapshot (%s)' % what); continue
                            pid = q['pit'].get('id') if isinstance(q['pit'], dict) else None
                            if freeze(pid) != freeze(tok('pit0')): R.bad('snapshot', where, 'a page is requested in %r (%s)' % (pid, what))
                            if 'index' in q and q['index'] is not None: R.bad('pit-index', where, 'a request in a snapshot also names an index, which is refused (%s)' % what)
                            if freeze(q.get('size')) != freeze(size): R.bad('page-size', where, 'a page of %r hits (%s)' % (q.get('size'), what))
                            srt = q.get('sort'); fld = sf if sf is not None else 'date'
                            if not has_field(srt, fld): R.bad('sort', where, 'pages are sorted by %r instead of %r (%s)' % (srt, fld, what))
                            if searches and freeze(srt) != freeze(searches[0].get('sort')): R.bad('sort', where, 'pages are sorted differently (%s)' % what)
                            if searches and freeze(q.get('query')) != freeze(searches[0].get('query')): R.bad('query', where, 'pages have different queries (%s)' % what)
                            if ended: R.bad('after-the-end', where, 'a page is requested after an empty one (%s)' % what)
                            sa = q.get('search_after')
                            if last is None:
                                if sa is not None: R.bad('search-after', where, 'the first page is requested after %r (%s)' % (sa, what))
                            elif freeze(sa) != freeze(last): R.bad('search-after', where, 'a page is requested after %r, but the last page ended at %r (%s)' % (sa, last, what))
                            searches.append(q); 
                        elif e[0] == 'page':
                            if e[1]: last = e[1][-1]['sort']
                            else: ended = True
                    hits = [freeze(h) for h in w.hits]
                    g = [freeze(x) for x in got]
                    R.ob('hits', where)
                    if g != hits[:len(g)]: R.bad('hits', where, 'yields other hits, or in another order, than the pages have (%s)' % what)
                    elif stop is None and not failed:
                        if len(g) < len(hits): R.bad('hits', where, 'yields %d of %d hits (%s)' % (len(g), len(hits), what))
                        if not ended: R.bad('last-page', where, 'stops before a page is empty (%s)' % what)
                    elif stop is not None and not failed and len(g) < stop and not ended: R.bad('last-page', where, 'stops before a page is empty (%s)' % what)
                    R.ob('release', where)
                    if w.open_pits:
                        cs = [c for c in closes if freeze(c[2].get('id', (c[2].get('body') or {}).get('id'))) == freeze(tok('pit0'))]
                        if not cs: R.bad('release', where, 'the snapshot is not released (%s)' % what)
                        if len(w.open_pits) > 1: R.bad('snapshots', where, 'more than one snapshot is opened (%s)' % what)
                        ce = [i for i, e in enumerate(w.events) if e[:2] == ('es', 'close_point_in_time')]
                        se = [i for i, e in enumerate(w.events) if e[:2] == ('es', 'search')]
                        if ce and se and se[-1] > ce[0]: R.bad('release', where, 'a page is requested after the snapshot was released (%s)' % what)
                C.explore(name, lambda: EsWorld(pages=3, fail=fail), call, judge)

def has_field(srt, f):
    ff = freeze(f)
    for s in aslist(srt) if srt is not None else []:
        if isinstance(s, dict) and any(freeze(x) == ff for x in s) and len(s) == 1:
            return True
        if freeze(s) == ff: return True
    return False
