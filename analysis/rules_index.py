"""C26: indexing submits every usable document once under a stable id."""
import copy, itertools
from check import rule
from pyabs import *
from pyworld import *
import rules_es

IX = 'wimbd/indexing/index_json_files.py'

class IndexWorld(CliWorld):
    def __init__(self, statuses=(), exists=False, **kw):
        CliWorld.__init__(self, **kw); self.submitted = []; self.statuses = statuses; self.exists = exists; self.nres = 0; self.created = []; self.consumed = 0
        self.client = Obj('es')
    def attr(self, o, n):
        if o.kind == 'es' and n in ('cat', 'indices'): return Obj('es.' + n)
        return CliWorld.attr(self, o, n)
    def method(self, o, n, a, k):
        if o.kind == 'es.cat' and n == 'indices': return [{'index': 'ix', 'docs.count': '1'}] if self.exists else [{'index': 'other', 'docs.count': '1'}]
        if o.kind == 'es.indices' and n == 'create': self.created.append(k.get('index')); return None
        if o.kind == 'es.indices' and n == 'exists': return self.exists
        if o.kind == 'es' and n == 'options': return o
        return CliWorld.method(self, o, n, a, k)
    def call(self, name, a, k):
        if name in ('elasticsearch.helpers.parallel_bulk', 'elasticsearch.helpers.streaming_bulk'):
            return self.bulk(a, k)
        if name == 'elasticsearch.helpers.bulk': raise Undecided('bulk')
        if name == 'yaml.safe_load': return {'cloud_id': 'c', 'api_key': 'k'}
        if name == 'elasticsearch.Elasticsearch': return self.client
        if name in ('pathlib.Path',): return U('Path', a, PathT)
        if name in ('os.getenv',): return None
        if name.startswith('h5py.'): return Obj('any')
        if name == 'numpy.array': return Obj('any')
        return CliWorld.call(self, name, a, k)
    def length(self, o):
        if o.kind == 'any': return 1
        return CliWorld.length(self, o)
    def open(self, p, mode='r', *a, **k):
        if isinstance(p, str) and p.endswith('.yml'): self.fs.setdefault(p, ['cfg'])
        if isinstance(p, U): return Obj('file', path=p, mode='r', lines=[], pos=[0], pending=[], closed=False)
        return CliWorld.open(self, p, mode)
    def bulk(self, a, k):
        acts = a[1] if len(a) > 1 else k['actions']
        ign = k.get('ignore_status', ()); ign = set(ign) if not isinstance(ign, int) else {ign}
        for act in self.m.iter(acts):
            self.submitted.append(copy.deepcopy(act))
            st = self.statuses[self.nres] if self.nres < len(self.statuses) else 201
            self.nres += 1
            ok = 200 <= st < 300
            if not ok and st not in ign and k.get('raise_on_error', True): raise exc('elasticsearch.helpers.BulkIndexError')(st)
            self.consumed += 1
            yield (ok, {act.get('_op_type', 'index') if isinstance(act, dict) else 'index': {'status': st, '_id': act['_id'], 'error': {} if not ok else None}})
    def modattr(self, name):
        if name == 'os.environ': return {}
        if name in ('logging.WARNING', 'logging.INFO', 'logging.DEBUG'): return 0
        return CliWorld.modattr(self, name)

DOCS = {
 'L0': {'text': ' First\tDoc ', 'id': 'i0', 'content': 'c', 'a': 1, 'b': {'x': 2}},
 'L1': {'text': '', 'id': 'i1', 'content': '', 'a': 1},
 'L2': {'text': None, 'id': 'i2', 'content': None, 'b': 0},
 'L3': {'text': 'abcdef', 'id': 'i3', 'content': 'XYZuvw'},
 'L4': {'text': 'abc', 'id': 'i4', 'content': 'XYZ', 'a': None, 'b': []},
 'L5': {'text': ' ', 'id': 'i5', 'content': ' ', 'c': 3},
 'L6': {'text': 'é\u2028f', 'id': 'i6', 'content': 'é', 'a': ''},
}

@rule('C26', 'repo')
def indexing(repo, R):
    C = Cases(repo, R); where = line_of(repo, IX, 'main')
    seqs = [['L0', 'L1', 'L2', 'L3', 'L4', 'L5', 'L6'], ['L2', 'L3'], ['L1'], [], ['L4', 'L4', 'L3']]
    base = dict(index='IX', filenames_path='list', es_config='cfg.yml')
    def expected(files, o):
        out = []
        for fn, ls in files:
            acts = []
            for i, l in enumerate(ls):
                d = copy.deepcopy(DOCS[l])
                t = d.pop(o.get('text_field', 'text'))
                if not t: continue
                mx = o.get('max_doc_size', 1 << 60)
                idf = o.get('id_field')
                src = dict(d); src['text'] = t[:mx]
                for f in [x for x in o.get('skip_fields', '').split(',') if x]: src.pop(f, None)
                acts.append((d[idf] if idf else '%s-%d' % (fn, i), src, idf))
            out += acts[o.get('skip', 0):]
        return out
    def case(files, o, exists=False, statuses=()):
        opts = dict(base, **o)
        fs = {'list': [f + '\n' for f, _ in files]}
        for f, ls in files: fs[f] = [l + '\n' for l in ls]
        what = ', '.join('%s=%r' % x for x in o.items()) + (', ' if o else '') + ', '.join('%s: %s' % (f, ' '.join(ls)) for f, ls in files)
        def mk(): return IndexWorld(options=opts, files=fs, docs=DOCS, exists=exists, statuses=statuses)
        def body(m): main_of(m, C.module(m, IX))
        def judge(m, kind, v):
            w = m.world
            want = expected(files, o)
            badst = [s for s in statuses[:len(want)] if s not in (201, 409)]
            if badst:
                R.ob('rejected document', where)
                if kind != 'raise': R.bad('response-ignored', where, 'the response %d does not stop the run (%s)' % (badst[0], what))
                return
            if o.get('skip') and len(files) > 1:
                R.ob('skip of several files', where)
                if kind != 'raise' and len(w.submitted) < len(expected(files, dict(o, skip=0))): R.bad('skip', where, 'documents of several files are skipped (%s)' % what)
                return
            if kind == 'raise': R.bad('fails', where, 'fails with %s: %s (%s)' % (type(v).__name__, v, what)); return
            R.ob('documents submitted', where, n=max(1, len(want)))
            got = w.submitted
            if len(got) != len(want): R.bad('documents', where, '%d documents are submitted instead of %d (%s)' % (len(got), len(want), what)); return
            if w.consumed < len(want): R.bad('responses', where, 'only %d of %d responses are looked at (%s)' % (w.consumed, len(want), what))
            for g, (i, src, idf) in zip(got, want):
                if not isinstance(g, dict): raise Undecided('action %r' % (g,))
                if g.get('_op_type') != 'create': R.bad('create', where, 'a document is submitted with %r' % g.get('_op_type'))
                if g.get('_id') != i: R.bad('id', where, 'the id is %r instead of %r (%s)' % (g.get('_id'), i, what))
                if g.get('_index') != 'ix': R.bad('index', where, 'goes to the index %r' % g.get('_index'))
                s = g.get('_source', {k: x for k, x in g.items() if not k.startswith('_')})
                if s.get('text') != src['text']: R.bad('text', where, 'the text is %r instead of %r (%s)' % (s.get('text'), src['text'], what))
                for f in set(s) | set(src):
                    if f == 'text' or f == idf: continue
                    if f in src and (f not in s or s[f] != src[f]): R.bad('field', where, 'the field %r is lost or changed (%s)' % (f, what))
                    if f not in src: R.bad('skip-fields', where, 'the field %r is indexed (%s)' % (f, what))
            R.ob('index created', where)
            if not exists and w.created[:1] != ['ix']: R.bad('index-created', where, 'the index is not created: %r' % w.created)
            if exists and w.created: R.bad('index-created', where, 'an existing index is created again')
        C.run(mk, body, judge, what=what)
    for ls in seqs:
        for o in ({}, {'max_doc_size': 3}, {'max_doc_size': 1}, {'id_field': 'id'}, {'skip_fields': 'a'}, {'skip_fields': 'a,b'}, {'skip_fields': 'a,b', 'id_field': 'id', 'max_doc_size': 2}, {'text_field': 'content'}, {'bulk_docs': 1}, {'save_ids_file': 'ids.h5'},
                  {'text_field': 'content', 'id_field': 'id', 'skip_fields': 'b'}):
            case([('f1.gz', ls)], dict(o))
        for s in (1, 2, 3, 10): case([('f1.gz', ls)], {'skip': s}, exists=True)
    # every combination of options
    for tf, mx, idf, sk, bd, n, ids in itertools.product((None, 'content'), (None, 2), (None, 'id'), (None, 'b'), (None, 1, 2), (0, 1, 2), (None, 'ids.h5')):
        o = {k: v for k, v in dict(text_field=tf, max_doc_size=mx, id_field=idf, skip_fields=sk, bulk_docs=bd, skip=n or None, save_ids_file=ids).items() if v is not None}
        case([('f1.gz', seqs[0])], o)
    for o in ({}, {'id_field': 'id'}, {'max_doc_size': 2}, {'skip': 1}, {'skip_fields': 'b,a'}):
        case([('f1.gz', seqs[0]), ('d/f2.gz', seqs[4])], o)
        case([('f1.gz', []), ('f2.gz', seqs[1]), ('f3.gz', ['L1'])], o, exists=True)
    for sts in ((201, 409, 201, 409), (400,), (201, 429), (201, 409, 503), (201, 201, 404), (409, 500), (413,), (200,)):
        if sts == (200,): continue
        case([('f1.gz', seqs[0])], {}, statuses=sts)
        case([('f1.gz', seqs[4]), ('f2.gz', seqs[4])], {'bulk_docs': 2}, statuses=sts)
    C.done()
