"""C23: what a map script prints is what its reducer counts."""
import itertools, json, math, os, re, shlex, urllib.parse
from collections import defaultdict
from check import rule
from pyabs import *
from pyworld import *
import pyabs

W = 'wimbd/'

class Series:
    def __init__(self, d): self.d = d
    def __truediv__(self, o):
        if not isinstance(o, Series): raise Undecided('series / %r' % o)
        return Series({k: self.d[k] / o.d[k] if k in self.d and k in o.d else math.nan for k in list(self.d) + [k for k in o.d if k not in self.d]})
    def to_dict(self): return dict(self.d)
    def items(self): return self.d.items()
    def fillna(self, v): return Series({k: v if x != x else x for k, x in self.d.items()})
class Frame:
    """A table of columns that are dictionaries from row names to values."""
    def __init__(self, d): self.d = {c: dict(v) for c, v in d.items()}
    def __getitem__(self, c): return Series(self.d[c])
    @property
    def columns(self): return list(self.d)
class Words:
    """The table of words and their categories."""
    def __init__(self, rows): self.rows = rows
    def fillna(self, v): return self
    def __getitem__(self, c):
        if isinstance(c, list): return Words([r for r, b in zip(self.rows, c) if b])
        if c not in ('word', 'categorization'): raise Undecided('column %r' % (c,))
        return Vector([r[0 if c == 'word' else 1] for r in self.rows])
    @property
    def word(self): return self['word']
    @property
    def categorization(self): return self['categorization']
WORDS = [('harm one', 'harmless-minority'), ('harmtwo', 'harmless-minority'), ('offone', 'offensive-minority-reference'), ('offtwo', 'offensive-minority-reference'),
  ('notone', 'offensive-not-minority'), ('nottwo', 'offensive-not-minority')]

class MapWorld(CliWorld):
    """`facts` gives what the libraries outside say about a text or address."""
    def __init__(self, facts=None, repo=None, **kw):
        CliWorld.__init__(self, **kw); self.facts = facts or {}; self.repo_ = repo; self.asked = []; self.randoms = list(self.facts.get('random', ()))
    def fact(self, kind, x):
        d = self.facts.get(kind, {})
        if x not in d: raise Undecided('%s of %r' % (kind, x))
        return d[x]
    def open(self, path, mode='r', *a, **k):
        if isinstance(path, U) and 'demographic_terms.json' in repr(path):
            return Obj('file', path='demographic_terms.json', mode='r', lines=open(os.path.join(self.repo_, W + 'sentiment_coocurrence/demographic_terms.json')).readlines(), pos=[0], closed=False)
        return CliWorld.open(self, path, mode, *a, **k)
    def call(self, name, a, k):
        if name in ('urllib.parse.urlparse', 'urllib.parse.urlsplit'): return getattr(urllib.parse, name.split('.')[-1])(*a, **k)
        if name in ('tldextract.extract',): return Obj('record', **self.fact('suffix', a[0]))
        if name == 'pycld2.detect':
            r = self.fact('lang', a[0])
            if r is None: raise exc('pycld2.error')()
            return r
        if name in ('uniseg.wordbreak.words', 'nltk.tokenize.wordpunct_tokenize'): return list(self.fact('words', a[0]))
        if name == 'dateutil.parser.parse': return Obj('record', year=self.fact('year', a[0]))
        if name in ('requests.get', 'requests.head'): 
            r = self.fact('link', a[0])
            if r == 'unreachable': raise exc('requests.exceptions.ConnectionError')()
            return Obj('response', ok=r == 'ok')
        if name == 'profanity_check.predict': return [self.fact('profane', t) for t in self.m.iter(a[0])]
        if name == 'pandas.read_csv': return Words(WORDS)
        if name == 'pandas.DataFrame':
            d = a[0]
            if not isinstance(d, dict) or not all(isinstance(x, dict) for x in d.values()): raise Undecided('DataFrame')
            return Frame(d)
        if name == 'random.random': return self.randoms.pop(0)
        if name == 'spacy.lang.en.English': return Obj('nlp')
        if name in ('spacy.load', 'spacy.blank'): return Obj('nlp')
        if name == 're.compile':
            if not isinstance(a[0], str): raise Undecided('pattern')
            cs = {c for w, c in WORDS if w in a[0]}
            if len(cs) != 1: raise Undecided('pattern %r' % a[0])
            return Obj('pattern', cat=cs.pop())
        if name == 'os.listdir':
            d = a[0].rstrip('/') + '/'
            return sorted({p[len(d):].split('/')[0] for p in self.fs if p.startswith(d)})
        return CliWorld.call(self, name, a, k)
    def modattr(self, name):
        if name in ('re.IGNORECASE', 're.I'): return 0
        return CliWorld.modattr(self, name)
    def attr(self, o, n):
        if o.kind == 'doc' and n == 'sents': return iter(o.data['sents'])
        if o.kind == 'doc' and n == 'text': return o.data['text']
        if o.kind == 'sent':
            if n == 'text': return o.data['text']
            if n == '_': return Obj('record', blob=Obj('record', polarity=o.data['polarity']), polarity=o.data['polarity'])
        if o.kind == 'record':
            if n in o.data: return o.data[n]
            raise Undecided('attribute ' + n)
        if o.kind == 'response':
            if n == 'status_code': return 200 if o.data['ok'] else 404
            if n == 'ok': return o.data['ok']
        return CliWorld.attr(self, o, n)
    def doc(self, t):
        return Obj('doc', text=t, sents=[Sent(s, p) for s, p in self.fact('sents', t)])
    def method(self, o, n, a, k):
        if o.kind == 'nlp':
            if n == '__call__': return self.doc(a[0])
            if n == 'pipe': return (self.doc(t) for t in self.m.iter(a[0]))
            return None
        if o.kind == 'response' and n == 'raise_for_status':
            if not o.data['ok']: raise exc('requests.exceptions.HTTPError')()
            return None
        if o.kind == 'pattern' and n in ('findall', 'finditer'):
            r = [w for w in self.fact('matches', a[0]) if dict(WORDS)[w] == o.data['cat']]
            return r if n == 'findall' else iter(r)
        return CliWorld.method(self, o, n, a, k)
    def iterate(self, o):
        if o.kind == 'sent': return (Obj('record', text=t) for t in o.data['text'].replace('.', ' .').split())
        return CliWorld.iterate(self, o)

class Sent(Obj):
    def __init__(self, text, polarity): Obj.__init__(self, 'sent', text=text, polarity=polarity)
    def __str__(self): return self.data['text']

class Count:
    """Expected totals."""
    def __init__(self): self.d = {}
    def add(self, k, n=1): self.d[str(k)] = self.d.get(str(k), 0) + n

HOSTS = ['http://a.com/x', 'http://a.com/y', 'https://b.c.org:80/p.png', 'no-host', '', 'http://a b/x y', 'http://ünï.de/b.JPG', '//h/p.tar.jpeg', 'ftp://u@h/a.html', 'http://1 2 3/x', 'http://h/.png', 'http://count 3/z.gif']

def totals_of(m):
    """What the reducer printed: key -> list of values."""
    out = defaultdict(list)
    for l in m.world.lines_out():
        try: o = json.loads(l)
        except ValueError: raise Undecided('the reducer prints %r' % l)
        if not isinstance(o, dict): raise Undecided('the reducer prints %r' % l)
        if len(o) == 2 and 'count' in o: out[[v for k, v in o.items() if k != 'count'][0]].append(o['count'])
        elif len(o) == 1:
            for k, v in o.items(): out[k].append(v)
        else: raise Undecided('the reducer prints %r' % l)
    return out

class Tool:
    def __init__(self, repo, R, C, name, reducer=True, script='map_count.py'):
        self.repo = repo; self.R = R; self.C = C; self.name = name
        self.map = W + name + '/' + script; self.red = W + name + '/reduce_count.py'
        self.wm = line_of(repo, self.map, 'main'); self.wr = line_of(repo, self.red, 'main')
    def lines(self, rows, note, facts=None, **opts):
        """The lines that the map script prints for one file of these rows."""
        docs = {'R%d' % i: r for i, r in enumerate(rows)}; got = []
        def mk(): return MapWorld(facts, self.repo, options=dict(opts, in_file='f'), files={'f': ['R%d\n' % i for i in range(len(rows))]}, docs=docs)
        def body(m): main_of(m, self.C.module(m, self.map))
        def judge(m, k, v):
            if k == 'raise' and not isinstance(v, SystemExit): self.R.bad('map fails', self.wm, 'fails with %s: %s (%s)' % (type(v).__name__, v, note)); return
            t = concat(m.world.out)
            if isinstance(t, U): raise Undecided('output %r' % t)
            got.append(t)
        self.C.run(mk, body, judge, what='%s map, %s' % (self.name, note))
        if len(got) != 1: return None
        # the lines as another program reads them
        return got[0].replace('\r\n', '\n').replace('\r', '\n').splitlines(True) if '\x0b' not in got[0] else re.findall(r'[^\n]*\n|[^\n]+', got[0])
    def reduce(self, lines, note, judge_):
        def mk(): return MapWorld(None, self.repo, options={}, stdin=lines)
        def body(m): main_of(m, self.C.module(m, self.red))
        def judge(m, k, v):
            if k == 'raise': self.R.bad('reduce fails', self.wr, 'fails with %s: %s (%s)' % (type(v).__name__, v, note)); return
            judge_(m)
        self.C.run(mk, body, judge, what='%s reduce, %s' % (self.name, note))
    def check(self, files, want, note, facts=None, **opts):
        """files: lists of rows; want: the expected totals."""
        all_ = []
        for i, rows in enumerate(files):
            ls = self.lines(rows, note, facts, **opts)
            if ls is None: return
            all_ += ls
        self.compare(all_, want, note)
    def compare(self, all_, want, note):
        R = self.R
        def judge(m):
            got = totals_of(m)
            R.ob('totals of a tool', self.wr, n=max(1, len(want)))
            for k in want:
                v = got.get(k, [])
                if len(v) > 1: R.bad('printed-twice', self.wr, 'the total of %r is printed %d times (%s)' % (k, len(v), note))
                elif not v: R.bad('dropped', self.wr, 'the records of %r are not counted: %s are (%s)' % (k, short(sorted(got)), note))
                elif v[0] != want[k]: R.bad('wrong-total', self.wr, 'the total of %r is %r instead of %r (%s)' % (k, v[0], want[k], note))
            for k in got:
                if k not in want: R.bad('foreign-key', self.wr, '%r is counted, of which there is no record (%s)' % (k, note))
        self.reduce(all_, note, judge)
    def sets(self, rows):
        """Lists of files over the rows."""
        yield [rows], 'all rows in one file'
        yield [rows[:1], [], rows[1:], rows[:3]], 'rows in several files'
        yield [[]], 'an empty file'
        for i, r in enumerate(rows): yield [[r, r], [r]], 'row %d three times' % i
def short(x): return repr(x)[:80]

@rule('C23', 'repo')
def one_per_row(repo, R):
    """Tools that print one key for each row."""
    C = Cases(repo, R)
    def t(name, rows, key, facts=None, script='map_count.py', **opts):
        T = Tool(repo, R, C, name, script=script)
        for files, note in T.sets(rows):
            c = Count()
            for f in files:
                for r in f:
                    for k in key(r): c.add(k)
            T.check(files, c.d, note, facts, **opts)
    urls = [{'url': u} for u in HOSTS]
    t('url_counts', urls, lambda r: [urllib.parse.urlparse(r['url']).netloc])
    t('scheme_counts', urls + [{'url': 'HTTPS://X'}, {'url': 'mailto:a@b'}], lambda r: [urllib.parse.urlparse(r['url']).scheme])
    def ext(r):
        e = posixpath.splitext(urllib.parse.urlparse(r['url']).path)[1][1:]
        return [e if e.lower() in ('jpg', 'png', 'jpeg') else 'other']
    t('extension_counts', urls + [{'url': 'http://h/a.jpg/'}, {'url': 'http://h/a.jpg?x=1.png'}, {'url': 'http://h/a.Jpeg'}, {'url': 'http://h/a.b/c'}], ext)
    links = {'http://ok/': 'ok', 'http://bad/': 'bad', 'http://no/': 'unreachable'}
    t('link_exists', [{'url': u} for u in links], lambda r: [links[r['url']] == 'ok'], {'link': links})
    years = {'2020-01-02': 2020, '3 May 1999': 1999, '0099': 99}
    t('utterance_dates', [{'date': '2020-01-02'}, {'timestamp': '3 May 1999'}, {'created': '0099'}, {'text': 'x'}, {'date': '0099', 'created': '2020-01-02'}],
      lambda r: [years[r[[k for k in ('date', 'timestamp', 'created') if k in r][0]]] if len(r) > 1 or 'text' not in r else None], {'year': years})
    words = {'': [], 'a': ['a'], 'a b': ['a', 'b'], 'xx': ['xx'], 'é,': ['é', ',']}
    t('sentence_lengths', [{'text': x} for x in ('', 'a', 'a b', ' a b\n', 'xx', 'é,', None)],
      lambda r: ['text is None'] if r['text'] is None else ['chars %d' % len(r['text']), 'tokens %d' % len(words[r['text'].strip()])], {'words': words})
    C.done()

@rule('C23', 'repo')
def with_counts(repo, R):
    """Tools that print a key and a number."""
    C = Cases(repo, R)
    T = Tool(repo, R, C, 'high_level_domain_counts')
    sfx = {'u1': dict(suffix='com', domain='a', subdomain=''), 'u2': dict(suffix='co.uk', domain='b', subdomain='w'), 'u3': dict(suffix='', domain='localhost', subdomain=''), 'u4': dict(suffix='ünï', domain='c', subdomain=''), 'u5': dict(suffix='com', domain='e', subdomain='')}
    rows = [{'url': u, 'count': n} for u in sfx for n in (1, 2, 0, 10 ** 12)]
    for files, note in T.sets(rows):
        c = Count()
        for f in files:
            for r in f:
                if sfx[r['url']]['suffix']: c.add(sfx[r['url']]['suffix'], r['count'])
        T.check(files, c.d, note, {'suffix': sfx})
    T = Tool(repo, R, C, 'url_per_tok_counts')
    words = {'a b': ['a', ' ', 'b'], '': [], ' ': [' '], 'x': ['x'], 'two  y\n': ['two', ' ', ' ', 'y', '\n']}
    rows = [{'url': u, 'text': t} for u in HOSTS for t in words]
    for files, note in T.sets(rows):
        c = Count()
        for f in files:
            for r in f: c.add(urllib.parse.urlparse(r['url']).netloc, len([x for x in words[r['text']] if x != ' ']))
        T.check(files, c.d, note, {'words': words})
    C.done()

LONG = 'L' * 100000; NOTLONG = 'N' * 99999
def batches(rows):
    """Lists of rows and batch sizes."""
    for n in range(0, 6):
        for bs in (1, 2, 3, None):
            yield [rows[:n]], bs
            if n: yield [rows[-n:], rows[:1]], bs
    for bs in (1, 2, 3, 4, len(rows), None):
        yield [rows], bs
        yield [rows, rows[:4], rows], bs
def o(bs, **k): return k if bs is None else dict(k, bs=bs)

@rule('C23', 'repo')
def in_batches(repo, R):
    """Tools that collect rows in batches: the last batch too is processed."""
    C = Cases(repo, R)
    T = Tool(repo, R, C, 'language')
    lang = {'en text': (True, 7, (('ENGLISH', 'en', 97, 1.0), ('Unknown', 'un', 0, 0.0))), 'de text': (True, 7, (('GERMAN', 'de', 97, 1.0),)), 'zh text': (True, 9, (('CHINESE', 'zh-Hant', 97, 1.0),)),
      'dubious': (False, 7, (('FRENCH', 'fr', 50, 1.0),)), 'broken': None, NOTLONG: (True, 1, (('X', 'xx', 1, 1.0),))}
    def key(t):
        if not t or not t.strip(): return []
        if len(t) > 99999: return ['long']
        r = lang[t]
        return [] if r is None else [r[2][0][1] if r[0] else 'un']
    rows = [{'text': t} for t in ('en text', 'de text', '', 'en text', None, 'zh text', 'dubious', LONG, 'broken', NOTLONG, ' \n', 'en text')]
    for files, bs in batches(rows):
        c = Count()
        for f in files:
            for r in f:
                for k in key(r['text']): c.add(k)
        T.check(files, c.d, 'batch size %s, %s rows' % (bs or 'default', [len(f) for f in files]), {'lang': lang}, **o(bs))
    T = Tool(repo, R, C, 'profanity')
    prof = {'bad': 1, 'good': 0, 'worse': 1, 'good. bad': 0, 'fine': 0, NOTLONG: 0}
    sents = {'bad': [('bad', 0)], 'good': [('good', 0)], 'worse': [('worse', 0)], 'good. bad': [('good', 0), ('bad', 0)], 'fine': [('fine', 0)], NOTLONG: [(NOTLONG, 0)]}
    match = {'bad': ['offone', 'offone', 'harm one'], 'good': [], 'worse': ['nottwo', 'notone'], 'good. bad': ['harmtwo', 'harm one', 'harmtwo'], 'fine': [], NOTLONG: []}
    rows = [{'text': t} for t in ('bad', 'good', '', 'worse', 'good. bad', None, LONG, 'fine', 'good', NOTLONG, ' ')]
    def pkey(t, model, per):
        if not t or not t.strip(): return []
        if len(t) > 99999: return ['long']
        if model == 'model': return ['profane' if (any(prof[s] for s, _ in sents[t]) if per else prof[t]) else 'not profane']
        cs = [dict(WORDS)[w] for w in match[t]]
        return ['profane' if set(cs) - {'harmless-minority'} else 'not profane'] + cs
    for files, bs in batches(rows):
        for model, per in (('model', False), ('model', True), ('taxonomy', False)):
            c = Count()
            for f in files:
                for r in f:
                    for k in pkey(r['text'], model, per): c.add(k)
            T.check(files, c.d, '%s%s, batch size %s, %s rows' % (model, ' per sentence' if per else '', bs or 'default', [len(f) for f in files]), {'profane': prof, 'sents': sents, 'matches': match}, **o(bs, model=model, per_sentence=per))
    C.done()

@rule('C23', 'repo')
def sentiment(repo, R):
    C = Cases(repo, R)
    T = Tool(repo, R, C, 'sentiment_coocurrence')
    terms = json.load(open(os.path.join(repo, W + 'sentiment_coocurrence/demographic_terms.json')))
    racial = terms['racial_terms'] + ['%s %s' % x for x in itertools.product(terms['base_racial_terms'], terms['person_terms'])]
    sents = {'he and she met': [('he and she met', 0.5)], 'a hindu. his jews': [('a hindu', -0.25), ('his jews', 1e-05)], 'a white man ran': [('a white man ran', 0.75)], 'two latino black women': [('two latino black women', -1.0)],
      'nothing here': [('nothing here', 0.125)], 'hers': [('hers', 0.0)], 'him': [('him', -0.75)]}
    def keys(t):
        for s, p in sents[t]:
            ws = set(s.split())
            for x in terms['male_gender_terms']:
                if x in ws: yield 'male', p
            for x in terms['female_gender_terms']:
                if x in ws: yield 'female', p
            for x in terms['religious_terms']:
                if x in ws or x + 's' in ws: yield x, p
            for x in racial:
                if x in s: yield x.split()[0], p
    rows = [{'text': t} for t in ('he and she met', 'a hindu. his jews', '', 'a white man ran', None, 'two latino black women', 'nothing here', LONG, 'hers', 'him', 'he and she met')]
    for files, bs in batches(rows):
        s = Count(); n = Count()
        for f in files:
            for r in f:
                if r['text'] and len(r['text']) < 100000:
                    for k, p in keys(r['text']): s.add(k, p); n.add(k)
        note = 'batch size %s, %s rows' % (bs or 'default', [len(f) for f in files])
        lines = []
        for f in files:
            ls = T.lines(f, note, {'sents': sents}, **o(bs))
            if ls is None: break
            lines += ls
        else:
            if not n.d: continue            # no sentence with a term: nothing to divide
            def judge(m):
                out = m.world.lines_out()
                try: got = json.loads('\n'.join(out))
                except ValueError: raise Undecided('the reducer prints %s' % short(out))
                R.ob('mean of a term', T.wr, n=max(1, len(n.d)))
                for k in sorted(set(got) | set(n.d)):
                    if k not in n.d: R.bad('foreign-key', T.wr, '%r has a mean but no record (%s)' % (k, note))
                    elif k not in got: R.bad('dropped', T.wr, 'the records of %r are not counted (%s)' % (k, note))
                    elif not isinstance(got[k], (int, float)) or not abs(got[k] - s.d[k] / n.d[k]) < 1e-9: R.bad('wrong-total', T.wr, 'the mean of %r is %r instead of %r (%s)' % (k, got[k], s.d[k] / n.d[k], note))
            T.reduce(lines, note, judge)
    C.done()

@rule('C23', 'repo')
def others(repo, R):
    C = Cases(repo, R)
    # the kinds of personal data
    T = Tool(repo, R, C, 'pii')
    for ls in ([], ['email\n'], ['email\n', 'phone_numbers\n', 'email\n', 'IP_addresses\n', 'email\n'], ['a b\n', 'a b\n', 'x']):
        c = Count()
        for l in ls: c.add(l.strip('\n'))
        T.compare(ls, c.d, '%d kinds' % len(ls))
    # samples are handed on as they are
    T = Tool(repo, R, C, 'random_sample')
    samples = ['http://a b/', '', 'line\nbreak', 'quote"', 'ünï', None, 'x ', {'a': 1}]
    for n in range(0, len(samples) + 1):
        rows = [{'url': s} if i % 2 == 0 else {'metadata': {'url': s}, 'text': 't'} for i, s in enumerate(samples[:n])] + [{'metadata': {}}]
        lines = T.lines(rows, '%d rows' % n, {'random': [0.0] * n + [0.0]}, sample_fraction=0.5)
        if lines is None: continue
        want = sorted(json.dumps({'url': s}) for s in samples[:n] + [''])
        R.ob('samples', T.wm)
        def canon(ls): return sorted(json.dumps(json.loads(l)) for l in ls)
        try: got = canon(lines)
        except ValueError: R.bad('not a record', T.wm, 'prints a sample that is not one line of JSON (%s)' % short(lines)); continue
        if got != want: R.bad('samples', T.wm, 'prints %s instead of %s' % (short(got), short(want))); continue
        def judge(m):
            R.ob('samples', T.wr)
            try: g = canon(m.world.lines_out())
            except ValueError: g = m.world.lines_out()
            if g != want: R.bad('samples', T.wr, 'prints %s instead of %s' % (short(g), short(want)))
        T.reduce(lines, '%d samples' % n, judge)
    # texts of frequent lengths
    T = Tool(repo, R, C, 'sentence_lengths', script='map_unique_lengths.py')
    a = 'x' * 160; b = 'y z' + 'w' * 157; cc = 'q\nq' + 'v' * 157; d = 'short'; e = 'z' * 327; f = 'm\rm' + 'u' * 157
    words = {a: [a], b: ['y', b[2:]], cc: ['q', cc[2:]], d: [d], e: [e], f: ['m', f[2:]], 'p q r s': list('pqrs') + list('pqrst')}
    shown = lambda t: t.replace('\n', '(newline)').replace('\r', '(return)')
    rows = [{'text': t} for t in (a, b, cc, d, e, f, None)]
    for files, note in T.sets(rows):
        c = Count()
        for fl in files:
            for r in fl:
                if r['text'] is not None and len(r['text']) in (160, 327): c.add('%d char / %s' % (len(r['text']), shown(r['text'])))
        T.check(files, c.d, note, {'words': words}, dataset='s2orc0')
    for files, note in T.sets([{'text': 'p q r s'}, {'text': d}]):
        c = Count()
        for fl in files:
            for r in fl:
                if r['text'] != d: c.add('9 tok / p q r s')
        T.check(files, c.d, note, {'words': words}, dataset='pile')
    # the summary of lengths
    rel = W + 'sentence_lengths/summarize.py'; where = line_of(repo, rel)
    src = None
    for n in ast.walk(pyabs.parse(os.path.join(repo, rel))):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.endswith('lengths_data/'): src = n.value
    if src is None: raise Exception('undecided: the input folder of ' + rel)
    def lines(d, none):
        return [json.dumps({'key': k, 'count': v}) + '\n' for k, v in d.items()] + ([json.dumps({'key': 'text is None', 'count': 7}) + '\n'] if none else [])
    for one, two, none in itertools.product(({}, {'tokens 3': 4}, {'chars 10': 1, 'tokens 3': 2, 'tokens 0': 6, 'chars 3': 3}), ({}, {'chars 7': 5, 'tokens 3': 9}), (False, True)):
        def mk(): return MapWorld(None, repo, options={}, files={src + 'c4.jsonl': lines(one, none), src + 'mc4.jsonl': lines(two, False)})
        def body(m): C.module(m, rel)
        def judge(m, k, v):
            if k == 'raise': R.bad('summary fails', where, 'fails with %s: %s' % (type(v).__name__, v)); return
            for ds, given in (('c4', one), ('mc4', two)):
                for kind, pre in (('tokens', 'toks_'), ('chars', 'chars_')):
                    R.ob('distribution', where)
                    mine = {k2.split()[1]: v2 for k2, v2 in given.items() if k2.startswith(kind)}
                    want = {k2: v2 / sum(mine.values()) for k2, v2 in mine.items()}
                    ps = [p for p in m.world.fs if p.endswith('/' + pre + ds + '.json')]
                    if not ps: R.bad('summary', where, 'no summary of the %s of %s' % (kind, ds)); continue
                    got = concat(m.world.fs[ps[0]])
                    try: got = json.loads(got)
                    except (ValueError, TypeError): raise Undecided('summary %r' % got)
                    if set(got) != set(want) or any(abs(got[x] - want[x]) > 1e-12 for x in want): R.bad('summary', where, 'the %s of %s are given as %s instead of %s' % (kind, ds, short(got), short(want)))
        C.run(mk, body, judge, what='summary')
    C.done()

# --- the run scripts -------------------------------------------------------------------------------
class Script:
    """The statements of a shell script of the kind the tools use: assignments, settings and pipelines."""
    def __init__(self, text):
        self.errexit = self.pipefail = False; self.vars = {}; self.pipes = []; self.shifted = 0; self.rest = []
        text = re.sub(r'\\\n', ' ', text)
        for line in text.split('\n'):
            line = line.strip()
            if not line or line.startswith('#'): continue
            self.statement(line)
    def words(self, s):
        lx = shlex.shlex(s, posix=False, punctuation_chars='|&;'); lx.whitespace_split = True; lx.commenters = '#'
        return list(lx)
    def expand(self, s):
        for _ in range(5):
            t = re.sub(r'\$\{(\w+)\}|\$(\w+)', lambda m: self.vars.get(m.group(1) or m.group(2), m.group(0)), s)
            if t == s: break
            s = t
        return s
    def statement(self, line):
        try: ws = self.words(line)
        except ValueError: self.rest.append(line); return
        if ws[0] == 'set':
            on = None
            i = 1
            while i < len(ws):
                w = ws[i]
                if w[0] in '-+':
                    if 'e' in w[1:]: self.errexit = w[0] == '-'
                    if 'o' in w[1:] and i + 1 < len(ws):
                        if ws[i + 1] == 'pipefail': self.pipefail = w[0] == '-'
                        if ws[i + 1] == 'errexit': self.errexit = w[0] == '-'
                        i += 1
                i += 1
            return
        m = re.match(r'^(?:readonly |local |export )?(\w+)=(.*)$', line)
        if m:
            n, v = m.group(1), m.group(2)
            if 'BASH_SOURCE' in v or '$0' in v: self.vars[n] = '<here>'
            elif 'which' in v or 'command -v' in v: self.vars[n] = 'python'
            elif v.startswith('('): self.rest.append(line)
            else: self.vars[n] = self.expand(v.strip('"\''))
            return
        if ws[0] == 'shift': self.shifted += 1; return
        if 'parallel' in line or 'reduce_count' in line or 'map_' in line:
            parts = [[]]
            for w in ws:
                if w == '|': parts.append([])
                elif w in ('||', '&&', ';', '&'): parts[-1].append(w)
                else: parts[-1].append(self.expand(w))
            self.pipes.append((parts, self.errexit, self.pipefail, line))
            return
        self.rest.append(line)

@rule('C23', 'repo')
def run_scripts(repo, R):
    import glob
    undecided = []
    for p in sorted(glob.glob(os.path.join(repo, W, '*/run*.sh'))):
        rel = os.path.relpath(p, repo); folder = os.path.basename(os.path.dirname(p))
        if not os.path.exists(os.path.join(os.path.dirname(p), 'reduce_count.py')): continue
        text = open(p).read(); s = Script(text)
        R.ob('run script', rel)
        if len(s.pipes) != 1: undecided.append('%s: %d pipelines' % (rel, len(s.pipes))); continue
        parts, e, pf, line = s.pipes[0]
        where = '%s:%d' % (rel, next((i for i, l in enumerate(text.split('\n'), 1) if 'parallel' in l), 1))
        if len(parts) != 2: undecided.append('%s: a pipeline of %d stages' % (rel, len(parts))); continue
        if not pf: R.bad('no-pipefail', where, 'a failing map stage does not fail the pipeline: pipefail is not set')
        if any(w in ('||', '&', ';') for q in parts for w in q): R.bad('masked', where, 'the result of the pipeline is not that of the script')
        last = text.rstrip().split('\n')[-1]
        if not e and s.rest and 'reduce_count' not in last: R.bad('no-errexit', where, 'a failing pipeline does not fail the script: errexit is not set')
        q = parts[0]
        if not q or os.path.basename(q[0]) != 'parallel': undecided.append('%s: %s' % (rel, q[:1])); continue
        joined = ' '.join(q)
        maps = re.findall(r'(\S*?)/(map_\w+\.py)', joined); reds = re.findall(r'(\S*?)/(reduce_\w+\.py)', ' '.join(parts[1]))
        if len(maps) != 1 or len(reds) != 1: undecided.append('%s: stages' % rel); continue
        for (d, f), st in ((maps[0], 'map'), (reds[0], 'reduce')):
            d = d.strip('"\'').split('"')[-1]
            if d == '<here>': tgt = os.path.dirname(p)
            elif d.startswith('<here>'): tgt = os.path.normpath(os.path.dirname(p) + d[6:])
            else: undecided.append('%s: folder %s' % (rel, d)); continue
            if tgt != os.path.dirname(p): R.bad('foreign-stage', where, 'the %s stage is of another tool: %s' % (st, os.path.relpath(tgt, repo)))
            elif not os.path.exists(os.path.join(tgt, f)): R.bad('no-stage', where, 'there is no %s' % f)
        if ':::' not in q: undecided.append('%s: the files of parallel' % rel); continue
        i = q.index(':::')
        if not re.search(r'--in_file[= ]\{\}', joined): R.bad('file-not-passed', where, 'the file is not passed to the map script as --in_file')
        given = q[i + 1:]
        if given not in (['"$@"'], ['"${@}"']):
            if given and ('$*' in given[0] or '$@' in given[0] or '$1' in given[0] or '${@' in given[0]): R.bad('files', where, 'the given files are passed on as %s' % ' '.join(given))
            else: undecided.append('%s: files %s' % (rel, given))
        opts = [w for w in q[1:i] if w.startswith('-')]
        for w in opts:
            if w in ('--dry-run', '--dryrun', '-u', '--ungroup', '--line-buffer', '--lb', '--ungrouped') and w not in ('--line-buffer', '--lb'): R.bad('mixed-output', where, 'with %s the lines of jobs are %s' % (w, 'not produced' if 'dry' in w else 'mixed'))
            if w in ('--pipe', '-k', '--keep-order', '--eta', '--bar', '--progress', '--line-buffer', '--lb') or w.startswith('--tmpdir') or w.startswith('-j') or w.startswith('--jobs') or w.startswith('--halt'): continue
    if undecided: raise Exception('undecided: ' + '; '.join(undecided[:3]))
