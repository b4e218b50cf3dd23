"""C28: every kind of personal data that is searched is also filtered."""
import re, itertools
from check import rule
from pyabs import *
from pyworld import *

PII = 'wimbd/pii/map_count.py'
SAMPLES = [('email', ' joe@mail.com '), ('url', 'http://www.abc.de'), ('phone_numbers', ' 555 555 5555'), ('IP_addresses', '10.2.3.44')]
KINDS = ['email', 'phone_numbers', 'IP_addresses']

def classify(src, flags=0):
    """Which kind of data a constant pattern is for, from the samples it matches."""
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try: p = re.compile(src)
        except re.error: return 'invalid'
    ks = [k for k, s in SAMPLES if p.search(s)]
    return ks[0] if len(ks) == 1 else '+'.join(ks) or 'other'

class PiiWorld(CliWorld):
    """What a pattern finds in a text is given by the case: text -> kind -> [(start, end, groups)]."""
    def __init__(self, found=None, **kw):
        CliWorld.__init__(self, **kw); self.found = found or {}; self.searched = []; self.kinds = set()
    def call(self, name, a, k):
        if name == 're.compile':
            if not isinstance(a[0], str): raise Undecided('pattern %r' % a[0])
            return Obj('pattern', src=a[0], pii=classify(a[0]))
        if name in ('re.findall', 're.finditer', 're.search'):
            p = a[0] if isinstance(a[0], Obj) else Obj('pattern', src=a[0], pii=classify(a[0]))
            return self.method(p, name[3:], a[1:], {})
        if name.startswith('re.') and name[3:].isupper(): return 0
        return CliWorld.call(self, name, a, k)
    def modattr(self, name):
        if name in ('re.IGNORECASE', 're.I', 're.MULTILINE', 're.DOTALL', 're.UNICODE'): return 0
        return CliWorld.modattr(self, name)
    def matches(self, kind, text):
        if kind not in KINDS: raise Undecided('pattern for %s' % kind)
        t = self.found.get(text.lower())
        if t is None: raise Undecided('search in a part of a text')
        self.searched.append((text.lower(), kind))
        return [Obj('match', start=s, end=e, groups=g, whole=text[s:e]) for s, e, g in t.get(kind, [])]
    def method(self, o, n, a, k):
        if o.kind == 'pattern':
            kind = o.data['pii']
            if kind == 'url':
                i = a[0].lower().find('http')
                hit = i >= 0 and len(a[0]) - i >= len(URL)
                if n == 'findall': return [URL] if hit else []
                if n == 'finditer': return iter([Obj('any')] if hit else [])
                if n in ('search',): return Obj('any') if hit else None
            if n == 'finditer': return iter(self.matches(kind, a[0]))
            if n == 'search':
                r = self.matches(kind, a[0]); return r[0] if r else None
            if n == 'findall':
                return [(m.data['groups'][0] if len(m.data['groups']) == 1 else m.data['groups'] or m.data['whole']) for m in self.matches(kind, a[0])]
        if o.kind == 'match':
            d = o.data
            if n == 'start' and not any(a): return d['start']
            if n == 'end' and not any(a): return d['end']
            if n == 'span' and not any(a): return (d['start'], d['end'])
            if n == 'groups': return d['groups']
            if n == 'group': return d['whole'] if not any(a) else d['groups'][a[0] - 1]
        return CliWorld.method(self, o, n, a, k)

URL = 'http://www.u.co'
BODY = {'email': (' joe@mail.com ', ('joe@mail.com',)), 'phone_numbers': (' 555 123 4567', ('555', '123', '4567')), 'IP_addresses': ('10.20.30.44', ())}

def build(parts, total=None):
    """A text from (position, string) parts over filler, and its length."""
    n = max([p + len(s) for p, s in parts] + [total or 0])
    t = ['x'] * n
    for p, s in parts: t[p:p + len(s)] = list(s)
    return ''.join(t)

@rule('C28', 'repo')
def kinds(repo, R):
    C = Cases(repo, R); where = line_of(repo, PII, 'main')
    def passes(kind, text, s, e, whole, groups):
        if kind == 'email':
            m = ''.join(groups) or whole
            return m.split('@')[0].strip() != '(' and '.' in m.split('@')[1]
        w = text[max(0, s - 50):min(len(text), e + 50)].lower()
        if 'isbn' in w or 'doi' in w or '#' in w: return False
        return not (kind == 'phone_numbers' and 'http' in w and len(w) - w.find('http') >= len(URL))
    cases = []       # (rows, found, expected lines)
    def case(rows, note):
        found = {}; want = []; docs = {}; lines = []
        for i, (text, ms, examined) in enumerate(rows):
            docs['R%d' % i] = {'text': text}; lines.append('R%d\n' % i)
            if text is None: continue
            f = found.setdefault(text.lower(), {})
            for kind, s, e, groups in ms:
                f.setdefault(kind, []).append((s, e, groups))
                if examined and passes(kind, text, s, e, text[s:e], groups): want.append(kind)
        def mk(): return PiiWorld(options={'in_file': 'f'}, files={'f': lines}, docs=docs, found=found)
        def body(m): main_of(m, C.module(m, PII))
        def judge(m, k, v):
            w = m.world
            if k == 'raise': R.bad('fails', where, 'fails with %s: %s (%s)' % (type(v).__name__, v, note)); return
            R.ob('matches judged', where, n=max(1, len(want)))
            got = w.lines_out()
            if sorted(got) != sorted(want):
                for kd in sorted(set(got) | set(want)):
                    if got.count(kd) != want.count(kd):
                        R.bad('printed', where, '%s is printed %d times instead of %d (%s)' % (kd, got.count(kd), want.count(kd), note))
            for t, ms, ex in rows:
                if t is None or not t.strip(): continue
                n = [kd for tt, kd in w.searched if tt == t.lower()]
                R.ob('row examined', where)
                if ex and set(KINDS) - set(n): R.bad('not-examined', where, 'a row is not searched for %s (%s)' % (', '.join(sorted(set(KINDS) - set(n))), note))
        C.run(mk, body, judge, what=note)
    def at(kind, pos): b, g = BODY[kind]; return (kind, pos, pos + len(b), g)
    for kind in KINDS:
        b, g = BODY[kind]; L = len(b)
        for start in (0, 3, 30, 50, 51, 120):
            end = start + L
            for tail in (0, 10, 50, 51, 90):
                n = end + tail
                case([(build([(start, b)], n), [at(kind, start)], True)], '%s at %d of %d' % (kind, start, n))
                for mark in ('isbn', 'DOI', '#', URL, 'Isbn', 'http'):
                    places = set()
                    lo = start - 50
                    for p in (lo - len(mark), lo - 1, lo, start - len(mark), end, end + 50 - len(mark), end + 50 - len(mark) + 1, end + 50): places.add(p)
                    for p in sorted(places):
                        if p < 0 or p + len(mark) > n or not (p + len(mark) <= start or p >= end): continue
                        if mark == 'http' and p + len(URL) < n: continue
                        t = build([(start, b), (p, mark)], n)
                        case([(t, [at(kind, start)], True)], '%s at %d of %d with %r at %d' % (kind, start, n, mark, p))
    # several matches: each is judged by its own surroundings
    for kind, mark in itertools.product(KINDS, ('isbn', '#', URL)):
        b, g = BODY[kind]
        t = build([(60, b), (200, b), (340, b), (190 - len(mark), mark)], 450)
        case([(t, [at(kind, 60), at(kind, 200), at(kind, 340)], True)], 'three equal %s, %r beside the second' % (kind, mark))
        t = build([(60, b), (200, b), (40, mark)], 300)
        case([(t, [at(kind, 60), at(kind, 200)], True)], 'two equal %s, %r beside the first' % (kind, mark))
        case([(t, [at(kind, 60), at(kind, 200)], True), (build([(5, b)], 80), [at(kind, 5)], True), (t + 'x', [at(kind, 200)], True)], 'three rows of %s' % kind)
    # emails
    for addr in ('joe@mail.com', '(@mail.com', ' ( @mail.com', '(joe@mail.com', 'joe@mailcom', '((@a.b', 'j.oe@mail', '@a.b', 'a(@b.c'):
        t = build([(60, ' ' + addr + ' ')], 150)
        case([(t, [('email', 60, 62 + len(addr), (addr,))], True)], 'email %r' % addr)
        case([(t, [('email', 60, 62 + len(addr), (addr,)), at('phone_numbers', 120)], True)] and [(build([(60, ' ' + addr + ' '), (120, BODY['phone_numbers'][0])], 190), [('email', 60, 62 + len(addr), (addr,)), at('phone_numbers', 120)], True)], 'email %r and a phone number' % addr)
    # mixed kinds in one row
    t = build([(10, BODY['email'][0]), (60, BODY['phone_numbers'][0]), (140, BODY['IP_addresses'][0]), (210, URL)], 260)
    for r in range(0, 4):
        for ks in itertools.combinations([at('email', 10), at('phone_numbers', 60), at('IP_addresses', 140)], r):
            case([(t, list(ks), True), (t + 'y', list(reversed(ks)), True)], 'a row with %s' % ', '.join(k[0] for k in ks))
    # rows that are not examined, and rows that just are
    ms = lambda: [at('email', 0), at('IP_addresses', 20)]
    head = build([(0, BODY['email'][0]), (20, BODY['IP_addresses'][0])], 100)
    for t in (None, '', ' ', '\n\t '):
        case([(t, [], False), (head, ms(), True)], 'a row with text %r and one with data' % t)
    noise = [('.' * 45, True), ('!' * 99, True), ('# # # # # # #', False), ('???????', True), (',' * 76, True), (':)' * 49 + ')', None), (';' * 116, True)]
    skip = []
    for s in ('.' * 45, '# # # # # # #', '???????', '!' * 300, ',' * 300, ':)' * 200, ';' * 300): skip.append((head + ' ' + s, repr(s[:8])))
    for s, c in ('...........', 51), ('/ / / / /', 51), ('%', 1001): skip.append((head + ' ' + ((s + ' z ') * c), '%d times %r' % (c, s)))
    skip.append((head + 'x' * (500001 - len(head)), '500001 characters'))
    for t, note in skip: case([(t, ms(), False), (head, ms(), True)], 'a row with %s' % note)
    keep = []
    for s in ('.' * 44, '# # # # # #', '??????', '!' * 20, ',' * 20, ':)' * 10, ';' * 20): keep.append((head.replace('#', 'x') + ('x' * 80) + s, repr(s[:8])))
    for s, c in ('...........', 50), ('/ / / / /', 50), ('%', 1000): keep.append((head + 'x' * 60 + ((s + ' z ') * c), '%d times %r' % (c, s)))
    keep.append((head + 'x' * (500000 - len(head)), '500000 characters'))
    for t, note in keep: case([(t, ms(), True)], 'a row with only %s' % note)
    C.done()
