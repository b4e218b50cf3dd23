"""Runs the rules of one property and writes its evidence.

    check.py <property>

Exit 0: every rule instance holds (listed findings are printed as KNOWN-FINDING lines).  Exit 1: a
VIOLATION line.  Any other exit is an error of the check."""
import os, sys, time, json, traceback, collections, multiprocessing, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

class Report:
    def __init__(self):
        self.violations = []; self.obligations = 0; self.kinds = collections.Counter()
        self.sites = collections.OrderedDict(); self.analysed = collections.Counter(); self.notes = []
    def ob(self, kind, where=None, what=None, n=1):
        """One rule instance was decided."""
        self.obligations += n; self.kinds[kind] += n
        if where is not None: self.sites.setdefault((kind, where), what or '')
    def bad(self, rule, where, what, trace=()):
        for r, w, t, _ in self.violations:
            if r == rule and w == where: return
        self.violations.append((rule, where, what, list(trace)))
    def merge(self, o):
        for v in o.violations: self.bad(*v)
        self.obligations += o.obligations; self.kinds += o.kinds; self.analysed += o.analysed
        for k, v in o.sites.items(): self.sites.setdefault(k, v)
        self.notes += [n for n in o.notes if n not in self.notes]

REGISTRY = {}    # property -> list of (group, function)
def rule(prop, *groups):
    """Registers a function of (subject, report); groups name the subjects it is run on."""
    def deco(f):
        for g in groups: REGISTRY.setdefault(prop, []).append((g, f))
        return f
    return deco

def known(prop):
    out = {}
    for l in open(os.path.join(ROOT, 'known_findings.txt')):
        l = l.strip()
        if l.startswith('finding: property=%s ' % prop):
            d = l.split(' key=', 1)[1]
            out[d.split(' -- ')[0].strip()] = l
    return out

def task(a):
    prop, group, fn = a
    r = Report()
    try:
        import subjects
        s = subjects.get(group)
        fn(s, r)
        subjects.account(group, s, r)
        return r, None
    except Exception as ex:
        import rust
        if isinstance(ex, rust.Missing):
            r.bad('anchor', group, str(ex)); return r, None
        return r, '%s/%s: %s' % (prop, group, traceback.format_exc())

def run(prop):
    t0 = time.time()
    import rules
    jobs = REGISTRY.get(prop)
    if not jobs: print('no rules for', prop); return 2
    groups = collections.OrderedDict()
    for g, f in jobs: groups.setdefault(g, []).append(f)
    import subjects
    subjects.prepare(list(groups))
    work = [(prop, g, f) for g, fs in groups.items() for f in [combined(fs)]]
    if len(work) > 1:
        ctx = multiprocessing.get_context('fork')
        global WORK
        WORK = work
        with ctx.Pool(min(8, len(work))) as p: res = p.map(_idx, range(len(work)), chunksize=1)
    else: res = [task(w) for w in work]
    R = Report(); errs = []
    for r, e in res:
        R.merge(r)
        if e: errs.append(e)
    kn = known(prop)
    new = []; old = []
    for v in R.violations:
        (old if '%s:%s' % (v[0], v[1]) in kn else new).append(v)
    ev = {
        'property': prop, 'tier': os.environ.get('VERIF_TIER', 'quick') if os.environ.get('VERIF_TIER') in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the current source: rule instances decided on the abstract event graph; nothing was executed.',
            'obligations': R.obligations, 'discharged': R.obligations - len(R.violations) if R.obligations >= len(R.violations) else 0,
            'rule_instances': dict(R.kinds), 'analysed': dict(R.analysed),
            'samples': ['%s @ %s %s' % (k[0], k[1], v) for k, v in list(R.sites.items())[:40]],
            'distinct_sites': len(R.sites), 'known_findings': len(old),
            'undecided': [e.split(':')[0] + ': ' + e.strip().split('\n')[-1][:300] for e in errs],
        },
        'assumptions': R.notes or ['the summaries of library functions in models/ and analysis/ are faithful'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(new),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    for v in old: print('KNOWN-FINDING: property=%s %s at %s: %s' % (prop, v[0], v[1], v[2]))
    if new:
        rp = os.path.join(ROOT, 'evidence', prop + '.violation.txt')
        with open(rp, 'w') as f:
            for ru, w, t, tr in new:
                f.write('%s at %s: %s\n' % (ru, w, t))
                for x in tr: f.write('    via %s\n' % x)
        for ru, w, t, tr in new[:10]: print('%s at %s: %s' % (ru, w, t))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    for e in errs:
        # an analysis that gave up on one subject: recorded as not covered, never as held
        print(e if os.environ.get('WIMBD_STRICT') or not R.obligations else 'UNDECIDED: ' + e.strip().split('\n')[-1][:300] + ' (' + e.split(':')[0] + ')')
    if errs and (os.environ.get('WIMBD_STRICT') or not R.obligations): return 2
    if not R.obligations: print('no rule instance found for', prop); return 2
    print('%s: %d rule instances hold on %s (%.1f s)' % (prop, R.obligations, ', '.join(groups), time.time() - t0))
    return 0

def combined(fs):
    """Every rule of the group runs, also after one of them gave up."""
    def f(s, r):
        import rust
        first = None
        for g in fs:
            try: g(s, r)
            except rust.Missing as ex: r.bad('anchor', '%s:%s' % (getattr(g, '__module__', ''), g.__name__), str(ex))
            except Exception as ex: first = first or ex
        if first is not None: raise first
    return f

WORK = None
def _idx(i): return task(WORK[i])

if __name__ == '__main__':
    sys.modules['check'] = sys.modules['__main__']
    sys.exit(run(sys.argv[1]))
