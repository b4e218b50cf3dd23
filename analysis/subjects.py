"""What the rules are run on: commands of the binary, functions of the library, Python tools."""
import os, sys, subprocess, hashlib
import rust
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('WIMBD_REPO', '/repo')
_cache = {}
OPAQUE = ['NgramCounter::' + x for x in ('new', 'increment', 'decrement', 'max_count', 'min_count', 'count_nonzero')] + ['TopKNgrams::' + x for x in ('new', 'insert', 'drain', 'min_count')]
_facts = {}

def facts(kind):
    if kind not in _facts:
        out = os.path.join(ROOT, 'target', kind + '.%d.json' % os.getpid())
        r = subprocess.run([os.path.join(ROOT, 'facts.sh'), kind, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            sys.stdout.write(r.stdout[-3000:]); print('could not analyse the crate'); sys.exit(3)
        try: F = rust.Facts(out)
        finally: os.unlink(out)
        names, decl = rust.option_tables(F) if kind == 'bin' else ({}, {})
        _facts[kind] = (F, names, decl)
    return _facts[kind]

def prepare(groups):
    if any(g.split(':')[-1] in rust.COMMANDS or g == 'bin' for g in groups): facts('bin')
    if any(g == 'lib' for g in groups): facts('lib')

def get(group):
    if group in _cache: return _cache[group]
    if group in rust.COMMANDS:
        F, names, decl = facts('bin')
        s = rust.Cmd(F, group, rust.optname_map(names, decl))
        s.names = names; s.decl = decl
    elif group.startswith('sim:'):
        # the command with the operations of the counting table and of the collection kept as calls
        F, names, decl = facts('bin')
        s = rust.Cmd(F, group[4:], rust.optname_map(names, decl), opaque=OPAQUE, allphis=True)
    elif group in ('bin', 'lib'):
        s = facts(group)
    elif group == 'py':
        import pyfront
        s = pyfront.load(REPO)
    elif group == 'repo': s = REPO
    else: raise Exception('unknown subject ' + group)
    _cache[group] = s
    return s

def account(group, s, r):
    if group.split(':')[-1] in rust.COMMANDS:
        r.analysed['commands'] += 1
        r.analysed['functions'] += len({n.ctx.body['id'] for n in s.nodes})
        r.analysed['call contexts'] += len(s.e.clist)
        r.analysed['program points'] += len(s.nodes)
        r.analysed['events'] += len(s.events)
        r.analysed['edges'] += sum(len(n.succ) for n in s.nodes)
        r.notes.append('summaries of standard library iterators, collections, threads and channels (models/src/lib.rs, analysis/absint.py) are faithful')
    elif group in ('bin', 'lib'):
        r.analysed['bodies'] += len(s[0].bodies)
