"""Shared queries of the rules about the Rust commands."""
import re
from rust import *
import absint
from absint import mk, V
from ceval import Eval, UNK, some, NONE

def decls(c):
    """Declared options of a command: name -> declaration."""
    for m, ds in c.decl.items():
        if m.split('::')[-1] == c.name.lower():
            return {(d.get('long') or d.get('short') or d.get('name') or '?').lstrip('-'): d for ev, d in ds.values()}
    raise Missing('no options found for %s' % c.name)

def option(c, *names):
    """The option of a command with one of these long names, short names or field names."""
    ds = decls(c)
    for n in names:
        if n in ds: return c.opt(n)
    for n in names:
        for k, d in ds.items():
            if n in (d.get('name'), (d.get('short') or '').lstrip('-')): return c.opt(k)
    return None

def failing_exit(x):
    """True / False / None: the event ends the process with failure, success, or not at all."""
    if x.name == 'process::exit':
        v = peel(x.args[0])
        if v.op == 'const': return v.a[0] != 0
        return True if v.op == 'cast' else None
    if x.kind == 'return' and x.thread == 'main':
        v = x.args[0] if x.args else None
        if v is not None and v.op == 'struct' and v.a[0][0] == 'adt' and v.a[0][1] in ('Result', 'ExitCode'): return v.a[0][3] == 'Err'
        if v is not None and v.op == 'struct' and v.a[0][0] == 'tuple': return False
        return False
    return None

def is_exec(x): return x.kind == 'spawn' or x.name in ('ThreadPool::execute', 'thread::spawn', 'Builder::spawn')

def derives(c, t, src):
    return src in c.deep(t)

def within(ctx, ids):
    """The call context is one of these or below one."""
    while ctx is not None:
        if ctx.id in ids: return True
        ctx = ctx.parent
    return False
