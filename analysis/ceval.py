"""Value of a term when some options are known: decides which branches stay possible."""
import math
from absint import V, mk
UNK = object()
NONE = ('None',)
def some(v): return ('Some', v)

OPS = {
    'Eq': lambda a, b: a == b, 'Ne': lambda a, b: a != b, 'Lt': lambda a, b: a < b, 'Le': lambda a, b: a <= b,
    'Gt': lambda a, b: a > b, 'Ge': lambda a, b: a >= b, 'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b,
    'Mul': lambda a, b: a * b, 'BitAnd': lambda a, b: a & b, 'BitOr': lambda a, b: a | b, 'BitXor': lambda a, b: a ^ b,
    'Div': lambda a, b: UNK if b == 0 else (a / b if isinstance(a, float) or isinstance(b, float) else a // b),
    'Rem': lambda a, b: UNK if b == 0 else (math.fmod(a, b) if isinstance(a, float) else a % b),
    'Shl': lambda a, b: a << b, 'Shr': lambda a, b: a >> b,
}
def num(x): return isinstance(x, (int, float)) and not isinstance(x, bool) or isinstance(x, bool)

class Eval:
    def __init__(self, c, env, hook=None):
        self.c = c; self.env = dict(env); self.hook = hook; self.memo = {}; self.typemax = None; self.strictphi = False
    def __call__(self, t): return self.ev(t, 40)
    def ev(self, t, d):
        if not isinstance(t, V): return t
        r = self.memo.get(t)
        if r is not None: return r
        if d == 0: return UNK
        self.memo[t] = UNK
        r = self.ev1(t, d - 1)
        self.memo[t] = r
        return r
    def ev1(self, t, d):
        if t in self.env: return self.env[t]
        if self.hook is not None:
            r = self.hook(t, self)
            if r is not UNK: return r
        op = t.op
        if op == 'const':
            v = t.a[0]
            if len(t.a) > 1 and isinstance(t.a[1], str) and t.a[1] in ('f32', 'f64') and not isinstance(v, float):
                try: return float(v)
                except Exception: return UNK
            return v
        if op in ('&', 'deref'): return self.ev(t.a[0], d)
        if op == 'cast': return self.ev(t.a[1], d)
        if op == 'struct' and t.a[0][0] == 'adt' and t.a[0][1] == 'Option':
            if t.a[0][3] == 'None': return NONE
            return some(self.ev(t.a[1][0], d))
        if op == 'fld':
            b = t.a[0]
            if b.op == 'bin' and 'WithOverflow' in b.a[0]:
                if t.a[2] == '0': return self.ev(mk('bin', b.a[0].replace('WithOverflow', ''), *b.a[1:]), d)
                w = self.ev(mk('bin', b.a[0].replace('WithOverflow', ''), *b.a[1:]), d)
                return w < 0 or w > self.typemax if num(w) and self.typemax is not None else UNK
            x = self.ev(b, d)
            if isinstance(x, tuple) and len(x) == 3 and x[0] == 'S' and t.a[3] < len(x[2]): return x[2][t.a[3]]
            return UNK
        if op == 'struct' and t.a[0][0] == 'adt' and t.a[0][1] == 'Result':
            return (t.a[0][3], self.ev(t.a[1][0], d) if t.a[1] else None)
        if op == 'struct':
            h = t.a[0]
            return ('S', h[1] + '::' + h[3] if h[0] == 'adt' and len(h) > 3 else h[0], tuple(self.ev(x, d) for x in t.a[1]))
        if op == 'upd':
            b = self.ev(t.a[0], d); i = t.a[1][0]
            if isinstance(b, tuple) and len(b) == 3 and b[0] == 'S' and isinstance(i, int) and i < len(b[2]):
                return ('S', b[1], b[2][:i] + (self.ev(t.a[2], d),) + b[2][i + 1:])
            return UNK
        if op == 'discr':
            x = self.ev(t.a[0], d)
            if isinstance(x, tuple) and x and x[0] in ('None', 'Some', 'Ok', 'Err'): return {'None': 0, 'Some': 1, 'Ok': 0, 'Err': 1}[x[0]]
            return UNK
        if op == 'proj':
            x = self.ev(t.a[0], d)
            if isinstance(x, tuple) and len(x) == 2 and x[0] == t.a[1]: return x[1]
            return UNK
        if op == 'bin':
            a = self.ev(t.a[1], d); b = self.ev(t.a[2], d)
            o = t.a[0].replace('Unchecked', '').replace('WithOverflow', '')
            if o == 'BitAnd' and (a is False or b is False or a == 0 and a is not UNK or b == 0 and b is not UNK): return False if isinstance(a, bool) or isinstance(b, bool) else 0
            if o == 'BitOr' and (a is True or b is True): return True
            if a is UNK or b is UNK: return UNK
            if num(a) and num(b) and o in OPS:
                try: return OPS[o](a, b)
                except Exception: return UNK
            if o in ('Eq', 'Ne') and isinstance(a, str) and isinstance(b, str): return OPS[o](a, b)
            return UNK
        if op == 'un':
            a = self.ev(t.a[1], d)
            if a is UNK: return UNK
            if t.a[0] == 'Not': return (not a) if isinstance(a, bool) or a in (0, 1) else UNK
            if t.a[0] == 'Neg' and num(a): return -a
            return UNK
        if op == 'phi' and self.strictphi: return UNK
        if op == 'either' or op == 'phi':
            r = UNK; first = True
            for x in self.leaves(t):
                v = self.ev(x, d)
                if v is UNK: return UNK
                if first: r = v; first = False
                elif r != v: return UNK
            return r
        if op == 'call': return self.call(t.a[0], [self.ev(x, d) for x in t.a[2:]])
        return UNK
    def leaves(self, t):
        out = []; seen = set(); st = [t]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if x in self.env: out.append(x)
            elif x.op == 'phi': st.extend(self.c.e.phi.get(x, ()))
            elif x.op == 'either': st.extend(x.a[0])
            elif x.op != 'undef': out.append(x)
        return out
    def call(self, n, a):
        s = n.rsplit('::', 1)[-1]
        if any(x is UNK for x in a) or not a: return UNK
        x = a[0]
        if s == 'is_none' and isinstance(x, tuple): return x[0] == 'None'
        if s == 'is_some' and isinstance(x, tuple): return x[0] == 'Some'
        if s == 'is_ok' and isinstance(x, tuple): return x[0] == 'Ok'
        if s == 'is_err' and isinstance(x, tuple): return x[0] == 'Err'
        if s == 'unwrap_or' and isinstance(x, tuple): return x[1] if x[0] == 'Some' else a[1]
        if s == 'is_nan' and num(x): return x != x
        if s == 'is_finite' and num(x): return x == x and abs(x) != float('inf')
        if s == 'is_sign_negative' and num(x): return math.copysign(1, x) < 0
        if s == 'is_sign_positive' and num(x): return math.copysign(1, x) > 0
        if s in ('eq', 'ne', 'lt', 'le', 'gt', 'ge') and len(a) == 2 and all(isinstance(y, (int, float, str, tuple)) for y in a):
            try: return OPS[s.capitalize()](a[0], a[1])
            except Exception: return UNK
        if s in ('min', 'integer_min') and len(a) == 2 and num(x) and num(a[1]): return min(a)
        if s in ('max', 'integer_max') and len(a) == 2 and num(x) and num(a[1]): return max(a)
        M = self.typemax
        if M is not None and len(a) == 2 and num(x) and num(a[1]):
            if s == 'saturating_add': return min(x + a[1], M)
            if s == 'saturating_sub': return max(x - a[1], 0)
            if s == 'wrapping_add': return (x + a[1]) % (M + 1)
            if s == 'wrapping_sub': return (x - a[1]) % (M + 1)
            if s == 'checked_add': return some(x + a[1]) if x + a[1] <= M else NONE
            if s == 'checked_sub': return some(x - a[1]) if x >= a[1] else NONE
            if s == 'overflowing_add': return ('S', 'tuple', ((x + a[1]) % (M + 1), x + a[1] > M))
            if s == 'overflowing_sub': return ('S', 'tuple', ((x - a[1]) % (M + 1), x < a[1]))
        if s in ('clamp',) and len(a) == 3 and all(map(num, a)): return min(max(a[0], a[1]), a[2])
        return UNK
    def feasible(self, facts):
        """Whether an edge with these facts can be taken."""
        for t, x in facts:
            w = self(t)
            if w is UNK: continue
            if isinstance(w, (str, tuple)): continue
            try: w = int(w)
            except Exception: continue
            if isinstance(x, tuple):
                if any(int(y) == w for y in x[1]): return False
            elif int(x) != w: return False
        return True
