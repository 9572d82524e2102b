"""Concrete runs of the same MIR: they only filter invariant candidates (a false candidate is dropped early); nothing is proved here."""
import math
import z3
from vals import *
from uf import *

class Unknown(Exception): pass
class CArr:
    """concrete array: dict + default"""
    __slots__ = ('d', 'df')
    def __init__(s, d, df=0): s.d = d; s.df = df
    def get(s, i):
        r = s.d.get(i, s.df)
        if r is None: raise Unknown
        return r

_memo = {}
def fibc(n):
    if n == -1: return 1
    if n < 0: return 0
    a, b = 0, 1
    for _ in range(n): a, b = b, a + b
    return a
def primes_upto(n): return [q for q in range(2, n + 1) if all(q % d for d in range(2, math.isqrt(q) + 1))]
def sievec(v, p):
    k = ('s', v, p)
    if k not in _memo: _memo[k] = sum(x for x in range(2, v + 1) if all(x == q or x % q for q in primes_upto(min(p, v))))
    return _memo[k]
def psumc(n): return sum(primes_upto(n))
def isprime(n): return n >= 2 and all(n % d for d in range(2, math.isqrt(n) + 1))
def prodc(m, i, j):
    r = 1
    if j - i > 300: raise Unknown
    for k in range(i, j): r *= m.get(k)
    return r
def hornc(v, m, i, j):
    r = 0
    if j - i > 300: raise Unknown
    for k in range(j - 1, i - 1, -1): r = r * m.get(k) + v.get(k)
    return r
def coprc(m, n): return n <= 1 or all(math.gcd(m.get(a), m.get(b)) == 1 for a in range(n) for b in range(a))
def ipowc(a, b):
    if b < 0 or b > 4000: raise Unknown
    return a ** b
def factc(n):
    if n > 2000: raise Unknown
    return math.factorial(n) if n > 0 else 1
def lvc(n, j):
    r = math.isqrt(n) if n > 0 else 0
    return n // (j + 1) if 0 <= j < r else n // r - 1 - (j - r) if r and 0 <= j < r + n // r else -1
def lidxc(n, k):
    r = math.isqrt(n) if n > 0 else 0
    if not r or k < 0: return -1
    return r + n // r - 1 - k if k < n // r else n // k - 1
def keyc(n, k): return n > 0 and k >= 0 and lvc(n, lidxc(n, k)) == k
FN = {'lv': lvc, 'lidx': lidxc, 'key': keyc,
      'tdiv': lambda a, b: c_tdiv(a, b) if b else 0, 'trem': lambda a, b: c_trem(a, b) if b else a, 'gcd': math.gcd, 'dvd': lambda m, x: (x % m == 0) if m else x == 0,
      'ipow': ipowc, 'fact': factc, 'fib': fibc, 'prodm': prodc, 'horn': hornc, 'pairwise': coprc, 'sieve': sievec, 'prime': isprime, 'psum': psumc, 'pcount': lambda n: len(primes_upto(n)), 'isqrt': math.isqrt}

def ev(e, bind, memo):
    i = e.get_id()
    if i in memo: return memo[i]
    r = ev_(e, bind, memo); memo[i] = r
    return r
def ev_(e, bind, memo):
    if z3.is_int_value(e): return e.as_long()
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    if not z3.is_app(e): raise Unknown
    d = e.decl(); k = d.kind(); ch = e.children()
    if not ch:
        n = d.name()
        if n in bind: return bind[n]
        raise Unknown
    if k == z3.Z3_OP_ITE: return ev(ch[1] if ev(ch[0], bind, memo) else ch[2], bind, memo)
    if k == z3.Z3_OP_IMPLIES: return (not ev(ch[0], bind, memo)) or ev(ch[1], bind, memo)
    if k == z3.Z3_OP_AND: return all(ev(c, bind, memo) for c in ch)
    if k == z3.Z3_OP_OR: return any(ev(c, bind, memo) for c in ch)
    a = [ev(c, bind, memo) for c in ch]
    if k == z3.Z3_OP_ADD: return sum(a)
    if k == z3.Z3_OP_SUB:
        r = a[0]
        for x in a[1:]: r -= x
        return r
    if k == z3.Z3_OP_MUL: return math.prod(a)
    if k == z3.Z3_OP_UMINUS: return -a[0]
    if k == z3.Z3_OP_IDIV:
        if a[1] == 0: raise Unknown
        return a[0] // a[1] if a[1] > 0 else -(a[0] // -a[1])
    if k == z3.Z3_OP_MOD:
        if a[1] == 0: raise Unknown
        return a[0] % abs(a[1])
    if k == z3.Z3_OP_EQ:
        if isinstance(a[0], CArr): raise Unknown
        return a[0] == a[1]
    if k == z3.Z3_OP_LE: return a[0] <= a[1]
    if k == z3.Z3_OP_LT: return a[0] < a[1]
    if k == z3.Z3_OP_GE: return a[0] >= a[1]
    if k == z3.Z3_OP_GT: return a[0] > a[1]
    if k == z3.Z3_OP_NOT: return not a[0]
    if k == z3.Z3_OP_SELECT: return a[0].get(a[1])
    if k == z3.Z3_OP_STORE:
        q = dict(a[0].d); q[a[1]] = a[2]; return CArr(q, a[0].df)
    if k == z3.Z3_OP_CONST_ARRAY: return CArr({}, a[0])
    f = FN.get(d.name())
    if f is None: raise Unknown
    return f(*a)
def holds(f, bind):
    """True / False / None (cannot tell) of a formula or quantified fact"""
    if isinstance(f, bool): return f
    try:
        if isinstance(f, FA):
            dom = list(range(-1, 14)) + list(bind.get('!dom', ()))
            if len(f.vars) == 1:
                for x in sorted(set(dom)):
                    b = dict(bind); b[f.vars[0].decl().name()] = x
                    if not ev(f.body, b, {}): return False
                return True
            if len(f.vars) == 2:
                for x in range(0, 10):
                    for y in range(0, 10):
                        b = dict(bind); b[f.vars[0].decl().name()] = x; b[f.vars[1].decl().name()] = y
                        if not ev(f.body, b, {}): return False
                return True
            return None
        return bool(ev(f, bind, {}))
    except (Unknown, KeyError, TypeError, AttributeError, OverflowError): return None

def carr(a):
    """z3 array literal / python sequence to CArr"""
    return a

class Tracer:
    def __init__(s, cap=60): s.rec = {}; s.cap = cap; s.bind = {}
    @staticmethod
    def key(st): return tuple((f.fn.id, f.bb) for f in st.frames)
    def snap(s, ex, st):
        k = Tracer.key(st)
        l = s.rec.setdefault(k, [])
        n = sum(1 for b, _, _ in l if b is s.bind)
        if n >= 14 or len(l) >= s.cap * 4: return
        idx = {f.id: i for i, f in enumerate(st.frames)}
        fr = [dict(f.L) for f in st.frames]
        l.append((s.bind, fr, dict(st.heap)))
def views(tracer, loop, sh):
    """concrete views of the loop head for shape sh: [(view, bindings)]"""
    out = []
    st = loop.st0
    k = Tracer.key(st)
    ids = [f.id for f in st.frames]
    hroots = sorted(r[1] for r in sh.tmpl if r[0] == 'H')
    for bind, fr, heap in tracer.rec.get(k, []):
        hs = sorted(heap)
        if len(hs) != len(hroots): 
            if len(hs) < len(hroots): continue
        hm = dict(zip(hroots, hs))
        vw = {}; ok = True
        for r in sh.tmpl:
            if r[0] == 'L':
                i = ids.index(r[1])
                if i >= len(fr) or r[2] not in fr[i]: ok = False; break
                v = fr[i][r[2]]
            else: v = heap[hm[r[1]]]
            if not compat(sh.tmpl[r], v): ok = False; break
            vw[r] = loop.convert(sh.tmpl[r], v)
        if not ok: continue
        b = dict(bind); dom = set()
        for r in sh.head: collect(sh.head[r], vw[r], b, dom)
        b['!dom'] = dom
        out.append((vw, b))
        if len(out) >= tracer.cap: break
    return out
def compat(t, v):
    if isinstance(t, (SeqC, SeqZ)) and isinstance(v, (SeqC, SeqZ)):
        return isinstance(t, SeqZ) or len(t.xs) == len(v.xs)
    if isinstance(t, (MapC, MapZ)) and isinstance(v, (MapC, MapZ)): return True
    if isinstance(t, Mut) and isinstance(v, Mut): return True
    if isinstance(t, Node) != isinstance(v, Node): return False
    if isinstance(t, Node):
        if type(t) != type(v): return False
        if isinstance(t, Agg) and (t.var != v.var or len(t.fs) != len(v.fs)): return False
        if isinstance(t, It) and (t.kind != v.kind or len(t.ints) != len(v.ints) or len(t.subs) != len(v.subs)): return False
        return len(t.kids()) == len(v.kids()) and all(compat(a, b) for a, b in zip(t.kids(), v.kids()))
    return True
def collect(t, v, b, dom, seq=False):
    """bind the symbolic leaves of t to the concrete leaves of v"""
    if isinstance(t, Node) and isinstance(v, Node):
        if isinstance(v, (MapZ,)) and isinstance(t, MapZ):
            d = ev(v.dom, {}, {}); a = ev(v.val, {}, {})
            dom |= set(d.d)
        tk, vk = t.kids(), v.kids()
        if len(tk) == len(vk):
            for x, y in zip(tk, vk): collect(x, y, b, dom, isinstance(t, SeqZ))
        return
    if isinstance(t, z3.ExprRef) and z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        if isinstance(v, z3.ExprRef):
            try: v = ev(v, {}, {})
            except Unknown: return
            if seq and isinstance(v, CArr): v = CArr(v.d, None)
        b.setdefault(t.decl().name(), v)
    elif isinstance(t, z3.ArithRef) and z3.is_add(t) and isinstance(v, int) and not isinstance(v, bool):
        cs = [c for c in t.children() if z3.is_int_value(c)]; vs = [c for c in t.children() if not z3.is_int_value(c)]
        if len(vs) == 1 and z3.is_const(vs[0]) and vs[0].decl().name() not in b: b[vs[0].decl().name()] = v - sum(c.as_long() for c in cs)
def conc_arg(ex, ty, x, nme, bind):
    """python input -> concrete argument value, plus bindings of the symbolic argument names"""
    T = ex.T; t = T[ty]
    if t['k'] == 'ref': return Ref(conc_arg(ex, t['elem'], x, nme, bind))
    if t['k'] == 'slice' or (t['k'] == 'adt' and t.get('def', '').endswith('::Vec')):
        bind[nme + '_len'] = len(x); bind[nme] = CArr(dict(enumerate(x)))
        return SeqC(x, t['elem'] if t['k'] == 'slice' else t['args'][0])
    bind[nme] = x
    return x
def run(prog, fn, params, inputs, tracer=None, deadline=None, maxstep=60000):
    """concrete execution of fn on python inputs -> ('ok', value, state) | ('panic', why) | ('unsupported', why)"""
    import exec as X
    ex = X.Exec(prog, None, concrete=True); ex.MAXSTEP = maxstep; ex.tracer = tracer; ex.deadline = deadline
    bind = {}
    st = X.State()
    try:
        args = [conc_arg(ex, fn.locals[i + 1], x, nme, bind) for i, (x, nme) in enumerate(zip(inputs, params))]
        if tracer is not None: tracer.bind = bind
        ex.push(st, fn, args, None, None)
        outs = ex.explore([st], 1, None)
        if len(outs) != 1: return ('panic', 'no result')
        return ('ok', outs[0].ret, ex)
    except X.ConcretePanic as e: return ('panic', str(e))
    except Unsupported as e: return ('unsupported', str(e))
    except RecursionError: return ('unsupported', 'recursion')
