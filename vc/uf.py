"""Uninterpreted specification functions and arithmetic helpers shared by executor and theories."""
import z3
from z3 import IntSort, BoolSort, ArraySort
from vals import *

I = IntSort(); B = BoolSort(); A = ArraySort(I, I)
def _F(n, *s): return z3.Function(n, *s)
TDIV = _F('tdiv', I, I, I)     # truncating quotient
TREM = _F('trem', I, I, I)     # truncating remainder
GCD = _F('gcd', I, I, I)       # non-negative gcd
DVD = _F('dvd', I, I, B)       # dvd(m, x): m divides x
IPOW = _F('ipow', I, I, I)     # a^b, b >= 0
FACT = _F('fact', I, I)
FIB = _F('fib', I, I)          # fib(-1) = 1, fib(0) = 0, fib(1) = 1, ...
PRODM = _F('prodm', A, I, I, I)      # prodm(m, i, j) = product of m[i..j)
HORN = _F('horn', A, A, I, I, I)     # horn(v, m, i, j) = sum_{i<=l<j} v[l] * prodm(m, i, l)
COPR = _F('pairwise', A, I, B)       # pairwise(m, n): m[0..n) pairwise coprime
SIEVE = _F('sieve', I, I, I)         # sieve(v, p): sum of 2..v surviving the sieve by all primes <= p
PRIME = _F('prime', I, B)
PSUM = _F('psum', I, I)              # sum of primes <= n
LV = _F('lv', I, I, I)               # lv(n, j): j-th floor quotient key of n, descending: n/1, n/2, .., n/r, n/r-1, .., 0
LIDX = _F('lidx', I, I, I)           # position of a key in that list
KEY = _F('key', I, I, B)             # k is one of the keys of n
PCOUNT = _F('pcount', I, I)          # number of primes <= n
ISQ = _F('isqrt', I, I)
# texts and algebraic values (by integer code)
STRLEN = _F('strlen', I, I)          # number of characters
UTF8LEN = _F('utf8len', I, I)        # number of bytes
CHARS = _F('chars', I, A)
STR1 = _F('str1', I, I)              # one-character text
CAT = _F('cat', I, I, I)
JOIN = _F('join', I, A, I, I, I)     # join(sep, parts, off, n)
SPLITA = _F('splita', I, I, A); SPLITN = _F('splitn', I, I, I)   # split(sep, text)
DEC = _F('dec', I, I)                # decimal text of an integer
SEQA = _F('seqa', I, A); SEQN = _F('seqn', I, I); CSEQ = _F('cseq', A, I, I, I)
AB = ArraySort(I, B)
MKEYS = _F('mkeys', I, A); MVALS = _F('mvals', I, A)      # keys and values of a map in ascending order of its keys
CAPF = _F('capitalized', I, I)
MAPD = _F('mapd', I, AB); MAPV = _F('mapv', I, A); CMAP = _F('cmap', AB, A, I)
FUNCS = {f.name(): f for f in (TDIV, TREM, GCD, DVD, IPOW, FACT, FIB, PRODM, HORN, COPR, SIEVE, PRIME, PSUM, PCOUNT, LV, LIDX, KEY, ISQ)}

def app(f, *args):
    a = []
    for x in args:
        x = simp(x) if is_int(x) else x
        a.append(zint(x) if is_int(x) else x)
    return f(*a)

def c_tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q
def c_trem(a, b): return a - b * c_tdiv(a, b)

def apps(e, f, seen=None, out=None):
    """all applications of function symbol f inside e"""
    if out is None: out = {}; seen = set()
    st = [e]
    nm = f.name() if not isinstance(f, str) else f
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().name() == nm and x.num_args() > 0: out[i] = x
            st += x.children()
    return out
def all_apps(es):
    """name -> list of applications of uninterpreted functions / selects / stores in a list of terms"""
    seen = set(); out = {}
    st = [e for e in es]
    while st:
        x = st.pop()
        if not isinstance(x, z3.ExprRef): continue
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0: out.setdefault(x.decl().name(), []).append(x)
            elif k == z3.Z3_OP_SELECT: out.setdefault('select', []).append(x)
            elif k == z3.Z3_OP_STORE: out.setdefault('store', []).append(x)
            elif k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD): out.setdefault('divmod', []).append(x)
            st += x.children()
        elif z3.is_quantifier(x): st.append(x.body())
    return out

# facts added where the code divides with truncation, calls gcd or takes a square root (Lean checks them: tdiv_def, gcd_def, isqrt_def)
def gcd_axioms(g, a, b):
    return [g >= 0, app(DVD, g, a), app(DVD, g, b), (g == 0) == z3.And(zint(a) == 0, zint(b) == 0)]
def sqrt_axioms(r, a): return [r >= 0, r * r <= zint(a), zint(a) < (r + 1) * (r + 1), r <= zint(a)]
def tdiv_facts(a, b, q, r):
    a = zint(a); b = zint(b)
    ab = z3.If(b >= 0, b, -b)
    return [z3.Implies(b != 0, z3.And(a == b * q + r, r < ab, -r < ab)),
            z3.Implies(a >= 0, r >= 0), z3.Implies(a <= 0, r <= 0),
            z3.Implies(z3.And(a >= 0, b > 0), z3.And(q >= 0, q <= a)),
            z3.Implies(z3.And(a >= 0, b > a), q == 0)]
