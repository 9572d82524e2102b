"""Values of the symbolic machine.  All values are immutable trees; leaves are python int/bool/str or z3 terms."""
import z3
from z3 import BoolRef, ArithRef, ArrayRef, ExprRef, IntSort, BoolSort

class Unsupported(Exception): pass

class Node:
    __slots__ = ()
    def kids(s): return ()
    def rebuild(s, k): return s
    def tag(s): return type(s).__name__

class Agg(Node):
    """struct / tuple / enum value / closure environment"""
    __slots__ = ('ty', 'var', 'fs')
    def __init__(s, ty, var, fs): s.ty = ty; s.var = var; s.fs = tuple(fs)
    def kids(s): return s.fs
    def rebuild(s, k): return Agg(s.ty, s.var, k)
    def tag(s): return ('Agg', s.ty, s.var, len(s.fs))
    def __repr__(s): return f'Agg{s.ty}.{s.var}{list(s.fs)}'
class Ref(Node):
    """shared reference: the referent cannot change while it lives, so it is the value itself"""
    __slots__ = ('v',)
    def __init__(s, v): s.v = v
    def kids(s): return (s.v,)
    def rebuild(s, k): return Ref(k[0])
    def __repr__(s): return f'&{s.v!r}'
class Mut(Node):
    """mutable reference / raw pointer to a place"""
    __slots__ = ('root', 'path')
    def __init__(s, root, path=()): s.root = root; s.path = tuple(path)
    def kids(s): return tuple(e[1] for e in s.path if isinstance(e, tuple))
    def rebuild(s, k):
        k = list(k); return Mut(s.root, tuple((e[0], k.pop(0)) if isinstance(e, tuple) else e for e in s.path))
    def tag(s): return ('Mut', s.root, tuple(e[0] if isinstance(e, tuple) else e for e in s.path))
    def __repr__(s): return f'&mut {s.root}{s.path}'
class BoxV(Node):
    __slots__ = ('v',)
    def __init__(s, v): s.v = v
    def kids(s): return (s.v,)
    def rebuild(s, k): return BoxV(k[0])
class SeqC(Node):
    """sequence with a concrete length"""
    __slots__ = ('xs', 'ety')
    def __init__(s, xs, ety=None): s.xs = tuple(xs); s.ety = ety
    def kids(s): return s.xs
    def rebuild(s, k): return SeqC(k, s.ety)
    def tag(s): return ('SeqC', len(s.xs))
    def __repr__(s): return f'seq{list(s.xs)}'
class SeqZ(Node):
    """sequence of integers: z3 array + offset + length"""
    __slots__ = ('arr', 'off', 'len', 'ety')
    def __init__(s, arr, off, ln, ety): s.arr = arr; s.off = off; s.len = ln; s.ety = ety
    def kids(s): return (s.arr, s.off, s.len)
    def rebuild(s, k): return SeqZ(k[0], k[1], k[2], s.ety)
    def tag(s): return 'SeqZ'
    def __repr__(s): return f'seq<{s.arr}+{s.off};{s.len}>'
class MapC(Node):
    """finite map with concrete keys"""
    __slots__ = ('d', 'kty', 'vty')
    def __init__(s, d, kty=None, vty=None): s.d = dict(d); s.kty = kty; s.vty = vty
    def kids(s): return tuple(s.d.values())
    def rebuild(s, k): return MapC(dict(zip(s.d.keys(), k)), s.kty, s.vty)
    def tag(s): return ('MapC', tuple(s.d.keys()))
    def __repr__(s): return f'map{s.d}'
class MapZ(Node):
    """map int -> int: domain array and value array"""
    __slots__ = ('dom', 'val', 'kty', 'vty')
    def __init__(s, dom, val, kty, vty): s.dom = dom; s.val = val; s.kty = kty; s.vty = vty
    def kids(s): return (s.dom, s.val)
    def rebuild(s, k): return MapZ(k[0], k[1], s.kty, s.vty)
    def tag(s): return 'MapZ'
    def __repr__(s): return f'map<{s.dom},{s.val}>'
class It(Node):
    """iterator: kind, integer cursors, sub-values"""
    __slots__ = ('kind', 'ints', 'subs', 'x')
    def __init__(s, kind, ints=(), subs=(), x=None): s.kind = kind; s.ints = tuple(ints); s.subs = tuple(subs); s.x = x
    def kids(s): return s.ints + s.subs
    def rebuild(s, k): return It(s.kind, k[:len(s.ints)], k[len(s.ints):], s.x)
    def tag(s): return ('It', s.kind, s.x, len(s.ints), len(s.subs))
    def __repr__(s): return f'It.{s.kind}{list(s.ints)}{list(s.subs)}'
    def up(s, ints=None, subs=None): return It(s.kind, s.ints if ints is None else ints, s.subs if subs is None else subs, s.x)
class FnV(Node):
    __slots__ = ('inst',)
    def __init__(s, inst): s.inst = inst
    def tag(s): return ('FnV', s.inst)
    def __repr__(s): return f'fn {s.inst}'
class ObjV(Node):
    """an arbitrary value of an algebraic type, known only by its (injective) integer code; adt.py selects its variant and fields"""
    __slots__ = ('e', 'ty')
    def __init__(s, e, ty): s.e = e; s.ty = ty
    def kids(s): return (s.e,)
    def rebuild(s, k): return ObjV(k[0], s.ty)
    def tag(s): return ('ObjV', s.ty)
    def __repr__(s): return f'obj<{s.e}>'
class StrV(Node):
    """an arbitrary text, known by its code"""
    __slots__ = ('e',)
    def __init__(s, e): s.e = e
    def kids(s): return (s.e,)
    def rebuild(s, k): return StrV(k[0])
    def __repr__(s): return f'text<{s.e}>'
class Opq(Node):
    """a value nothing looks into (format arguments, error payloads, ...)"""
    __slots__ = ('name',)
    def __init__(s, name): s.name = name
    def tag(s): return ('Opq', s.name)
    def __repr__(s): return f'opq {s.name}'
class Uninit(Node):
    def __repr__(s): return 'uninit'
UNINIT = Uninit()
UNIT = Agg(None, 0, ())

_n = [0]
def fresh(hint, sort='I'):
    _n[0] += 1
    nm = f'{hint}!{_n[0]}'
    if isinstance(sort, str): return z3.Int(nm) if sort == 'I' else z3.Bool(nm)
    return z3.Const(nm, sort)

def is_int(v): return (isinstance(v, int) and not isinstance(v, bool)) or isinstance(v, ArithRef)
def is_bool(v): return isinstance(v, (bool, BoolRef))
def is_conc(v): return isinstance(v, (int, bool, str))
def conc(v):
    """z3 numeral -> python int"""
    if isinstance(v, ArithRef) and z3.is_int_value(v): return v.as_long()
    if isinstance(v, BoolRef):
        if z3.is_true(v): return True
        if z3.is_false(v): return False
    return v
def simp(e):
    if isinstance(e, ExprRef): return conc(z3.simplify(e))
    return e
def zint(v): return z3.IntVal(v) if isinstance(v, int) else v
def zbool(v): return z3.BoolVal(v) if isinstance(v, bool) else v
def Not(a):
    if isinstance(a, bool): return not a
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def And(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs): return False
    return True if not xs else xs[0] if len(xs) == 1 else z3.And(*xs)
def Or(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs): return True
    return False if not xs else xs[0] if len(xs) == 1 else z3.Or(*xs)
def Implies(a, b):
    if a is True: return b
    if a is False or b is True: return True
    return z3.Implies(a, zbool(b))
def If(c, a, b):
    if isinstance(c, bool): return a if c else b
    if is_bool(a) and is_bool(b): return z3.If(c, zbool(a), zbool(b))
    if same(a, b): return a
    return z3.If(c, zint(a), zint(b))
def same(a, b):
    if isinstance(a, ExprRef) and isinstance(b, ExprRef): return a.eq(b)
    if isinstance(a, ExprRef) or isinstance(b, ExprRef): return False
    if isinstance(a, Node) or isinstance(b, Node):
        if not (isinstance(a, Node) and isinstance(b, Node)): return False
        if a is b: return True
        if a.tag() != b.tag(): return False
        return all(same(x, y) for x, y in zip(a.kids(), b.kids()))
    return type(a) == type(b) and a == b

class FA:
    """universally quantified fact: forall vars. body  (instantiated by the prover, never passed to the solver as is)"""
    def __init__(s, vars, body, name=''):
        s.vars = vars if isinstance(vars, (list, tuple)) else [vars]
        s.body = body; s.name = name
    def aid(s):
        """identity up to the names of the bound variables"""
        if getattr(s, '_aid', None) is None: s._aid = z3.simplify(s.inst([z3.Int(f'cv!{i}') for i in range(len(s.vars))]))
        return s._aid.get_id()
    def inst(s, ts): return z3.substitute(s.body, *[(v, zint(t)) for v, t in zip(s.vars, ts)])
    def __repr__(s): return f'forall {s.vars}. {s.body}'

def leaves(v, path=()):
    """all (path, leaf) pairs"""
    if isinstance(v, Node):
        for i, k in enumerate(v.kids()): yield from leaves(k, path + (i,))
    else: yield path, v
def put_leaf(v, path, x):
    if not path: return x
    k = list(v.kids()); k[path[0]] = put_leaf(k[path[0]], path[1:], x)
    return v.rebuild(tuple(k))

def lit_code(t): return int.from_bytes(b'\1' + t.encode(), 'big')
def code_lit(n):
    """text of a literal's code"""
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return b[1:].decode()
def scode(x):
    """integer code of a value that needs no defining facts"""
    while isinstance(x, (Ref, BoxV)): x = x.v
    if is_int(x): return x
    if isinstance(x, str): return lit_code(x)
    if isinstance(x, (StrV, ObjV)): return x.e
    return None
def is_text(v): return isinstance(v, (str, StrV))
def seq_to_z(s):
    if isinstance(s, SeqZ): return s
    xs = [scode(x) for x in s.xs]
    if any(x is None for x in xs): raise Unsupported('symbolic sequence of structured values')
    a = z3.K(z3.IntSort(), z3.IntVal(0))
    for i, x in enumerate(xs): a = z3.Store(a, i, zint(x))
    return SeqZ(a, 0, len(s.xs), s.ety)
def map_to_z(m):
    if isinstance(m, MapZ): return m
    d = z3.K(z3.IntSort(), z3.BoolVal(False)); a = z3.K(z3.IntSort(), z3.IntVal(0))
    for k, x in m.d.items():
        x = scode(x)
        if not is_int(k) or x is None: raise Unsupported('symbolic map of structured values')
        d = z3.Store(d, k, True); a = z3.Store(a, k, zint(x))
    return MapZ(d, a, m.kty, m.vty)
