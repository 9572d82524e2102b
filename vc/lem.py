"""Lemma language: every lemma is a z3 formula with parameters; the same object yields the solver instances and the Lean statement."""
import z3
from vals import *
from uf import *

LEMMAS = {}
class Lem:
    def __init__(s, name, params, hyps, concl):
        s.name = name; s.params = params; s.hyps = hyps; s.concl = concl
        LEMMAS[name] = s
    def inst(s, *args):
        sub = []
        for p, a in zip(s.params, args):
            a = zint(simp(a)) if is_int(a) else a
            sub.append((p, a))
        def S(e): return norm(z3.substitute(e, *sub))
        h = [conc(z3.simplify(S(zbool(x)))) for x in s.hyps]
        h = [x for x in h if x is not True]
        if any(x is False for x in h): return True
        c = S(s.concl)
        return c if not h else z3.Implies(z3.And(*h) if len(h) > 1 else h[0], c)
def norm(e):
    import solve
    return solve.norm_args(e)
def lem(name, params, hyps, concl):
    return Lem(name, params, hyps if isinstance(hyps, list) else [hyps], concl)
def iv(names): return [z3.Int(n) for n in names.split()]
def av(names): return [z3.Const(n, A) for n in names.split()]

# ------------------------------------------------------------------ Lean printing
LEANF = {'tdiv': 'Int.tdiv', 'trem': 'Int.tmod', 'gcd': 'S.gcd', 'ipow': 'S.ipow', 'fact': 'S.fact', 'fib': 'S.fib', 'prodm': 'S.prodm', 'horn': 'S.horn',
         'pairwise': 'S.pairwise', 'sieve': 'S.sieve', 'prime': 'S.prime', 'psum': 'S.psum', 'pcount': 'S.pcount', 'lv': 'S.lv', 'lidx': 'S.lidx', 'key': 'S.key', 'isqrt': 'S.isqrt', 'cat': 'S.cat', 'join': 'S.join'}
def lean(e):
    if z3.is_int_value(e):
        v = e.as_long(); return f'({v} : ℤ)' if v >= 0 else f'(-{-v} : ℤ)'
    if z3.is_true(e): return 'True'
    if z3.is_false(e): return 'False'
    d = e.decl(); k = d.kind(); c = e.children(); n = d.name()
    if z3.is_const(e): return n
    def bi(op): return '(' + f' {op} '.join(lean(x) for x in c) + ')'
    if k == z3.Z3_OP_ADD: return bi('+')
    if k == z3.Z3_OP_SUB: return bi('-')
    if k == z3.Z3_OP_MUL: return bi('*')
    if k == z3.Z3_OP_UMINUS: return f'(-{lean(c[0])})'
    if k == z3.Z3_OP_IDIV: return bi('/')
    if k == z3.Z3_OP_MOD: return bi('%')
    if k == z3.Z3_OP_EQ: return bi('↔' if z3.is_bool(c[0]) else '=')
    if k == z3.Z3_OP_DISTINCT and len(c) == 2: return bi('≠')
    if k == z3.Z3_OP_LE: return bi('≤')
    if k == z3.Z3_OP_LT: return bi('<')
    if k == z3.Z3_OP_GE: return bi('≥')
    if k == z3.Z3_OP_GT: return bi('>')
    if k == z3.Z3_OP_AND: return bi('∧')
    if k == z3.Z3_OP_OR: return bi('∨')
    if k == z3.Z3_OP_NOT: return f'(¬ {lean(c[0])})'
    if k == z3.Z3_OP_IMPLIES: return bi('→')
    if k == z3.Z3_OP_ITE: return f'(if {lean(c[0])} then {lean(c[1])} else {lean(c[2])})'
    if k == z3.Z3_OP_SELECT: return f'({lean(c[0])} {lean(c[1])})'
    if k == z3.Z3_OP_STORE: return f'(Function.update {lean(c[0])} {lean(c[1])} {lean(c[2])})'
    if n == 'dvd': return bi('∣')
    if n in LEANF: return '(' + LEANF[n] + ' ' + ' '.join(lean(x) for x in c) + ')'
    raise ValueError(n)
def statement(l):
    ps = ' '.join(f'({p.decl().name()} : {"ℤ → ℤ" if z3.is_array(p) else "ℤ"})' for p in l.params)
    hs = ''.join(f' → {lean(zbool(h))}'.replace(' → ', '', 1) + ' → ' for h in l.hyps)
    return f'theorem {l.name} {ps} : {hs}{lean(l.concl)}'
