"""The contracts of sm-algorithm: the postconditions are the property statements C01..C13."""
import z3
from vals import *
from uf import *
from spec import Contract, Case, DepContract
import theory, tables

U32 = (1 << 32) - 1; IMAX = (1 << 63) - 1; IMIN = -(1 << 63); U64 = (1 << 64) - 1

def power(ex, e):
    a, b = e['a'], e['b']
    zz = z3.And(zint(a) == 0, zint(b) == 0)
    return [Case('Indeterminate only for 0^0', ('Err', ('Indeterminate',)), zz),
            Case('OverFlow only for exponents beyond 32 bits', ('Err', ('OverFlow',)), z3.And(zint(b) > U32, zint(a) != 0, zint(a) != 1)),
            Case('value', ('Ok', 'I'), z3.Not(zz), lambda r: [zint(r) == app(IPOW, a, b)])]
power_iu = Contract('power_iu', ['a', 'b'], power, theories=[theory.Pow()])

def egcd(ex, e):
    a, b = e['a'], e['b']
    return [Case('gcd and Bezout coefficients', ('tuple', 'I', 'seq2'), True,
                 lambda g, x, y: [zint(g) == app(GCD, a, b), zint(g) >= 0, zint(a) * x + zint(b) * y == g])]
extended_gcd2 = Contract('extended_gcd2', ['a', 'b'], egcd, theories=[theory.Div()])

def minv(ex, e):
    a, m = e['a'], e['m']; g = app(GCD, a, m)
    return [Case('inverse', ('Some', 'I'), g == 1, lambda r: [DVD(zint(m), zint(a) * r - 1)]),
            Case('no inverse', ('None',), g != 1)]
modulo_inverse = Contract('modulo_inverse', ['a', 'm'], minv, theories=[theory.Div()])

def mdiv(ex, e):
    a, b, m = e['a'], e['b'], e['m']; s = DVD(app(GCD, b, m), zint(a))
    return [Case('quotient', ('Some', 'I'), s, lambda r: [DVD(zint(m), zint(b) * r - a)]),
            Case('no quotient', ('None',), z3.Not(s))]
modulo_division = Contract('modulo_division', ['a', 'b', 'm'], mdiv, pre=lambda ex, e: [('modulus is not zero', zint(e['m']) != 0)], theories=[theory.Div()])

def cop(ex, e):
    return [Case('coprime', 'B', True, lambda r: [zbool(r) == (app(GCD, e['x'], e['y']) == 1)])]
is_coprime = Contract('is_coprime', ['x', 'y'], cop, theories=[theory.Div()])

def crt_pre(ex, e):
    m = e['m']; kk = fresh('kk')
    return [('moduli are not zero', FA(kk, z3.Implies(z3.And(0 <= kk, kk < zint(m.len)), z3.Select(m.arr, kk) != 0), 'moduli'))]
def crt(ex, e):
    u, m = e['u'], e['m']
    good = z3.And(zint(u.len) == m.len, app(COPR, m.arr, m.len))
    def facts(r):
        kk = fresh('kk')
        return [FA(kk, z3.Implies(z3.And(0 <= kk, kk < zint(m.len)), DVD(z3.Select(m.arr, kk), zint(r) - z3.Select(u.arr, kk))), 'congruences')]
    return [Case('answer', ('Some', 'I'), good, facts), Case('no answer', ('None',), z3.Not(good))]
chinese_remainder = Contract('chinese_remainder', ['u', 'm'], crt, pre=crt_pre, theories=[theory.Div(), theory.Crt()])

def factf(ex, e): return [Case('factorial', 'I', True, lambda r: [zint(r) == app(FACT, e['n'])])]
factorial_fold_u = Contract('factorial_fold_u', ['n'], factf, theories=[theory.Fact()])
def facti(ex, e):
    n = zint(e['n'])
    return [Case('ComplexInfinity for negative n', ('Err', ('ComplexInfinity',)), n < 0), Case('OverFlow beyond a machine index', ('Err', ('OverFlow',)), n > IMAX),
            Case('value', ('Ok', 'I'), z3.And(n >= 0, n <= IMAX), lambda r: [zint(r) == app(FACT, n)])]
factorial_i = Contract('factorial_i', ['n'], facti, theories=[theory.Fact()])

def fibu(ex, e): return [Case('Fibonacci number', 'I', True, lambda r: [zint(r) == app(FIB, e['n'])])]
fibonacci_fold_u = Contract('fibonacci_fold_u', ['n'], fibu, theories=[theory.Fib()])
fibonacci_fast_u = Contract('fibonacci_fast_u', ['n'], fibu, theories=[theory.Fib()])
def fibi(ex, e):
    n = zint(e['n'])
    return [Case('OverFlow beyond a machine word', ('Err', ('OverFlow',)), z3.Or(n > IMAX, n < IMIN)),
            Case('value', ('Ok', 'I'), z3.And(n <= IMAX, n >= IMIN),
                 lambda r: [zint(r) == z3.If(n >= 0, app(FIB, n), z3.If(n % 2 == 0, -app(FIB, -n), app(FIB, -n)))])]
fibonacci_i = Contract('fibonacci_i', ['n'], fibi, theories=[theory.Fib()])

def pcnt(ex, e):
    n = zint(e['n']); tab = z3.Or(*[n == 10 ** k for k in range(len(tables.A006880))])
    return [Case('Undefined for negative n', ('Err', ('Undefined',)), n < 0), Case('Unimplemented for untabulated n', ('Err', ('Unimplemented',)), z3.And(n >= 0, z3.Not(tab))),
            Case('value', ('Ok', 'I'), n >= 0, lambda r: [zint(r) == app(PCOUNT, n)])]
prime_count_i = Contract('prime_count_i', ['n'], pcnt, theories=[theory.Tables()])
def psumi(ex, e):
    n = zint(e['n']); tab = z3.Or(*[n == 10 ** k for k in range(len(tables.A046731))])
    return [Case('Undefined for negative n', ('Err', ('Undefined',)), n < 0), Case('Unimplemented for untabulated n beyond 64 bits', ('Err', ('Unimplemented',)), z3.And(n > U64, z3.Not(tab))),
            Case('value', ('Ok', 'I'), n >= 0, lambda r: [zint(r) == app(PSUM, n)])]
prime_sum_i = Contract('prime_sum_i', ['n'], psumi, theories=[theory.Tables()])
def psum(ex, e): return [Case('prime sum', 'I', True, lambda r: [zint(r) == app(PSUM, e['n'])])]
prime_sum_u128 = Contract('prime_sum_u128', ['n'], psum, theories=[theory.Sieve()])
prime_sum_u64 = Contract('prime_sum_u64', ['n'], psum, pre=lambda ex, e: [('the prime sum fits 64 bits', app(PSUM, e['n']) <= U64)], theories=[theory.Tables()])

ALL = {c.fname: c for c in (power_iu, extended_gcd2, modulo_inverse, modulo_division, is_coprime, chinese_remainder, factorial_fold_u, factorial_i,
                            fibonacci_fold_u, fibonacci_fast_u, fibonacci_i, prime_count_i, prime_sum_i, prime_sum_u64, prime_sum_u128)}

# ------------------------------------------------------------------ dependencies whose bodies are checked against the contract their model assumes
def degcd(ex, e):
    a, b = e['a'], e['b']
    return [Case('gcd and Bezout coefficients', ('tuple', 'I', 'I', 'I'), True, lambda g, x, y: [zint(g) == app(GCD, a, b), zint(a) * x + zint(b) * y == g])]
def dpow(ex, e): return [Case('power', 'I', True, lambda r: [zint(r) == app(IPOW, e['a'], e['b'])])]
def big_parts(ex, st, fn):
    """a big integer as its sign and magnitude, one symbolic state per sign"""
    ref = ex.T[fn.locals[1]]; big = ref['elem']; sg = ex.T[big]['variants'][0]['fields'][0][1]
    for k, nm in enumerate(v['name'] for v in ex.T[sg]['variants']):
        t = st.copy(); mag = z3.Int('mag_a')
        t.add(mag == 0 if nm == 'NoSign' else mag >= 1)
        b = z3.Int('b'); t.add(*ex.range_facts(b, fn.locals[2]))
        yield t, [Ref(Agg(big, 0, (Agg(sg, k, ()), mag))), b], {'a': -mag if nm == 'Minus' else mag, 'b': b}
DEPS = {d.fname: d for d in (
    DepContract('<&num::BigUint as num::traits::Pow<u32>>::pow', ['a', 'b'], dpow, theories=[theory.Pow()]),
    DepContract('<&num::BigInt as num::traits::Pow<u32>>::pow', ['a', 'b'], dpow, theories=[theory.Pow()], starts=big_parts),
    DepContract('<num::BigInt as num::Integer>::extended_gcd', ['a', 'b'], degcd, theories=[theory.Egcd()]))}
def dependency(prog, fid):
    d = DEPS.get(fid)
    return d if d is not None and d.lookup(prog) is not None else None
