"""Independent oracle and input generator for the compiled real functions of sm_algorithm (replay side; nothing is proved here)."""
import itertools, math, os, random, selectors, subprocess, sys, time

ERRS = ('OverFlow', 'ComplexInfinity', 'IOError', 'Unimplemented', 'Indeterminate', 'Undefined')
U32 = (1 << 32) - 1; IMAX = (1 << 63) - 1; IMIN = -(1 << 63); U64 = (1 << 64) - 1

# ---------------------------------------------------------------- oracles
def hx(x): return format(x, 'x')
def unhx(s): return int(s, 16)
_pr = None
def primes(n):
    s = bytearray([1]) * (n + 1); s[:2] = b'\0\0'
    for i in range(2, math.isqrt(n) + 1):
        if s[i]: s[i*i::i] = bytes(len(range(i*i, n + 1, i)))
    return [i for i in range(n + 1) if s[i]]
_ps = None
def psum_small(n):
    global _ps
    if _ps is None:
        L = 2000000; s = primes(L); _ps = [0] * (L + 1)
        for q in s: _ps[q] = q
        for i in range(1, L + 1): _ps[i] += _ps[i-1]
    return _ps[n] if n < len(_ps) else None
PSUM = {}     # filled from the tables below
def lucy(n):
    """sum of primes <= n with exact integers"""
    r = math.isqrt(n)
    import numpy as np
    if n < 4: return [0, 0, 2, 5][n]
    V = [n // i for i in range(1, r + 1)]; V += list(range(V[-1] - 1, 0, -1))
    S = {v: v * (v + 1) // 2 - 1 for v in V}
    for p in range(2, r + 1):
        if S[p] > S[p - 1]:
            sp = S[p - 1]; p2 = p * p
            for v in V:
                if v < p2: break
                S[v] -= p * (S[v // p] - sp)
    return S[n]
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vc'))
from tables import A046731, A006880
_lc = {}
def psum(n):
    if n < 2: return 0
    s = psum_small(n)
    if s is not None: return s
    l = len(str(n)) - 1
    if n == 10 ** l and l < len(A046731): return A046731[l]
    if n not in _lc: _lc[n] = lucy(n)
    return _lc[n]
_pc = None
def pcount(n):
    global _pc
    if _pc is None:
        _pc = [0] * 2000001
        for q in primes(2000000): _pc[q] = 1
        for i in range(1, 2000001): _pc[i] += _pc[i-1]
    if n < 2: return 0
    if n <= 2000000: return _pc[n]
    l = len(str(n)) - 1
    if n == 10 ** l and l < len(A006880): return A006880[l]
    return None
def fib(n):
    def f(k):
        if k == 0: return 0, 1
        a, b = f(k >> 1); c = a * (2 * b - a); d = a * a + b * b
        return (d, c + d) if k & 1 else (c, d)
    return f(n)[0]
def parse(o):
    w = o.split(' ')
    if w[0] == 'panic': return ('panic', o[6:])
    if w[0] == 'crash' or w[0] == 'timeout': return (w[0], o)
    if w[0] in ('ok', 'some'): return (w[0], unhx(w[1]))
    if w[0] == 'err': return ('err', w[1])
    return tuple(w)
_fc = {}
def fact(n):
    if n not in _fc: _fc[n] = math.factorial(n)
    return _fc[n]
def solvable(m): return all(math.gcd(a, b) == 1 for a, b in itertools.combinations(m, 2))

def check(cmd, a, o, prop=None):
    """None when the answer o is what the property demands, else a reason"""
    if cmd == 'modulo_division' and a[2] == 0: return None          # outside the property
    if cmd == 'chinese_remainder' and any(q == 0 for q in a[1]): return None
    r = parse(o)
    if r[0] == 'timeout' and cmd.startswith('prime_') and a[0] > 10 ** 8: return None     # slow by nature
    if r[0] == 'crash' and cmd in ('prime_sum_i', 'prime_sum_u64') and 2 * 10 ** 10 < a[0] <= U64: return None            # out of memory by nature
    if r[0] in ('panic', 'crash', 'timeout'): return f'{r[0]}: {r[1]}'
    if cmd == 'power_iu':
        x, b = a
        if x == 0 and b == 0: return None if r == ('err', 'Indeterminate') else '0^0 is indeterminate'
        if r[0] == 'err': return None if r[1] == 'OverFlow' and b > U32 and x not in (0, 1) else f'error {r[1]} not allowed here'
        if r[0] != 'ok': return 'bad result'
        if x in (0, 1, -1) or b <= 5000000: e = (x ** b if abs(x) > 1 else (1 if b == 0 else x if x >= 0 else (1 if b % 2 == 0 else -1)))
        else: return 'value for an exponent beyond 32 bits'
        return None if r[1] == e else 'wrong power'
    if cmd == 'extended_gcd2':
        x, y = a; v = [unhx(t) for t in o.split(' ')]
        if len(v) != 3: return 'not exactly two coefficients'
        if v[0] != math.gcd(x, y): return 'wrong gcd'
        return None if x * v[1] + y * v[2] == v[0] else 'Bezout identity fails'
    if cmd == 'modulo_inverse':
        x, m = a; g = math.gcd(x, m)
        if g != 1: return None if r == ('none',) else 'inverse for a non-invertible number'
        if r[0] != 'some': return 'no inverse although one exists'
        d = x * r[1] - 1
        return None if (d % m == 0 if m else d == 0) else 'not an inverse'
    if cmd == 'modulo_division':
        x, b, m = a; g = math.gcd(b, m)
        if x % g: return None if r == ('none',) else 'quotient for an unsolvable congruence'
        if r[0] != 'some': return 'no quotient although the congruence is solvable'
        return None if (b * r[1] - x) % m == 0 else 'not a solution'
    if cmd == 'is_coprime': return None if o == ('true' if math.gcd(*a) == 1 else 'false') else 'wrong coprimality'
    if cmd == 'chinese_remainder':
        u, m = a
        good = len(u) == len(m) and solvable(m)
        if r[0] == 'some':
            if prop != 'C07' and len(u) == len(m):
                for i, (p, q) in enumerate(zip(u, m)):
                    if (r[1] - p) % q: return f'congruence {i} is not satisfied'
            if prop != 'C06' and not good: return 'answer for a system without coprime moduli / equal lengths'
            return None
        if r[0] == 'none': return 'no answer for a coprime system' if prop != 'C06' and good else None
        return 'bad result'
    if cmd == 'factorial_fold_u': return None if unhx(o) == fact(a[0]) else 'wrong factorial'
    if cmd == 'factorial_i':
        n = a[0]
        if n < 0: return None if r == ('err', 'ComplexInfinity') else 'negative argument is ComplexInfinity'
        if n > IMAX: return None if r == ('err', 'OverFlow') else 'argument beyond a machine index is OverFlow'
        return None if r == ('ok', fact(n)) else 'wrong factorial'
    if cmd in ('fibonacci_fold_u', 'fibonacci_fast_u'): return None if unhx(o) == fib(a[0]) else 'wrong Fibonacci number'
    if cmd == 'fibonacci_i':
        n = a[0]
        if not IMIN <= n <= IMAX: return None if r == ('err', 'OverFlow') else 'argument beyond a machine word is OverFlow'
        e = fib(abs(n)) * (-1 if n < 0 and n % 2 == 0 else 1)
        return None if r == ('ok', e) else 'wrong Fibonacci number'
    if cmd == 'prime_sum_u64':
        n = a[0]; e = psum(n)
        return None if e > U64 or unhx(o) == e else 'wrong prime sum'
    if cmd == 'prime_sum_i':
        n = a[0]
        if n < 0: return None if r == ('err', 'Undefined') else 'negative argument is undefined'
        if n > U64:
            l = len(str(n)) - 1
            if n == 10 ** l and l < len(A046731):
                return None if r == ('ok', A046731[l]) else 'tabulated power of ten must answer'
            return None if r == ('err', 'Unimplemented') else 'argument beyond 64 bits is unimplemented'
        return None if r == ('ok', psum(n)) else 'wrong prime sum'
    if cmd == 'prime_count_i':
        n = a[0]
        if n < 0: return None if r == ('err', 'Undefined') else 'negative argument is undefined'
        l = len(str(n)) - 1 if n > 0 else 0
        if n > 0 and n == 10 ** l and l < len(A006880): return None if r == ('ok', A006880[l]) else 'tabulated power of ten must answer its true count'
        if r[0] == 'ok':
            e = pcount(n)
            return None if e is not None and e == r[1] else 'answer is not the true count' if e is not None else f'unexpected answer {r[1]} for an untabulated argument'
        return None if r == ('err', 'Unimplemented') else 'untabulated argument is unimplemented'
    raise KeyError(cmd)

# ---------------------------------------------------------------- inputs
def bounds():
    b = {0}
    for e in (7, 8, 15, 16, 31, 32, 33, 62, 63, 64, 65, 127, 128):
        for d in (-2, -1, 0, 1, 2): b.add((1 << e) + d)
    for k in range(1, 30):
        for d in (-1, 0, 1): b.add(10 ** k + d)
    return sorted(b | {-x for x in b})
def around(ints):
    out = []
    for c in ints:
        for d in (0, 1, -1, 2, -2): out.append(c + d)
        out.append(-c)
    return out
def coprime_system(R, n, big=False):
    pool = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 10007, 65537, (1 << 31) - 1, (1 << 61) - 1]
    R.shuffle(pool); m = []
    i = 0
    for _ in range(n):
        k = R.choice((1, 1, 1, 2, 3)); q = 1
        for _ in range(k):
            if i < len(pool): q *= pool[i] ** R.choice((1, 1, 1, 2, 3)) if pool[i] < 100 else pool[i]; i += 1
        if R.random() < .08: q = 1
        m.append(q * R.choice((1, 1, 1, -1)))
    return m
def rint(R):
    k = R.choice((4, 8, 16, 31, 32, 40, 63, 64, 65, 100, 200))
    return R.choice((1, -1)) * R.getrandbits(k)
def product(xs, k): return itertools.product(xs, repeat=k)
def cases(prop, R, extra, deep):
    """yield (cmd, args); extra: integers from the changed MIR and from solver models.  Never ends early on its own: the caller has a budget."""
    B = bounds(); E = around(extra)
    small = range(-7, 8)
    def pairs(cmd, nat2=False):
        for a, b in product(small, 2): yield cmd, (a, b)
        for a in E:
            for b in list(small) + E[:40]: yield cmd, (a, b); yield cmd, (b, a)
        for a in B:
            for b in (0, 1, -1, 2, -2, 3, 6): yield cmd, (a, b); yield cmd, (b, a)
        for a, b in product(range(-40, 41), 2): yield cmd, (a, b)
        while True:
            g = rint(R) if R.random() < .4 else 1
            yield cmd, (rint(R) * g, rint(R) * g)
            yield cmd, (R.randint(-500, 500), R.randint(-500, 500))
            yield cmd, (R.choice(B), R.choice(B))
            x = rint(R); yield cmd, (x, x * R.randint(-9, 9) + R.choice((-1, 0, 1)))
    if prop == 'C01':
        def ok(a, b): return 0 <= b and (a in (0, 1, -1) or b > U32 or b * max(1, abs(a).bit_length()) <= 3000000)
        def gen():
            for b in range(0, 20):
                for a in range(-20, 21): yield a, b
            for a in (-1, 0, 1, 2, -2, 3, 10):
                for b in B: yield a, b
            for a in E:
                for b in list(range(0, 9)) + E: yield a, b
            for b in E:
                for a in (-3, -2, -1, 0, 1, 2, 3, 7): yield a, b
            for a in B:
                for b in range(0, 12): yield a, b
            for b in range(0, 600): yield R.choice((2, -2, 3, -3, 5)), b
            while True:
                yield rint(R), R.randint(0, 300)
                yield R.choice((0, 1, -1, 2)), R.getrandbits(R.choice((31, 32, 33, 40, 64, 70)))
                yield R.randint(-1000, 1000), R.randint(0, 2000)
        for a, b in gen():
            if ok(a, b): yield 'power_iu', (a, b)
    elif prop == 'C02': yield from pairs('extended_gcd2')
    elif prop == 'C03': yield from pairs('modulo_inverse')
    elif prop == 'C05': yield from pairs('is_coprime')
    elif prop == 'C04':
        for t in product(range(-6, 7), 3): yield 'modulo_division', t
        for e in E:
            for x, y in product((-3, -2, -1, 0, 1, 2, 3, 6), 2):
                for t in ((e, x, y), (x, e, y), (x, y, e)): yield 'modulo_division', t
        for e in B:
            for x, y in product((-2, 0, 1, 6), 2):
                for t in ((e, x, y), (x, e, y), (x, y, e)): yield 'modulo_division', t
        for _ in range(4000): yield 'modulo_division', tuple(R.randint(-60, 60) for _ in range(3))
        while True:
            g = rint(R) if R.random() < .5 else R.randint(1, 30)
            yield 'modulo_division', (rint(R) * g, rint(R) * g, rint(R) * g)
            yield 'modulo_division', (rint(R), rint(R), rint(R))
            yield 'modulo_division', tuple(R.choice(B + E) for _ in range(3))
            yield 'modulo_division', tuple(R.randint(-300, 300) for _ in range(3))
    elif prop in ('C06', 'C07'):
        yield 'chinese_remainder', ((), ())
        for u, m in product(range(-6, 7), 2):
            if m: yield 'chinese_remainder', ((u,), (m,))
        for m in product([q for q in range(-6, 7) if q], 2):
            for u in product((-7, -1, 0, 2, 5), 2): yield 'chinese_remainder', (u, m)
        for a, b in product(range(0, 4), 2):
            if a != b: yield 'chinese_remainder', (tuple(range(1, a + 1)), tuple([2, 3, 5][:b]))
        for e in E:
            for u, m in (((e,), (7,)), ((3,), (e,)), ((e, 1), (5, 9)), ((1, e), (5, 9)), ((2, 3), (e, 7)), ((2, 3), (7, e)), ((1, 2, e), (3, 5, 7)), ((1, 2, 3), (3, e, 7))):
                if all(m): yield 'chinese_remainder', (u, m)
        for m in itertools.permutations((2, 3, 5, 7)):
            yield 'chinese_remainder', (tuple(R.randint(-9, 9) for _ in m), m)
        while True:
            n = R.choice((1, 2, 3, 3, 4, 4, 5, 6, 8))
            m = coprime_system(R, n)
            def res(q):
                c = R.random()
                return R.choice((0, 1, -1)) if c < .15 else R.randint(0, abs(q) - 1) if c < .5 else R.choice(B) if c < .6 else rint(R)
            u = [res(q) for q in m]
            yield 'chinese_remainder', (tuple(u), tuple(m))
            c = R.random()
            if n > 1 and c < .5:
                i, j = R.sample(range(n), 2); k = R.choice((2, 3, 5, 6, 101)); m = list(m); m[i] *= k; m[j] *= k * R.choice((1, -1))
                yield 'chinese_remainder', (tuple(u), tuple(m))
            elif c < .6: yield 'chinese_remainder', (tuple(u[:-1]), tuple(m))
            elif c < .7: yield 'chinese_remainder', (tuple(u), tuple(m[:-1]))
            elif c < .9: yield 'chinese_remainder', (tuple(R.randint(-20, 20) for _ in range(n)), tuple(R.choice([q for q in range(-9, 10) if q]) for _ in range(n)))
    elif prop == 'C08':
        top = 1200 if not deep else 4000
        def ok(n): return n <= 66000 or n > IMAX
        for n in list(range(-20, 300)) + [x for x in E + B if ok(x)]:
            yield 'factorial_i', (n,)
            if 0 <= n <= 66000: yield 'factorial_fold_u', (n,)
        for n in (5000, 8192, 10000, 20000): yield 'factorial_fold_u', (n,)
        for n in range(300, top):
            yield 'factorial_fold_u', (n,); yield 'factorial_i', (n,)
        while True:
            n = R.choice((-1, 1)) * R.getrandbits(R.choice((8, 12, 64, 65, 70, 128)))
            if ok(n): yield 'factorial_i', (n,)
            yield R.choice(('factorial_fold_u', 'factorial_i')), (int(2 ** (8 + 6 * R.random())),)
    elif prop == 'C09':
        top = 3000 if not deep else 20000
        for n in list(range(0, 200)) + [x for x in E if 0 <= x <= 60000] + [x for x in B if 0 <= x <= 40000] + list(range(200, 1200)):
            yield 'fibonacci_fold_u', (n,); yield 'fibonacci_fast_u', (n,)
        for n in [x for x in E + B if 0 <= x <= 3000000][:60]: yield 'fibonacci_fast_u', (n,)
        for n in (10000, 20000, 32768, 50000, 65535, 65536, 65537, 100003): yield 'fibonacci_fold_u', (n,); yield 'fibonacci_fast_u', (n,)
        for n in range(1200, top): yield 'fibonacci_fast_u', (n,); yield 'fibonacci_fold_u', (n,)
        while True: yield R.choice(('fibonacci_fold_u', 'fibonacci_fast_u')), (R.randint(0, 30000),)
    elif prop == 'C10':
        def ok(n): return abs(n) <= 3000000 or not IMIN <= n <= IMAX
        for n in list(range(-150, 151)) + [x for x in E + B if ok(x)] + list(range(-1500, 1500)): yield 'fibonacci_i', (n,)
        while True:
            n = R.choice((-1, 1)) * R.getrandbits(R.choice((8, 12, 14, 64, 65, 70, 128)))
            if ok(n): yield 'fibonacci_i', (n,)
    elif prop == 'C11':
        for n in list(range(0, 3000)) + [x for x in E if 0 <= x <= 20000000]: yield 'prime_sum_u64', (n,)
        for p in primes(1400):
            for d in (-1, 0, 1): yield 'prime_sum_u64', (p * p + d,)
        for n in (10 ** 5, 10 ** 6, 10 ** 7, 10 ** 8, 2 ** 31 - 1, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 10 ** 9, 10 ** 10): yield 'prime_sum_u64', (n,)
        while True:
            yield 'prime_sum_u64', (R.randint(0, 200000),); yield 'prime_sum_u64', (R.randint(0, 1999999),)
            k = R.randint(2, 1400); yield 'prime_sum_u64', (k * (k + R.randint(-1, 2)),)
    elif prop == 'C12':
        for n in [10 ** k for k in range(0, 10)] + [10 ** k for k in range(11, 30)] + list(range(-60, 1500)): yield 'prime_sum_i', (n,)
        for n in E + B:
            if n <= 20000000 or n > U64: yield 'prime_sum_i', (n,)
        for n in (2 ** 31, 2 ** 32 - 1, 2 ** 32 + 7, 6 * 10 ** 9, 10 ** 10, 10 ** 10 + 1): yield 'prime_sum_i', (n,)
        for p in primes(1400):
            for d in (-1, 0, 1): yield 'prime_sum_i', (p * p + d,)
        while True:
            yield 'prime_sum_i', (R.choice((R.randint(0, 100000), -abs(rint(R)), abs(rint(R)) + U64 + 1, R.randint(0, 1999999))),)
    elif prop == 'C13':
        for n in [10 ** k for k in range(0, 32)] + list(range(-60, 1500)) + E + B: yield 'prime_count_i', (n,)
        for k in range(0, 31):
            for c in range(2, 10): yield 'prime_count_i', (c * 10 ** k,)
        while True:
            yield 'prime_count_i', (rint(R),); yield 'prime_count_i', (R.randint(-10 ** 6, 2 * 10 ** 6),)
    else: raise KeyError(prop)

# ---------------------------------------------------------------- running the real code
def line(cmd, a):
    def f(x): return (','.join(map(hx, x)) if x else '[]') if isinstance(x, tuple) else hx(x)
    return ' '.join([cmd] + [f(x) for x in a])
class Real:
    def __init__(s, exe, timeout=25): s.exe = exe; s.t = timeout; s.p = None
    def start(s):
        s.p = subprocess.Popen(['/bin/sh', '-c', f'ulimit -v 8000000; exec "{s.exe}"'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0)
        s.buf = b''
    def stop(s):
        if s.p:
            s.p.kill(); s.p.wait(); s.p.stdin.close(); s.p.stdout.close(); s.p = None
    def call(s, ln, timeout=None):
        if s.p is None or s.p.poll() is not None: s.stop(); s.start()
        try:
            s.p.stdin.write(ln.encode() + b'\n')
        except BrokenPipeError:
            s.stop(); return 'crash the process died'
        sel = selectors.DefaultSelector(); sel.register(s.p.stdout, selectors.EVENT_READ)
        end = time.time() + (timeout or s.t)
        while b'\n' not in s.buf:
            left = end - time.time()
            if left <= 0 or not sel.select(left):
                sel.close(); s.stop(); return f'timeout no answer within {timeout or s.t:.0f} s'
            d = os.read(s.p.stdout.fileno(), 1 << 20)
            if not d:
                sel.close(); rc = s.p.wait(); s.stop(); return f'crash the process died with status {rc}'
            s.buf += d
        sel.close()
        l, s.buf = s.buf.split(b'\n', 1)
        return l.decode()
def excessive(cmd, a):
    """a call whose specified computation itself needs more time or memory than the machine has"""
    if cmd in ('prime_sum_i', 'prime_sum_u64'): return 2 * 10 ** 10 < a[0] <= U64 and str(a[0]).rstrip('0') != '1'
    return False
def search(prop, exe, seed, budget, extra=(), deep=False, maxn=10**9):
    """run the real code against the oracle: -> (first violation or None, statistics)"""
    R = random.Random(seed * 1000003 + sum(map(ord, prop))); real = Real(exe)
    t0 = time.time(); n = 0; seen = set(); samples = []; hit = None
    try:
        for cmd, a in cases(prop, R, list(extra), deep):
            if time.time() - t0 > budget or n >= maxn: break
            ln = line(cmd, a)
            if ln in seen or excessive(cmd, a): continue
            seen.add(ln); n += 1
            o = real.call(ln)
            if o.startswith('timeout') and check(cmd, a, o, prop) is not None: o = real.call(ln, 75)       # a busy machine, or a real loss of termination
            why = check(cmd, a, o, prop)
            if len(samples) < 3 or (n in (50, 500, 5000)): samples.append(f'{ln[:160]} -> {o[:160]}')
            if why is not None: hit = dict(call=ln, function=cmd, args=[list(x) if isinstance(x, tuple) else x for x in a], answer=o[:2000], why=why); break
    finally: real.stop()
    return hit, dict(calls=n, seconds=round(time.time() - t0, 2), samples=samples[:6])
