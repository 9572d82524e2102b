"""Ideal-membership prover: decides (soundly, incompletely) goals 'd divides e' and 'e = 0' from polynomial equations.
Every success returns a certificate  e = c*d + sum c_i*h_i  with integer polynomial cofactors, re-checked by expansion."""
import z3
from vals import *

class TooBig(Exception): pass

def poly(e, atoms):
    """z3 int term -> {monomial(tuple of sorted atom ids): int}"""
    if isinstance(e, int): return {(): e} if e else {}
    if z3.is_int_value(e):
        v = e.as_long(); return {(): v} if v else {}
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in e.children(): r = padd(r, poly(c, atoms))
        return r
    if k == z3.Z3_OP_SUB:
        ch = e.children(); r = poly(ch[0], atoms)
        for c in ch[1:]: r = padd(r, poly(c, atoms), -1)
        return r
    if k == z3.Z3_OP_UMINUS: return pscale(poly(e.arg(0), atoms), -1)
    if k == z3.Z3_OP_MUL:
        r = {(): 1}
        for c in e.children(): r = pmul(r, poly(c, atoms))
        return r
    s = atoms.setdefault(e.get_id(), (len(atoms), e))
    return {(s[0],): 1}
def padd(a, b, c=1):
    r = dict(a)
    for m, x in b.items():
        y = r.get(m, 0) + c * x
        if y: r[m] = y
        else: r.pop(m, None)
    return r
def pscale(a, c): return {m: x * c for m, x in a.items()} if c else {}
def mmul(a, b): return tuple(sorted(a + b))
def pmul(a, b):
    r = {}
    if len(a) * len(b) > 4000: raise TooBig()
    for m, x in a.items():
        for n, y in b.items():
            k = mmul(m, n); z = r.get(k, 0) + x * y
            if z: r[k] = z
            else: r.pop(k, None)
    return r
def mdiv(a, b):
    """a / b as monomials or None"""
    a = list(a)
    for x in b:
        try: a.remove(x)
        except ValueError: return None
    return tuple(a)
def lead(p, key): return max(p, key=key)

class Ideal:
    """integer polynomial ideal with cofactor tracking; generators keep leading coefficient +-1"""
    def __init__(s, order=None, limit=60):
        s.order = order or {}; s.g = []; s.limit = limit; s.src = []
    def key(s, m): return (len(m), tuple(s.order.get(x, x) for x in m))
    def reduce(s, p, cof):
        """normal form; cof: {src index: poly} such that p + sum(cof*src) stays constant"""
        r = {}; steps = 0
        p = dict(p)
        while p:
            m = lead(p, s.key); c = p[m]; hit = False
            for lm, lc, g, gc in s.g:
                q = mdiv(m, lm)
                if q is None: continue
                f = {q: c * lc}           # lc = +-1
                p = padd(p, pmul(f, g), -1)
                for k, x in gc.items(): cof[k] = padd(cof.get(k, {}), pmul(f, x))
                hit = True; steps += 1
                if steps > 1500 or len(p) > 600: raise TooBig()
                break
            if not hit: r[m] = c; del p[m]
        return r
    def add(s, p, cof):
        cc = {}
        q = s.reduce(p, cc)
        if not q: return None
        gc = dict(cof)
        for k, x in cc.items(): gc[k] = padd(gc.get(k, {}), x, -1)
        # choose the leading monomial; only unit leading coefficients can be used
        m = lead(q, s.key)
        if abs(q[m]) != 1: s.dead = True; return None
        s.g.append((m, q[m], q, {k: x for k, x in gc.items() if x}))
        return len(s.g) - 1
    def complete(s):
        i = 0; pairs = [(a, b) for b in range(len(s.g)) for a in range(b)]
        n = 0
        while pairs:
            pairs.sort(key=lambda ab: -len(set(s.g[ab[0]][0]) | set(s.g[ab[1]][0])))
            a, b = pairs.pop()
            la, ca, ga, xa = s.g[a]; lb, cb, gb, xb = s.g[b]
            if not set(la) & set(lb): continue
            # lcm
            l = list(la); rest = list(la)
            for x in lb:
                if x in rest: rest.remove(x)
                else: l.append(x)
            l = tuple(sorted(l))
            qa, qb = mdiv(l, la), mdiv(l, lb)
            sp = padd(pmul({qa: ca}, ga), pmul({qb: cb}, gb), -1)
            cof = {}
            for k, x in xa.items(): cof[k] = padd(cof.get(k, {}), pmul({qa: ca}, x))
            for k, x in xb.items(): cof[k] = padd(cof.get(k, {}), pmul({qb: cb}, x), -1)
            n += 1
            if n > 250 or len(s.g) > s.limit: return
            j = s.add(sp, cof)
            if j is not None: pairs += [(x, j) for x in range(j)]

def member(target, gens, limit=60):
    """cofactors {i: z3 poly dict} with target = sum cof_i * gens_i, or None.  target, gens: z3 int terms"""
    atoms = {}
    try:
        t = poly(target, atoms); gs = [poly(g, atoms) for g in gens]
        if not t: return {}, atoms
        # relevance: atoms reachable from the target
        ids = set(x for m in t for x in m); use = []
        rest = [(i, g, set(x for m in g for x in m)) for i, g in enumerate(gs) if g]
        ch = True
        for _ in range(6):
            ch = False
            for r in list(rest):
                if r[2] & ids:
                    use.append(r); rest.remove(r); ch = True
            for r in use: ids |= r[2]
            if not ch: break
        if len(use) > 40: use = use[:40]
        I = Ideal(limit=limit)
        # order: atoms with a defining equation (linear, unit coefficient) are eliminated first
        I.order = {a: a for a in ids}
        for i, g, _ in sorted(use, key=lambda r: len(r[1])): I.add(g, {i: {(): 1}})
        cof = {}
        if I.reduce(t, cof):
            I.complete(); cof = {}
            if I.reduce(t, cof): return None
        # certificate check
        acc = {}
        for i, c in cof.items(): acc = padd(acc, pmul(c, gs[i]))
        if padd(t, acc, -1): return None
        return cof, atoms
    except TooBig: return None
def to_z3(p, atoms):
    inv = {i: e for i, e in atoms.values()}
    out = z3.IntVal(0)
    for m, c in p.items():
        t = z3.IntVal(c)
        for x in m: t = t * inv[x]
        out = out + t
    return out
