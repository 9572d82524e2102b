"""Specification theories: lemma instantiation and loop-invariant candidates."""
import z3
from vals import *
from uf import *
from lem import *
from exec import Cand
from solve import occurs
import tables

x, y, k, n, p, q, r, i, j, a, b, c, d, t = iv('x y k n p q r i j a b c d t')
m, v, w = av('m v w')

def apps_sel(e): return bool(all_apps([e]).get('select'))
# facts the executor adds itself (exec.tdiv_facts, intr.gcd_facts, intr._sqrt): stated here so that Lean checks them too
tdiv_def = lem('tdiv_def', [a, b], [], z3.And(*tdiv_facts(a, b, TDIV(a, b), TREM(a, b))))
gcd_def = lem('gcd_def', [a, b], [], z3.And(*gcd_axioms(GCD(a, b), a, b)))
isqrt_def = lem('isqrt_def', [a], [a >= 0], z3.And(*sqrt_axioms(ISQ(a), a)))
class Theory:
    name = ''
    maybe = staticmethod(lambda g: True)
    def lemmas(s, apps_, facts, goal): return []
    def hints(s, apps_, facts, goal): return []
    def candidates(s, ctx): return []
    def rec_contract(s, ex, fn): return None

def args_of(apps_, nm):
    out = {}
    for e in apps_.get(nm, []):
        k = tuple(c.get_id() for c in e.children()); out[k] = tuple(e.children())
    return list(out.values())
def diff(a, b):
    e = z3.simplify(zint(a) - zint(b))
    return e.as_long() if z3.is_int_value(e) else None

# ------------------------------------------------------------------ counters of a loop state
def counters(ctx, machine_only=False):
    """terms that count: iterator cursors and machine integers, changed by the loop -> [(name, f(view))]"""
    out = []
    for rf in ctx.ints:
        if rf.kind in 'mcu' and rf.hav: out.append((repr(rf), rf.get, rf))
    return out
def bigs(ctx, hav=True):
    return [rf for rf in ctx.ints if rf.hav == hav and rf.kind in 'bmu']
def guard_int(*xs): return all(x is not None and is_int(x) for x in xs)

# ------------------------------------------------------------------ texts put together piece by piece
cat_empty = lem('cat_empty', [x], [], CAT(z3.IntVal(lit_code('')), x) == x)
join_one = lem('join_one', [x, v, a, n], [n == 1], JOIN(x, v, a, n) == v[a])
join_step = lem('join_step', [x, v, a, n], [n >= 2], JOIN(x, v, a, n) == CAT(CAT(JOIN(x, v, a, n - 1), x), v[a + n - 1]))
class Texts(Theory):
    name = 'texts'
    def lemmas(s, A_, facts, goal):
        for h, t in args_of(A_, 'cat'):
            if z3.is_const(h) and not z3.is_int_value(h): yield 'cat_empty', z3.Implies(h == lit_code(''), CAT(h, t) == t)
            elif z3.is_int_value(h): yield 'cat_empty', cat_empty.inst(t)
        js = args_of(A_, 'join')
        for q in js:
            yield 'join_one', join_one.inst(*q)
            if any(o is not q and o[0].eq(q[0]) and o[1].eq(q[1]) and diff(q[3], o[3]) == 1 for o in js) or len(js) < 4: yield 'join_step', join_step.inst(*q)
    def candidates(s, ctx):
        import adt, text
        ex = ctx.ex; sh = ctx.shape; out = []; accs = []; seqs = []; seps = [zint(lit_code(q)) for q in text.SEEN[-12:]]
        def add(l, e):
            if all(not q.eq(e) for q in l): l.append(e)
        for r, val in sh.head.items():
            for p_, x_, ty in ctx.loop.walk(val, ex.root_ty(ctx.loop.st0, r) if r[0] == 'L' else None):
                hav = any(rr == r and pp[:len(p_)] == p_ for rr, pp in sh.hav)
                if isinstance(x_, StrV):
                    if hav: accs.append((r, p_))
                    else: add(seps, zint(x_.e))
                elif isinstance(x_, SeqZ) and not hav and x_.ety is not None and adt.is_string(ex, ex.prog.strip_ref(x_.ety)):
                    if all(not (q.arr.eq(x_.arr) and same(simp(q.off), simp(x_.off))) for q in seqs): seqs.append(x_)
        cur = [r for r in ctx.ints if r.hav and r.kind in 'mc']
        for r, p_ in accs:
            def get(vw, r=r, p_=p_):
                q = vw[r]
                for i_ in p_: q = q.kids()[i_]
                return zint(scode(q)) if is_text(q) else None
            for q in seqs:
                for e in seps[:16]:
                    for c_ in cur:
                        J = lambda k_, q=q, e=e: JOIN(e, q.arr, zint(simp(q.off)), zint(k_))
                        def lead(vw, c_=c_, get=get, J=J):
                            g, k_ = get(vw), c_.get(vw)
                            return None if g is None or not is_int(k_) else conc(z3.simplify(z3.If(zint(k_) == 0, g == lit_code(''), g == J(k_))))
                        def trail(vw, c_=c_, get=get, J=J, e=e):
                            g, k_ = get(vw), c_.get(vw)
                            return None if g is None or not is_int(k_) else conc(z3.simplify(z3.If(zint(k_) == 0, g == lit_code(''), g == CAT(J(k_), e))))
                        out.append(Cand(f'text so far is the join of the first {c_} {r[-1]}{p_} {e}', lead)); out.append(Cand(f'text so far is the join of the first {c_}, closed {r[-1]}{p_} {e}', trail))
        return out[:240]
texts = Texts()

# ------------------------------------------------------------------ factorial
fact_0 = lem('fact_0', [], [], FACT(0) == 1)
fact_step = lem('fact_step', [x], [x >= 1], FACT(x) == x * FACT(x - 1))
fact_pos = lem('fact_pos', [x], [], FACT(x) >= 1)
class Fact(Theory):
    name = 'fact'
    def lemmas(s, A_, facts, goal):
        yield 'fact_0', fact_0.inst()
        ar = [z for z, in args_of(A_, 'fact')]
        for z in ar:
            yield 'fact_pos', fact_pos.inst(z)
            if any(diff(z, o) == 1 for o in ar) or len(ar) < 3: yield 'fact_step', fact_step.inst(z)
    def candidates(s, ctx):
        out = []
        N = ctx.ex.env.get('n')
        for X in bigs(ctx):
            for cn, cf, cr in counters(ctx):
                if cr is X: continue
                for dl in (-1, 0, 1):
                    def f(vw, X=X, cf=cf, dl=dl):
                        a, b = X.get(vw), cf(vw)
                        return zint(a) == app(FACT, zint(b) + dl) if guard_int(a, b) else None
                    out.append(Cand(f'{X}=fact({cn}{dl:+d})', f))
                    if N is not None:
                        def g(vw, X=X, cf=cf, dl=dl):
                            a, b = X.get(vw), cf(vw)
                            return zint(a) * app(FACT, zint(b) + dl) == app(FACT, N) if guard_int(a, b) else None
                        out.append(Cand(f'{X}*fact({cn}{dl:+d})=fact(n)', g))
        return out

# ------------------------------------------------------------------ powers
ipow_0 = lem('ipow_0', [a], [], IPOW(a, 0) == 1)
ipow_1 = lem('ipow_1', [a], [], IPOW(a, 1) == a)
ipow_zero = lem('ipow_zero', [b], [b >= 1], IPOW(0, b) == 0)
ipow_one = lem('ipow_one', [b], [b >= 0], IPOW(1, b) == 1)
ipow_step = lem('ipow_step', [a, b], [b >= 1], IPOW(a, b) == a * IPOW(a, b - 1))
ipow_m1 = lem('ipow_m1', [b], [b >= 0], IPOW(-1, b) == z3.If(b % 2 == 0, z3.IntVal(1), z3.IntVal(-1)))
ipow_sq = lem('ipow_sq', [a, b], [b >= 0], IPOW(a * a, b) == IPOW(a, 2 * b))
ipow_neg = lem('ipow_neg', [a, b], [b >= 0], IPOW(-a, b) == z3.If(b % 2 == 0, IPOW(a, b), -IPOW(a, b)))
ipow_half = lem('ipow_half', [a, b], [b >= 0], IPOW(a, b) == z3.If(b % 2 == 0, IPOW(a * a, b / 2), a * IPOW(a * a, b / 2)))
def square_root(e):
    """f when the product e is f*f"""
    if not z3.is_mul(e): return None
    fs = []; st = [e]
    while st:
        t = st.pop()
        if z3.is_mul(t): st += t.children()
        else: fs.append(t)
    ids = {}
    for t in fs: ids.setdefault(t.get_id(), []).append(t)
    if any(len(v) % 2 for v in ids.values()) or z3.is_int_value(fs[0]): return None
    half = [t for v in ids.values() for t in v[:len(v) // 2]]
    r = half[0]
    for t in half[1:]: r = r * t
    return r
def half_of(e):
    """n when the term e is n / 2"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(e.arg(1)) and e.arg(1).as_long() == 2: return e.arg(0)
    return None
class Pow(Theory):
    name = 'pow'
    def lemmas(s, A_, facts, goal):
        for z, e in args_of(A_, 'ipow'):
            yield 'ipow_0', z3.Implies(zint(e) == 0, IPOW(z, e) == 1)
            yield 'ipow_1', z3.Implies(zint(e) == 1, IPOW(z, e) == z)
            yield 'ipow_zero', z3.Implies(z3.And(zint(z) == 0, zint(e) >= 1), IPOW(z, e) == 0)
            yield 'ipow_one', z3.Implies(z3.And(zint(z) == 1, zint(e) >= 0), IPOW(z, e) == 1)
            yield 'ipow_m1', z3.Implies(z3.And(zint(z) == -1, zint(e) >= 0), IPOW(z, e) == z3.If(zint(e) % 2 == 0, z3.IntVal(1), z3.IntVal(-1)))
        ar = args_of(A_, 'ipow')
        for z, e in ar:
            for z2, e2 in ar:
                if z.eq(z2) and diff(e, e2) == 1: yield 'ipow_step', ipow_step.inst(z, e)
            rt = square_root(z)
            if rt is not None:
                sq = z3.Implies(z == rt * rt, IPOW(z, e) == IPOW(rt * rt, e))
                yield 'ipow_sq', z3.And(ipow_sq.inst(rt, e), sq)
                for z2, e2 in ar:
                    if not z2.eq(z) and square_root(z2) is None: yield 'ipow_half', z3.And(ipow_half.inst(z2, e2), ipow_half.inst(z2, 2 * e), ipow_half.inst(z2, 2 * e + 1)); break
                half = half_of(e)
                if half is not None: yield 'ipow_half', z3.And(ipow_half.inst(rt, half), sq)
            if z3.is_mul(z) and z3.is_int_value(z.arg(0)) and z.arg(0).as_long() == -1 and z.num_args() == 2: yield 'ipow_neg', ipow_neg.inst(z.arg(1), e)
    def candidates(s, ctx):
        out = []
        a_, b_ = ctx.ex.env.get('a'), ctx.ex.env.get('b')
        if a_ is None or b_ is None: return out
        for X in bigs(ctx):
            for cn, cf, cr in counters(ctx):
                if cr is X: continue
                def f(vw, X=X, cf=cf):
                    x_, c_ = X.get(vw), cf(vw)
                    return zint(x_) == app(IPOW, a_, c_) if guard_int(x_, c_) else None
                out.append(Cand(f'{X}=ipow(a,{cn})', f))
                def g(vw, X=X, cf=cf):
                    x_, c_ = X.get(vw), cf(vw)
                    return zint(x_) * app(IPOW, a_, c_) == app(IPOW, a_, b_) if guard_int(x_, c_) else None
                out.append(Cand(f'{X}*ipow(a,{cn})=ipow(a,b)', g))
                def h0(vw, X=X, cf=cf):
                    x_, c_ = X.get(vw), cf(vw)
                    return app(IPOW, x_, c_) == app(IPOW, a_, b_) if guard_int(x_, c_) else None
                out.append(Cand(f'ipow({X},{cn})=ipow(a,b)', h0))
                for Y in bigs(ctx):
                    if Y is X or Y is cr: continue
                    def h2(vw, X=X, cf=cf, Y=Y):
                        x_, c_, y_ = X.get(vw), cf(vw), Y.get(vw)
                        return zint(x_) * app(IPOW, zint(y_) * zint(y_), zint(c_) / 2) == app(IPOW, a_, b_) if guard_int(x_, c_, y_) else None
                    out.append(Cand(f'{X}*ipow({Y}^2,{cn}/2)=ipow(a,b)', h2))
                    def h(vw, X=X, cf=cf, Y=Y):
                        x_, c_, y_ = X.get(vw), cf(vw), Y.get(vw)
                        return zint(x_) * app(IPOW, y_, c_) == app(IPOW, a_, b_) if guard_int(x_, c_, y_) else None
                    out.append(Cand(f'{X}*ipow({Y},{cn})=ipow(a,b)', h))
        return out

# ------------------------------------------------------------------ Fibonacci
fib_base = lem('fib_base', [], [], z3.And(FIB(-1) == 1, FIB(0) == 0, FIB(1) == 1, FIB(2) == 1))
fib_step = lem('fib_step', [x], [x >= 1], FIB(x) == FIB(x - 1) + FIB(x - 2))
fib_nonneg = lem('fib_nonneg', [x], [], FIB(x) >= 0)
fib_mono = lem('fib_mono', [x], [x >= 0], FIB(x) <= FIB(x + 1))
fib_even = lem('fib_even', [x, k], [k >= 0, x == 2 * k], FIB(x) == FIB(k) * (2 * FIB(k + 1) - FIB(k)))
fib_odd = lem('fib_odd', [x, k], [k >= 0, x == 2 * k + 1], FIB(x) == FIB(k + 1) * FIB(k + 1) + FIB(k) * FIB(k))
fib_odd2 = lem('fib_odd2', [x, k], [k >= 1, x == 2 * k - 1], FIB(x) == FIB(k) * FIB(k) + FIB(k - 1) * FIB(k - 1))
class Fib(Theory):
    name = 'fib'
    def lemmas(s, A_, facts, goal):
        yield 'fib_base', fib_base.inst()
        ar = [z for z, in args_of(A_, 'fib')]
        for z in ar:
            yield 'fib_nonneg', fib_nonneg.inst(z)
            for o in ar:
                dd = diff(z, o)
                if dd == 1: yield 'fib_mono', fib_mono.inst(o)
                if dd in (1, 2): yield 'fib_step', fib_step.inst(z)
                if dd in (0,) or z3.is_int_value(z): continue
                if dd is None and A_.get('divmod'):
                    if s.maybe(zint(z) == 2 * o): yield 'fib_even', fib_even.inst(z, o)
                    if s.maybe(zint(z) == 2 * o + 1): yield 'fib_odd', fib_odd.inst(z, o)
                    if s.maybe(zint(z) == 2 * o - 1): yield 'fib_odd2', fib_odd2.inst(z, o)
    def candidates(s, ctx):
        out = []
        N = ctx.ex.env.get('n')
        for X in bigs(ctx):
            for cn, cf, cr in counters(ctx):
                if cr is X: continue
                for dl in (-1, 0, 1, 2):
                    def f(vw, X=X, cf=cf, dl=dl):
                        a, b = X.get(vw), cf(vw)
                        return zint(a) == app(FIB, zint(b) + dl) if guard_int(a, b) else None
                    out.append(Cand(f'{X}=fib({cn}{dl:+d})', f))
                    if N is not None:
                        def g(vw, X=X, cf=cf, dl=dl):
                            a, b = X.get(vw), cf(vw)
                            return zint(a) == app(FIB, N - zint(b) + dl) if guard_int(a, b) else None
                        out.append(Cand(f'{X}=fib(n-{cn}{dl:+d})', g))
        for M in ctx.maps:
            out.append(Cand(f'{M} is a table of fib', lambda vw, M=M: fib_table(M.get(vw))))
            for kk in (0, 1, 2):
                out.append(Cand(f'{M} has {kk}', lambda vw, M=M, kk=kk: z3.Select(M.get(vw).dom, kk) if isinstance(M.get(vw), MapZ) else None))
        return out
    def rec_contract(s, ex, fn):
        """memoised recursion: fn(n: usize, m: &mut BTreeMap<usize, Big>) -> Big in any argument order"""
        T = ex.T; ni = mi = None
        for l in range(1, fn.argc + 1):
            t = T[fn.locals[l]]
            if t['k'] == 'int' and ni is None: ni = l - 1
            elif t['k'] == 'ref' and t.get('mut') and T[t['elem']]['k'] == 'adt' and T[t['elem']].get('def', '').endswith('Map') and mi is None: mi = l - 1
            else: return None
        if ni is None or mi is None or not ex.prog.is_big(fn.locals[0]): return None
        return MemoFib(fn, ni, mi)
def fib_table(mz):
    if not isinstance(mz, (MapZ, MapC)): return None
    if isinstance(mz, MapC): mz = map_to_z(mz)
    kv = fresh('kv')
    return FA(kv, z3.Implies(z3.Select(mz.dom, kv), z3.And(kv >= 0, z3.Select(mz.val, kv) == FIB(kv))), 'fib table')

class MemoFib:
    """contract of the memoising recursion (inferred shape, checked on its body, terminates by decreasing n outside {0,1,2})"""
    def __init__(s, fn, ni, mi): s.fn = fn; s.ni = ni; s.mi = mi; s.name = 'memo'
    def pre(s, ex, st, args):
        mz = map_to_z(ex.mut_get(st, args[s.mi]))
        return [('memo table holds Fibonacci numbers', fib_table(mz)), ('memo table has 0', z3.Select(mz.dom, 0)), ('memo table has 1', z3.Select(mz.dom, 1)),
                ('memo table has 2', z3.Select(mz.dom, 2)), ('index is non-negative', zint(args[s.ni]) >= 0)]
    def apply(s, ex, st, args):
        mz = map_to_z(ex.mut_get(st, args[s.mi]))
        w = ex.where(st)
        for nm, g in s.pre(ex, st, args): ex.oblige_pre(st, g, f'precondition of {s.fn.name.split("::")[-1]}: {nm}', w)
        top = getattr(ex, 'rec_measure', None)
        if top is not None and top[0] == s.fn.id:
            ex.oblige_pre(st, zint(args[s.ni]) < top[1], 'recursive call is on a smaller index', w)
        res = fresh('memo'); d2 = fresh('dom', mz.dom.sort()); v2 = fresh('val', A)
        nz = MapZ(d2, v2, mz.kty, mz.vty)
        ex.mut_set(st, args[s.mi], nz); st.trail = st.trail + ('memo',)
        st.add(res == app(FIB, args[s.ni]), res >= 0, fib_table(nz), z3.Select(d2, 0), z3.Select(d2, 1), z3.Select(d2, 2))
        return [(st, res)]
    def verify(s, ex):
        """obligations of the body against the contract"""
        from exec import State, Frame
        st = State(); st.frames = []; st.trail = ('memo',)
        dom = fresh('dom', z3.ArraySort(I, B)); val = fresh('val', A); nn = fresh('n')
        T = ex.T
        mty = T[s.fn.locals[s.mi + 1]]['elem']; ar = T[mty].get('args', [None, None])
        m_ = ex.alloc(st, MapZ(dom, val, ar[0], ar[1]))
        args = [None] * s.fn.argc; args[s.ni] = nn; args[s.mi] = m_
        st.add(*ex.range_facts(nn, s.fn.locals[s.ni + 1]))
        for nm, g in s.pre(ex, st, args): st.add(g)
        ex.rec_measure = (s.fn.id, nn)
        ex.push(st, s.fn, args, None, None)
        ex.verifying_entry = s.fn.id
        outs = ex.explore([st], 1, None)
        for t in outs:
            w = s.fn.name.split('::')[-1]
            ex.oblige_post(t, zint(t.ret) == app(FIB, nn), 'result is fib(n)', w)
            mz = map_to_z(ex.mut_get(t, m_))
            ex.oblige_post(t, fib_table(mz), 'memo table stays a table of Fibonacci numbers', w)
            for kk in (0, 1, 2): ex.oblige_post(t, z3.Select(mz.dom, kk), f'memo table keeps {kk}', w)
        ex.verifying_entry = None; ex.rec_measure = None
        return len(outs)

# ------------------------------------------------------------------ divisibility
trem_dvd = lem('trem_dvd', [a, b], [], (TREM(a, b) == 0) == DVD(b, a))
gcd_cong = lem('gcd_cong', [p, q, t], [DVD(t, p - q)], GCD(p, t) == GCD(q, t))
gcd_comm = lem('gcd_comm', [a, b], [], GCD(a, b) == GCD(b, a))
gcd_sub = lem('gcd_sub', [p, k, t], [], GCD(p - k * t, t) == GCD(p, t))
gcd_one = lem('gcd_one', [a], [], GCD(1, a) == 1)
gcd_zero = lem('gcd_zero', [a], [], GCD(0, a) == z3.If(a >= 0, a, -a))
gcd_nonneg = lem('gcd_nonneg', [a, b], [], GCD(a, b) >= 0)
gcd_neg = lem('gcd_neg', [a, b], [], GCD(-a, b) == GCD(a, b))
gcd_bezout1 = lem('gcd_bezout1', [a, b, x], [DVD(b, a * x - 1)], GCD(a, b) == 1)
gcd_zero_iff = lem('gcd_zero_iff', [a, b], [], (GCD(a, b) == 0) == z3.And(a == 0, b == 0))
def occurs_lin(e, g):
    """e is g plus terms without g"""
    e = z3.simplify(e)
    ts = e.children() if z3.is_add(e) else [e]
    return any(t.eq(g) for t in ts) and sum(1 for t in ts if occurs(t, g)) == 1
class Div(Theory):
    name = 'dvd'
    def lemmas(s, A_, facts, goal):
        gs = args_of(A_, 'gcd'); dv = args_of(A_, 'dvd')
        for g, h_ in gs:
            yield 'gcd_nonneg', gcd_nonneg.inst(g, h_)
            for g2, h2 in gs:
                if g2.eq(h_) and h2.eq(g): yield 'gcd_comm', gcd_comm.inst(g, h_)
                if h2.eq(h_) and z3.is_int_value(z3.simplify(g + g2)) and z3.simplify(g + g2).as_long() == 0: yield 'gcd_neg', gcd_neg.inst(g, h_)
            if z3.is_int_value(g):
                if g.as_long() == 1: yield 'gcd_one', gcd_one.inst(h_)
                if g.as_long() == 0: yield 'gcd_zero', gcd_zero.inst(h_)
            else: yield 'gcd_one', z3.Implies(g == 1, GCD(g, h_) == 1)
            if not z3.is_int_value(g):
                for mm, e in dv:
                    if mm.eq(h_) and occurs_lin(e, g): yield 'gcd_cong', gcd_cong.inst(g, z3.simplify(g - e), h_)
        for z, e in args_of(A_, 'trem'): yield 'trem_dvd', trem_dvd.inst(z, e)

class Egcd(Div):
    """the remainder sequence of the extended Euclidean algorithm"""
    name = 'egcd'
    def lemmas(s, A_, facts, goal):
        yield from Div.lemmas(s, A_, facts, goal)
        for g, h_ in args_of(A_, 'gcd'):
            yield 'gcd_comm', gcd_comm.inst(g, h_)
            if not z3.is_int_value(g): yield 'gcd_zero', z3.Implies(g == 0, GCD(g, h_) == z3.If(h_ >= 0, h_, -h_))
        for g, h_ in args_of(A_, 'trem'): yield 'gcd_sub', gcd_sub.inst(g, TDIV(g, h_), h_)
        for g, h_ in args_of(A_, 'tdiv'): yield 'gcd_sub', gcd_sub.inst(g, TDIV(g, h_), h_); yield 'gcd_comm', gcd_comm.inst(g, h_)
    def candidates(s, ctx):
        out = []; es = [e for e in ctx.ex.env.values() if is_int(e)]; bs = bigs(ctx)
        if len(es) < 2: return out
        a_, b_ = es[-2], es[-1]
        for X in bs:
            for Y in bs:
                if repr(X) < repr(Y):
                    out.append(Cand(f'gcd({X},{Y})=gcd(a,b)', lambda vw, X=X, Y=Y: app(GCD, X.get(vw), Y.get(vw)) == app(GCD, a_, b_) if guard_int(X.get(vw), Y.get(vw)) else None))
                if X is not Y: out.append(Cand(f'b|a*{X}-{Y}', lambda vw, X=X, Y=Y: DVD(zint(b_), zint(a_) * zint(X.get(vw)) - zint(Y.get(vw))) if guard_int(X.get(vw), Y.get(vw)) else None))
                for Z in bs:
                    if X is not Y and X is not Z and Y is not Z:
                        out.append(Cand(f'a*{X}+b*{Y}={Z}', lambda vw, X=X, Y=Y, Z=Z: zint(a_) * zint(X.get(vw)) + zint(b_) * zint(Y.get(vw)) == zint(Z.get(vw)) if guard_int(X.get(vw), Y.get(vw), Z.get(vw)) else None))
        return out

# ------------------------------------------------------------------ products, Horner sums, pairwise coprimality (CRT)
prodm_empty = lem('prodm_empty', [m, i, j], [i >= j], PRODM(m, i, j) == 1)
prodm_right = lem('prodm_right', [m, i, j], [i < j], PRODM(m, i, j) == PRODM(m, i, j - 1) * m[j - 1])
prodm_left = lem('prodm_left', [m, i, j], [i < j], PRODM(m, i, j) == m[i] * PRODM(m, i + 1, j))
horn_empty = lem('horn_empty', [v, m, i, j], [i >= j], HORN(v, m, i, j) == 0)
horn_left = lem('horn_left', [v, m, i, j], [i < j], HORN(v, m, i, j) == v[i] + m[i] * HORN(v, m, i + 1, j))
horn_right = lem('horn_right', [v, m, i, j], [i < j], HORN(v, m, i, j) == HORN(v, m, i, j - 1) + v[j - 1] * PRODM(m, i, j - 1))
horn_store = lem('horn_store', [v, m, i, j, k, x], [z3.Or(k < i, k >= j)], HORN(z3.Store(v, k, x), m, i, j) == HORN(v, m, i, j))
horn_tail = lem('horn_tail', [v, m, n, k], [0 <= k, k < n], DVD(m[k], HORN(v, m, 0, n) - HORN(v, m, 0, k + 1)))
pairwise_base = lem('pairwise_base', [m, k], [k <= 1], COPR(m, k))
pairwise_step = lem('pairwise_step', [m, k], [k >= 0], COPR(m, k + 1) == z3.And(COPR(m, k), GCD(PRODM(m, 0, k), m[k]) == 1))
pairwise_mono = lem('pairwise_mono', [m, k, n], [k <= n, COPR(m, n)], COPR(m, k))
class Crt(Theory):
    name = 'crt'
    def lemmas(s, A_, facts, goal):
        pr = args_of(A_, 'prodm'); ho = args_of(A_, 'horn'); co = args_of(A_, 'pairwise')
        for mm, lo, hi in pr:
            dd = diff(hi, lo)
            if dd is None or dd <= 0: yield 'prodm_empty', prodm_empty.inst(mm, lo, hi)
            for m2, l2, h2 in pr:
                if m2.eq(mm):
                    if l2.eq(lo) and diff(hi, h2) == 1: yield 'prodm_right', prodm_right.inst(mm, lo, hi)
                    if h2.eq(hi) and diff(l2, lo) == 1: yield 'prodm_left', prodm_left.inst(mm, lo, hi)
        for vv, mm, lo, hi in ho:
            dd = diff(hi, lo)
            if dd is None or dd <= 0: yield 'horn_empty', horn_empty.inst(vv, mm, lo, hi)
            if dd == 1: yield 'horn_left', horn_left.inst(vv, mm, lo, hi); 
            base = vv
            while z3.is_store(base):
                yield 'horn_store', horn_store.inst(base.arg(0), mm, lo, hi, base.arg(1), base.arg(2))
                if diff(hi, base.arg(1)) == 1: yield 'horn_right', horn_right.inst(vv, mm, lo, hi)
                base = base.arg(0)
            for v2, m2, l2, h2 in ho:
                if not m2.eq(mm): continue
                if v2.eq(vv):
                    if l2.eq(lo) and diff(hi, h2) == 1: yield 'horn_right', horn_right.inst(vv, mm, lo, hi)
                    if h2.eq(hi) and diff(l2, lo) == 1: yield 'horn_left', horn_left.inst(vv, mm, lo, hi)
            if diff(lo, 0) == 0:
                for sel in A_.get('select', []):
                    if sel.arg(0).eq(mm) and diff(sel.arg(1), hi) is None: yield 'horn_tail', horn_tail.inst(vv, mm, hi, sel.arg(1))
        for mm, e in co:
            yield 'pairwise_base', pairwise_base.inst(mm, e)
            for m2, e2 in co:
                if not m2.eq(mm): continue
                dd = diff(e, e2)
                if dd == 1: yield 'pairwise_step', pairwise_step.inst(mm, e2)
                if dd is None or dd > 0: yield 'pairwise_mono', pairwise_mono.inst(mm, e2, e)
            yield 'pairwise_step', pairwise_step.inst(mm, z3.simplify(e - 1))
            for g, h_ in args_of(A_, 'gcd'):
                if z3.is_select(h_) and h_.arg(0).eq(mm): yield 'pairwise_step', pairwise_step.inst(mm, h_.arg(1))
    def candidates(s, ctx):
        out = []; ex = ctx.ex; env = ex.env
        M = env.get('m'); U = env.get('u')
        if not isinstance(M, SeqZ): return out
        cs = [(cn, cf) for cn, cf, cr in counters(ctx)]
        pool = [rf for rf in ctx.ints if not rf.hav and rf.kind in 'mcu']
        ends = []
        seen = set()
        for rf in pool:
            e = zint(simp(rf.get(ctx.shape.head)))
            if e.get_id() not in seen: seen.add(e.get_id()); ends.append(e)
        if ctx.shape.entry is not None:
            for cn, cf, cr in counters(ctx):
                e = cf(ctx.shape.entry)
                if e is None: continue
                for dl in (0, 1):
                    e2 = zint(simp(zint(e) + dl))
                    if e2.get_id() not in seen: seen.add(e2.get_id()); ends.append(e2)
        ends = [e for e in ends if not z3.is_int_value(e) and not apps_sel(e)][:6]
        mods = []
        for f in getattr(ctx.loop.st0, 'facts', []): pass
        mset = set()
        for rf in bigs(ctx, False):
            e = zint(rf.get(ctx.shape.head))
            if not (z3.is_select(e) and e.arg(0).eq(M.arr)) or e.get_id() in mset: continue
            mset.add(e.get_id()); mods.append((repr(rf), e))
        for e in ends:
            se = z3.Select(M.arr, e)
            if se.get_id() not in mset: mset.add(se.get_id()); mods.append((f'm[{e}]', se))
        vs = [q for q in ctx.seqs]
        varrs = []
        vseen = set()
        for q in vs:
            def g(vw, q=q):
                z = q.get(vw)
                return z.arr if isinstance(z, SeqZ) else None
            h0 = g(ctx.shape.head)
            if h0 is None or h0.eq(M.arr) or (isinstance(U, SeqZ) and h0.eq(U.arr)): continue
            kk = (h0.get_id(), q.hav)
            if kk in vseen and not q.hav: continue
            vseen.add(kk); varrs.append((repr(q), g, q))
        for X in bigs(ctx):
            if X.kind not in 'bu': continue
            def mk(nm, spec, X=X):
                def eq(vw):
                    xx = X.get(vw); sp = spec(vw)
                    return zint(xx) == sp if guard_int(xx) and sp is not None else None
                out.append(Cand(f'{X}={nm}', eq))
                for mn, me in mods:
                    def cg(vw, me=me):
                        xx = X.get(vw); sp = spec(vw)
                        return DVD(me, zint(xx) - sp) if guard_int(xx) and sp is not None else None
                    out.append(Cand(f'{X}={nm} mod {mn}', cg))
            for cn, cf in cs:
                mk(f'prodm(0,{cn})', lambda vw, cf=cf: app(PRODM, M.arr, 0, cf(vw)) if guard_int(cf(vw)) else None)
                for e in ends:
                    mk(f'prodm({cn},{e})', lambda vw, cf=cf, e=e: app(PRODM, M.arr, cf(vw), e) if guard_int(cf(vw)) else None)
                for vn, vg, vq in varrs:
                    mk(f'horn({vn},0,{cn})', lambda vw, cf=cf, vg=vg: app(HORN, vg(vw), M.arr, 0, cf(vw)) if guard_int(cf(vw)) and vg(vw) is not None else None)
                    for e in ends:
                        mk(f'horn({vn},{cn},{e})', lambda vw, cf=cf, vg=vg, e=e: app(HORN, vg(vw), M.arr, cf(vw), e) if guard_int(cf(vw)) and vg(vw) is not None else None)
            x0 = X.get(ctx.shape.entry) if ctx.shape.entry is not None else None
            if x0 is not None and is_int(x0) and x0 != 0 if isinstance(x0, int) else x0 is not None:
                for cn, cf, cr in counters(ctx):
                    e = cf(ctx.shape.entry)
                    if e is None or not is_int(e): continue
                    for vn, vg, vq in varrs:
                        if vq.hav: continue
                        mk(f'horn({vn},{cn},start)+init*prodm({cn},start)', lambda vw, cf=cf, vg=vg, e=e, x0=x0: app(HORN, vg(vw), M.arr, cf(vw), e) + zint(x0) * app(PRODM, M.arr, cf(vw), e) if guard_int(cf(vw)) and vg(vw) is not None else None)
        # element-wise modulus when the modulus itself changes per iteration: m[c]
        for cn, cf in cs:
            out.append(Cand(f'pairwise(m,{cn})', lambda vw, cf=cf: app(COPR, M.arr, cf(vw)) if guard_int(cf(vw)) else None))
            for vn, vg, vq in varrs:
                if not vq.hav: continue
                def solved(vw, cf=cf, vg=vg):
                    if vg(vw) is None or not guard_int(cf(vw)) or not isinstance(U, SeqZ): return None
                    kk = fresh('kk')
                    return FA(kk, z3.Implies(z3.And(0 <= kk, kk < zint(cf(vw))), DVD(z3.Select(M.arr, kk), HORN(vg(vw), M.arr, 0, kk + 1) - z3.Select(U.arr, kk))), 'solved prefix')
                out.append(Cand(f'digits {vn}[0..{cn}) solve the first {cn} congruences', solved))
        for q in vs:
            if not q.hav: continue
            out.append(Cand(f'{q}.off=0', lambda vw, q=q: conc(zint(q.get(vw).off) == 0) if isinstance(q.get(vw), SeqZ) else None))
            for cn, cf in cs:
                out.append(Cand(f'len {q} = {cn}', lambda vw, q=q, cf=cf: conc(zint(q.get(vw).len) == cf(vw)) if isinstance(q.get(vw), SeqZ) and guard_int(cf(vw)) else None))
        return out

# ------------------------------------------------------------------ prime tables
pcount_low = lem('pcount_low', [n], [n < 2], PCOUNT(n) == 0)
psum_low = lem('psum_low', [n], [n < 2], PSUM(n) == 0)
psum_nonneg = lem('psum_nonneg', [n], [], PSUM(n) >= 0)
psum_bound = lem('psum_bound', [n], [n >= 0], 2 * PSUM(n) <= n * (n + 1))
r_ = ISQ(n)
lv_low = lem('lv_low', [n, j], [n >= 1, 0 <= j, j < r_], LV(n, j) == TDIV(n, j + 1))
lv_high = lem('lv_high', [n, j], [n >= 1, r_ <= j, j < r_ + TDIV(n, r_)], LV(n, j) == TDIV(n, r_) - 1 - (j - r_))
isq_pos = lem('isq_pos', [n], [n >= 1], z3.And(ISQ(n) >= 1, ISQ(n) <= TDIV(n, ISQ(n))))
lv_key = lem('lv_key', [n, j], [n >= 1, 0 <= j, j < r_ + TDIV(n, r_)], z3.And(KEY(n, LV(n, j)), LIDX(n, LV(n, j)) == j, LV(n, j) >= 0, LV(n, j) <= n))
key_lv = lem('key_lv', [n, k], [n >= 1, KEY(n, k)], z3.And(LIDX(n, k) >= 0, LIDX(n, k) < r_ + TDIV(n, r_), LV(n, LIDX(n, k)) == k, k >= 0, k <= n))
key_small = lem('key_small', [n, k], [n >= 1, 0 <= k, k <= TDIV(n, r_)], KEY(n, k))
key_self = lem('key_self', [n], [n >= 1], KEY(n, n))
key_div = lem('key_div', [n, k, p], [n >= 1, KEY(n, k), p >= 1], KEY(n, TDIV(k, p)))
lv_anti = lem('lv_anti', [n, i, j], [n >= 1, 0 <= i, i < j, j < r_ + TDIV(n, r_)], LV(n, j) < LV(n, i))
key_anti = lem('key_anti', [n, a, b], [n >= 1, KEY(n, a), KEY(n, b), a < b], LIDX(n, b) < LIDX(n, a))
sieve_1 = lem('sieve_1', [v_ := z3.Int('v')], [v_ >= 1], 2 * SIEVE(v_, 1) == v_ * (v_ + 1) - 2)
sieve_step = lem('sieve_step', [v_, p], [p >= 2, PRIME(p), p * p <= v_], SIEVE(v_, p) == SIEVE(v_, p - 1) - p * (SIEVE(TDIV(v_, p), p - 1) - SIEVE(p - 1, p - 1)))
sieve_skip = lem('sieve_skip', [v_, p], [p >= 2, z3.Or(z3.Not(PRIME(p)), p * p > v_)], SIEVE(v_, p) == SIEVE(v_, p - 1))
sieve_prime = lem('sieve_prime', [p], [p >= 2], PRIME(p) == (SIEVE(p, p - 1) > SIEVE(p - 1, p - 1)))
sieve_mono = lem('sieve_mono', [a, b, p], [a <= b], SIEVE(a, p) <= SIEVE(b, p))
sieve_nonneg = lem('sieve_nonneg', [v_, p], [], SIEVE(v_, p) >= 0)
sieve_bound64 = lem('sieve_bound64', [v_, p], [v_ <= (1 << 64) - 1], SIEVE(v_, p) < (1 << 127))
sieve_end = lem('sieve_end', [v_, p], [p >= 0, (p + 1) * (p + 1) > v_], SIEVE(v_, p) == PSUM(v_))
sq_mono = lem('sq_mono', [p, q], [0 <= p, p <= q], p * p <= q * q)
sq_ge = lem('sq_ge', [p], [p >= 0], p * p >= p)
tdiv_lt = lem('tdiv_lt', [a, b], [a >= 1, b >= 2], z3.And(TDIV(a, b) < a, TDIV(a, b) >= 0))
tdiv_sq = lem('tdiv_sq', [a, b], [b >= 1, a >= b * b], TDIV(a, b) >= b)
tri_bound = lem('tri_bound', [v_], [0 <= v_, v_ <= (1 << 64) - 1], v_ * (v_ + 1) <= (1 << 128) - (1 << 64))
def occurs_sk(t): return bool(all_apps([t]).get('lidx'))
class Sieve(Theory):
    """sums sieved over the floor quotients of n (C11)"""
    name = 'sieve'
    def hints(s, A_, facts, goal):
        out = [(None, LIDX(n_, k_)) for n_, k_ in args_of(A_, 'key') if not (z3.is_app(k_) and k_.decl().name() == 'lv')]
        arrs = {}      # the elements of a sequence that lists the keys are keys
        for fa in getattr(s, 'fas', ()):
            if fa.name == 'keys' and len(fa.vars) == 1:
                for t in all_apps([fa.body]).get('select', []):
                    if occurs(t.arg(1), fa.vars[0]): arrs[t.arg(0).get_id()] = t.arg(0)
        for t in A_.get('select', []):
            if t.arg(0).get_id() in arrs and not occurs_sk(t): out.append(('key', t))
        return out
    def lemmas(s, A_, facts, goal):
        env = getattr(s, 'env', None); nn = env['n'] if env else None
        if nn is None or not is_int(nn): return
        nn = zint(nn); R = ISQ(nn)
        yield 'isq_pos', isq_pos.inst(nn); yield 'key_self', key_self.inst(nn)
        for n_, j_ in args_of(A_, 'lv'):
            yield 'lv_low', lv_low.inst(n_, j_); yield 'lv_high', lv_high.inst(n_, j_); yield 'lv_key', lv_key.inst(n_, j_)
        ks = args_of(A_, 'key'); done = set()
        for n_, k_ in ks + args_of(A_, 'lidx'):
            if k_.get_id() in done: continue
            done.add(k_.get_id())
            yield 'key_lv', key_lv.inst(n_, k_)
            if not (z3.is_app(k_) and k_.decl().name() == 'lv'): yield 'key_small', key_small.inst(n_, k_)
            if z3.is_app(k_) and k_.decl().name() == 'tdiv': yield 'key_div', key_div.inst(n_, k_.arg(0), k_.arg(1))
        lx = args_of(A_, 'lidx')
        for n_, a_ in lx:
            for _, b_ in lx:
                if not a_.eq(b_): yield 'key_anti', key_anti.inst(n_, a_, b_)
        lv = args_of(A_, 'lv')
        if len(lv) <= 4:
            for n_, a_ in lv:
                for _, b_ in lv:
                    if not a_.eq(b_): yield 'lv_anti', lv_anti.inst(n_, a_, b_)
        for z, in args_of(A_, 'psum'): yield 'psum_low', psum_low.inst(z)
        for a_, b_ in args_of(A_, 'tdiv'): yield 'tdiv_lt', tdiv_lt.inst(a_, b_); yield 'tdiv_sq', tdiv_sq.inst(a_, b_)
        sv = args_of(A_, 'sieve')
        for v0, p0 in sv:
            yield 'sq_ge', sq_ge.inst(p0)
            yield 'sieve_nonneg', sieve_nonneg.inst(v0, p0); yield 'sieve_bound64', sieve_bound64.inst(v0, p0)
            if diff(p0, 1) == 0: yield 'sieve_1', sieve_1.inst(v0)
            elif diff(p0, 1) is None: yield 'sieve_1', z3.Implies(zint(p0) == 1, sieve_1.inst(v0) if not z3.is_int_value(v0) else z3.BoolVal(True))
            yield 'sieve_end', sieve_end.inst(v0, p0)
            for v1, p1 in sv:
                if not v0.eq(v1) and p0.eq(p1): yield 'sieve_mono', sieve_mono.inst(v0, v1, p0)
                if v0.eq(v1) and diff(p0, p1) == 1:
                    yield 'sieve_step', sieve_step.inst(v0, p0); yield 'sieve_skip', sieve_skip.inst(v0, p0); yield 'sieve_prime', sieve_prime.inst(p0)
                    yield 'sq_mono', sq_mono.inst(p0, R)
    def candidates(s, ctx):
        out = []; env = ctx.ex.env; nn = env.get('n')
        if nn is None or not is_int(nn): return out
        N = zint(nn)
        cs = [(cn, cf, cr) for cn, cf, cr in counters(ctx)]
        for q in ctx.seqs:
            def keys(vw, q=q):
                z = q.get(vw)
                if not isinstance(z, SeqZ): return None
                kk = fresh('kk')
                return FA(kk, z3.Implies(z3.And(0 <= kk, kk < zint(z.len)), z3.Select(z.arr, simp(zint(z.off) + kk)) == LV(N, kk)), 'keys')
            out.append(Cand(f'{q} lists the floor quotients of n', keys))
            if q.hav:
                out.append(Cand(f'{q}.off=0', lambda vw, q=q: conc(zint(q.get(vw).off) == 0) if isinstance(q.get(vw), SeqZ) else None))
                for cn, cf, cr in cs:
                    for dl in (-1, 0):
                        out.append(Cand(f'len {q} = {cn}{dl:+d}', lambda vw, q=q, cf=cf, dl=dl: conc(zint(q.get(vw).len) == zint(cf(vw)) + dl) if isinstance(q.get(vw), SeqZ) and guard_int(cf(vw)) else None))
        def sv(vw, M, lev):
            z = M.get(vw)
            if isinstance(z, MapC): z = map_to_z(z)
            if not isinstance(z, MapZ): return None
            kv = fresh('kv'); L = lev(vw, kv)
            if L is None: return None
            vl = z3.Select(z.val, kv)
            body = [vl == SIEVE(kv, L)] if not isinstance(L, tuple) else [z3.Implies(L[0], vl == SIEVE(kv, L[1])), z3.Implies(z3.Not(L[0]), vl == SIEVE(kv, L[2]))]
            return FA(kv, z3.Implies(z3.And(z3.Select(z.dom, kv), kv >= 1), z3.And(*body)), 'sieved values')
        pool = [(repr(r), r.get, r) for r in ctx.ints if r.kind in 'mcu' and not r.hav]
        for M in ctx.maps:
            def alldom(vw, M=M):
                z = M.get(vw)
                if not isinstance(z, MapZ): return None
                kv = fresh('kv')
                return FA(kv, z3.Select(z.dom, kv) == KEY(N, kv), 'domain')
            out.append(Cand(f'{M} has exactly the keys', alldom))
            for cn, cf, cr in cs:
                for dl in (-1, 0):
                    def pdom(vw, M=M, cf=cf, dl=dl):
                        z = M.get(vw)
                        if isinstance(z, MapC): z = map_to_z(z)
                        if not isinstance(z, MapZ) or not guard_int(cf(vw)): return None
                        kv = fresh('kv')
                        return FA(kv, z3.Select(z.dom, kv) == z3.And(KEY(N, kv), LIDX(N, kv) < zint(cf(vw)) + dl), 'domain prefix')
                    out.append(Cand(f'{M} has the first {cn}{dl:+d} keys', pdom))
            out.append(Cand(f'{M} sieved to 1', lambda vw, M=M: sv(vw, M, lambda vw, k: z3.IntVal(1))))
            seen = set()
            for cn, cf, cr in cs + pool:
                h0 = cf(ctx.shape.head)
                if not is_int(h0) or zint(h0).get_id() in seen: continue
                if not cr.hav: seen.add(zint(h0).get_id())
                for dl in (-1, 0):
                    if cr.hav: out.append(Cand(f'{M} sieved to {cn}{dl:+d}', lambda vw, M=M, cf=cf, dl=dl: sv(vw, M, lambda vw, k: zint(simp(cf(vw) + dl)) if guard_int(cf(vw)) else None)))
                    if cr.hav or z3.is_int_value(zint(h0)): continue
                    for c2, f2, r2 in cs:
                        for d2 in (0,):
                            out.append(Cand(f'{M} sieved to {cn}{dl:+d} for the first {c2}{d2:+d} keys', lambda vw, M=M, cf=cf, dl=dl, f2=f2, d2=d2:
                                sv(vw, M, lambda vw, k: (LIDX(N, k) < zint(f2(vw)) + d2, zint(simp(cf(vw) + dl)), zint(simp(cf(vw) + (dl - 1)))) if guard_int(cf(vw), f2(vw)) else None)))
        return out
class Tables(Theory):
    """tabulated values (OEIS A006880, A046731): assumed reference data"""
    name = 'tables'
    def lemmas(s, A_, facts, goal):
        for z, in args_of(A_, 'pcount'):
            yield 'pcount_low', pcount_low.inst(z)
            for k_, v_ in enumerate(tables.A006880): yield 'oeis_A006880', z3.Implies(zint(z) == 10 ** k_, PCOUNT(z) == v_)
        for z, in args_of(A_, 'psum'):
            yield 'psum_low', psum_low.inst(z); yield 'psum_nonneg', psum_nonneg.inst(z); yield 'psum_bound', psum_bound.inst(z)
            for k_, v_ in enumerate(tables.A046731): yield 'oeis_A046731', z3.Implies(zint(z) == 10 ** k_, PSUM(z) == v_)
