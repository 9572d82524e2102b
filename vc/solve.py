"""Prover: ground instantiation of quantified facts and theory lemmas, ring certificates, z3, cvc5."""
import os, pickle, subprocess, sys, tempfile, time
import z3
from vals import *
from uf import *
import ring

def flat(f):
    """conjuncts"""
    if isinstance(f, bool): return [] if f else [z3.BoolVal(False)]
    if isinstance(f, FA): return [f]
    if z3.is_and(f):
        out = []
        for c in f.children(): out += flat(c)
        return out
    return [f]

SLOW = float(os.environ.get('VCSLOW', 0))
class Result:
    def __init__(s, status, backend='', model=None, t=0.0): s.status = status; s.backend = backend; s.model = model; s.t = t
    def __bool__(s): return s.status == 'proved'

class Prover:
    def __init__(s, theories=()):
        s.trace = False; s.theories = list(theories)
        s.nq = 0; s.tq = 0.0; s.cache = {}
        s.used_lemmas = set()
        s.deadline = None; s.dbg = False; s.last_lemmas = set(); s.jobs = min(8, os.cpu_count() or 1)
    # ---------------------------------------------------------------- cheap queries
    def _lin(s, fs, ms=400):
        sol = z3.SolverFor('QF_AUFNIA') if False else z3.Solver()
        sol.set('timeout', ms); sol.set('smt.arith.nl', False) if False else None
        for f in fs:
            if isinstance(f, FA): continue
            sol.add(zbool(f) if isinstance(f, bool) else f)
        t0 = time.time(); r = sol.check(); s.nq += 1; s.tq += time.time() - t0
        return r, sol
    def feasible(s, facts, conds):
        fs = []
        for c in list(conds) + list(facts):
            if isinstance(c, FA): continue
            fs += flat(c)
        key = ('f', tuple(sorted(f.get_id() for f in fs)))
        if key in s.cache: return s.cache[key][0]
        r = True
        for f in fs:
            if z3.is_false(f): r = False
        if r: r = s._lin([abstract(f) for f in fs], 300)[0] != z3.unsat
        s.cache[key] = (r, fs)
        return r
    def quick(s, facts, goal):
        goal = conc(goal)
        if isinstance(goal, bool): return goal
        fs = []
        for c in facts:
            if not isinstance(c, FA): fs += flat(c)
        fs.append(z3.Not(goal))
        key = ('f', tuple(sorted(f.get_id() for f in fs)))
        if key in s.cache: return not s.cache[key][0]
        r = s._lin([abstract(f) for f in fs], 300)[0] != z3.unsat
        s.cache[key] = (r, fs)
        return not r
    # ---------------------------------------------------------------- proofs
    def cand(s, facts, goal, theories): return bool(s.prove(facts, goal, theories, 1500, final=False))
    def key(s, facts, goal, theories):
        return ('p', frozenset(('fa', f.aid()) if isinstance(f, FA) else zbool(f).get_id() for f in facts), ('fa', goal.aid()) if isinstance(goal, FA) else zbool(goal).get_id(), len(theories))
    def pmap(s, tasks, ms=8000, final=True):
        """prove many goals in forked workers; tasks: [(facts, goal, theories or None)] -> [Result]"""
        out = [None] * len(tasks); todo = []
        for i, (fs, g, th) in enumerate(tasks):
            th = s.theories if th is None else th
            if not isinstance(g, FA):
                g = conc(g)
                if g is True: out[i] = Result('proved', 'trivial'); continue
            k = s.key(fs, g, th); c = s.cache.get(k)
            if c is not None and (c[0] or not final or c[0].status == 'failed'): out[i] = c[0]; continue
            todo.append((i, fs, g, th, k))
        n = min(s.jobs, len(todo) // 2)
        if n < 2:
            for i, fs, g, th, k in todo: out[i] = s.prove(fs, g, th, ms, final)
            return out
        kids = []
        sys.stdout.flush()
        for w in range(n):
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(rd); s.used_lemmas = set(); res = []; s.nq = 0; s.tq = 0.0
                    for j in range(w, len(todo), n):
                        i, fs, g, th, k = todo[j]
                        try: r = s.prove(fs, g, th, ms, final)
                        except Exception as e: r = Result('unknown', 'error ' + repr(e)[:100])
                        mod = None
                        if r.model is not None and final: mod = {d.name(): r.model[d].as_long() for d in r.model.decls() if d.arity() == 0 and z3.is_int_value(r.model[d])}
                        res.append((j, r.status, r.backend, mod, r.t))
                    with os.fdopen(wr, 'wb') as f: pickle.dump((res, s.used_lemmas, s.nq), f)
                finally: os._exit(0)
            os.close(wr); kids.append((pid, rd, w))
        for pid, rd, w in kids:
            try:
                with os.fdopen(rd, 'rb') as f: res, ul, nq = pickle.load(f)
            except Exception: res, ul, nq = [], set(), 0
            os.waitpid(pid, 0)
            s.used_lemmas |= ul; s.nq += nq
            for j, st, bk, mod, t in res:
                i, fs, g, th, k = todo[j]
                out[i] = Result(st, bk, mod, t)
                s.cache[k] = (out[i], list(fs), g)
        for i in range(len(out)):
            if out[i] is None: out[i] = Result('unknown', 'worker died')
        return out
    def prove(s, facts, goal, theories=None, ms=8000, final=True, depth=0):
        theories = s.theories if theories is None else theories
        t0 = time.time()
        if depth == 0:
            key = s.key(facts, goal, theories)
            c = s.cache.get(key)
            if c is not None and (c[0] or not final or c[0].status == 'failed'): return c[0]
            r = s.prove_(facts, goal, theories, ms, final, depth)
            if SLOW and time.time() - t0 > SLOW: print('   SLOW %.2f %s %s facts %d %s' % (time.time() - t0, r.status, r.backend, len(facts), str(goal)[:150].replace('\n', ' ')), flush=True)
            s.cache[key] = (r, list(facts), goal)
            return r
        return s.prove_(facts, goal, theories, ms, final, depth)
    def prove_(s, facts, goal, theories, ms, final, depth):
        t0 = time.time()
        goal = conc(goal) if not isinstance(goal, FA) else goal
        if goal is True: return Result('proved', 'trivial')
        fs = []; seen = set()
        for f in facts:
            for c in flat(f):
                k = ('fa', c.aid()) if isinstance(c, FA) else c.get_id()
                if k not in seen: seen.add(k); fs.append(c)
        if (('fa', goal.aid()) if isinstance(goal, FA) else zbool(goal).get_id()) in seen: return Result('proved', 'trivial')
        if any(not isinstance(f, FA) and z3.is_false(f) for f in fs): return Result('proved', 'trivial')
        if isinstance(goal, FA):
            ks = [fresh('sk') for _ in goal.vars]
            return s.prove(facts, goal.inst(ks), theories, ms, final, depth)
        if goal is False: goal = z3.BoolVal(False)
        if z3.is_and(goal):
            r = None; bk = set()
            for g in goal.children():
                r = s.prove(facts, g, theories, ms, final, depth)
                if not r: return r
                bk.add(r.backend)
            return Result('proved', '+'.join(sorted(bk)), None, time.time() - t0)
        if z3.is_implies(goal): return s.prove(list(facts) + flat(goal.arg(0)), goal.arg(1), theories, ms, final, depth)
        if z3.is_or(goal) and len(goal.children()) == 2 and z3.is_not(goal.arg(0)):
            return s.prove(list(facts) + flat(goal.arg(0).arg(0)), goal.arg(1), theories, ms, final, depth)
        if z3.is_eq(goal) and z3.is_bool(goal.arg(0)) and not any(isinstance(f, FA) for f in fs) is None and has_spec_bool(goal):
            a, b = goal.arg(0), goal.arg(1)
            r = s.prove(list(facts) + [a], b, theories, ms, final, depth)
            if not r: return r
            return s.prove(list(facts) + [b], a, theories, ms, final, depth)
        # simplification by defining equations (variables only)
        fs2, goal2 = subst_eqs([f for f in fs], goal)
        fs2, goal2 = squeeze(fs2, goal2)
        r = s._attempt(fs2, goal2, theories, ms, final)
        if r or depth >= 2: return r
        # case splits over boundary of skolem indices
        for sp in s.splits(fs2, goal2):
            ok = True; bk = set(); cex = None
            for c in sp:
                q = s.prove(list(fs2) + flat(c), goal2, theories, ms, final, depth + 1)
                if not q: ok = False; cex = q; break
                bk.add(q.backend)
            if ok: return Result('proved', '+'.join(sorted(bk)), None, time.time() - t0)
        return r
    def splits(s, facts, goal):
        """case splits: k < U with skolem k: k == U-1 or k < U-1;  conditions of if-then-else terms in dvd goals"""
        out = []
        if not has_spec_bool(goal): return out
        for f in facts:
            if isinstance(f, FA): continue
            v = None
            if z3.is_lt(f) or z3.is_le(f) or z3.is_gt(f) or z3.is_ge(f):
                a, b = f.arg(0), f.arg(1)
                if z3.is_gt(f) or z3.is_ge(f): a, b = b, a
                strict = z3.is_lt(f) or z3.is_gt(f)
                for x, y, up in ((a, b, True), (b, a, False)):
                    if z3.is_const(x) and x.decl().name().startswith('sk!') and not occurs(y, x):
                        e = (y - 1 if strict else y) if up else (y + 1 if strict else y)
                        e = zint(simp(e))
                        out.append([x == e, x < e if up else x > e])
            elif z3.is_not(f):
                g = f.arg(0)
                if z3.is_le(g) or z3.is_ge(g):
                    a, b = (g.arg(0), g.arg(1)) if z3.is_le(g) else (g.arg(1), g.arg(0))   # not (a <= b): b < a
                    for x, y, up in ((b, a, True), (a, b, False)):
                        if z3.is_const(x) and x.decl().name().startswith('sk!') and not occurs(y, x):
                            e = zint(simp(y - 1 if up else y + 1))
                            out.append([x == e, x < e if up else x > e])
        return out
    def maybe(s, base, extra):
        """filter: a guard that is false in one model of the (linearised) facts cannot be implied by them"""
        box = {}
        def f(guard):
            if 'm' not in box:
                r, sol = s._lin([abstract(x) for x in base if not isinstance(x, FA)], 500)
                box['m'] = sol.model() if r == z3.sat else None
            if box['m'] is None: return True
            v = box['m'].eval(abstract(zbool(guard)), model_completion=True)
            return not z3.is_false(v)
        return f
    def instances(s, facts, goal, theories, rounds=3, cap=400):
        """ground instances of quantified facts and theory lemmas"""
        ground = [f for f in facts if not isinstance(f, FA)]
        fas = [f for f in facts if isinstance(f, FA)]
        out = []; seen = set(); seenl = set()
        base = ground + [goal]
        cur = list(base)
        mb = s.maybe(ground, None)
        for th in theories: th.maybe = mb; th.fas = fas
        for rnd in range(rounds):
            apps_ = all_apps(cur)
            sel = selects(apps_)
            new = []
            hints = []
            for th in theories: hints += th.hints(apps_, ground, goal)
            for fa in fas:
                for ts in match(fa, sel, apps_, hints):
                    k = (id(fa),) + tuple(zint(t).get_id() for t in ts)
                    if k in seen: continue
                    seen.add(k); new.append(zbool(simp_b(fa.inst(ts))))
                    if len(seen) > cap: break
            for th in theories:
                for nm, inst in th.lemmas(apps_, ground + out, goal):
                    inst = simp_b(inst)
                    if inst is True: continue
                    inst = zbool(inst)
                    if inst.get_id() in seenl: continue
                    seenl.add(inst.get_id()); new.append(inst); s.last_lemmas.add(nm)
                    if len(seenl) > cap: break
            if not new: break
            out += new
            cur = cur + new
        return ground, out
    def _attempt(s, fs, goal, theories, ms, final):
        s.last_lemmas = set()
        t0 = time.time()
        g = goal
        def unsat(facts, lim, lin):
            sol = z3.Solver(); sol.set('timeout', lim)
            for f in facts: sol.add(abstract(expand(f)) if lin else f)
            sol.add(z3.Not(abstract(expand(g)) if lin else g))
            s.nq += 1
            return sol.check(), sol
        # 1. the quantifier-free facts alone, products opaque
        ground = [f for f in fs if not isinstance(f, FA)]
        if unsat(ground, 300, True)[0] == z3.unsat: return Result('proved', 'z3', None, time.time() - t0)
        ground, inst = s.instances(fs, goal, theories)
        allf = ground + inst
        nl = any(nonlinear(f) for f in allf) or nonlinear(g)
        def done(bk):
            s.used_lemmas |= s.last_lemmas
            return Result('proved', bk, None, time.time() - t0)
        # 2. with instances, products opaque
        if nl and unsat(allf, min(ms, 1500), True)[0] == z3.unsat: return done('z3')
        # 3. polynomial certificates
        if is_dvd(g) or (z3.is_eq(g) and z3.is_int(g.arg(0))):
            if not is_dvd(g) and unsat(allf, 1000, False)[0] == z3.unsat: return done('z3')
            if s.limited(lambda: s.ring(allf, g), 30 if final else 8): return done('ring')
        # 4. everything
        r, sol = unsat(allf, ms, False)
        if r == z3.unsat: return done('z3')
        if r == z3.sat: return Result('failed', 'z3', sol.model(), time.time() - t0)
        if final and cvc5(sol, max(2, ms // 1000)) == 'unsat': return done('cvc5')
        return Result('unknown', 'z3', None, time.time() - t0)
    def limited(s, f, secs):
        """f() within a time limit (workers run it in their main thread)"""
        def stop(*a): raise TimeoutError
        import signal
        old = signal.signal(signal.SIGALRM, stop); signal.setitimer(signal.ITIMER_REAL, secs)
        try: return f()
        except TimeoutError: return False
        finally: signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, old)
    def ring(s, facts, goal):
        eqs = []; dv = []
        def take(f):
            for c in flat(f):
                if z3.is_eq(c) and z3.is_int(c.arg(0)): eqs.append(c.arg(0) - c.arg(1))
                elif is_dvd(c): dv.append((c.arg(0), c.arg(1)))
        later = []
        for f in facts:
            if z3.is_implies(f): later.append((f.arg(0), f.arg(1)))
            elif z3.is_or(f) and len(f.children()) == 2 and (z3.is_not(f.arg(0)) or z3.is_not(f.arg(1))):
                a, b = f.children()
                if not z3.is_not(a): a, b = b, a
                later.append((a.arg(0), b))
            else: take(f)
        base = [f for f in facts if not (z3.is_implies(f) or z3.is_or(f))]
        for a, b in later:
            if any(z3.is_eq(c) or is_dvd(c) for c in flat(b)) and s.quick(base, a): take(b)
        if is_dvd(goal):
            M, E = goal.arg(0), goal.arg(1)
            gens = [M] + [x for m, x in dv if m.eq(M)] + eqs
            if not any(m.eq(M) for m, x in dv):
                for m, x in dv: pass
            if s.dbg: print('RING', E); [print('   gen', x) for x in gens]
            r = ring.member(E, gens)
            if r is None:
                # dvd(d, x) with another divisor: introduce quotient
                gens = list(gens)
                for m, x in dv:
                    if not m.eq(M): gens.append(x - m * fresh('quo'))
                r = ring.member(E, gens)
            return r is not None
        r = ring.member(goal.arg(0) - goal.arg(1), eqs)
        return r is not None

def is_dvd(g): return z3.is_app(g) and g.decl().name() == 'dvd'
def has_app(fs, nm): return any(apps(f, nm) for f in fs)
def simp_b(e):
    if isinstance(e, bool): return e
    if isinstance(e, FA): return e
    return conc(e)
def occurs(e, x):
    st = [e]; seen = set()
    while st:
        y = st.pop()
        if y.get_id() in seen: continue
        seen.add(y.get_id())
        if y.eq(x): return True
        st += y.children()
    return False
_SB = ('dvd', 'pairwise', 'prime', 'key')
def has_spec_bool(g): return any(apps(g, n) for n in _SB)

def abstract(f):
    """nonlinear products are abstracted to opaque constants (keeps queries linear)"""
    memo = {}
    def go(e):
        i = e.get_id()
        if i in memo: return memo[i]
        r = e
        if z3.is_app(e) and e.num_args():
            ch = [go(c) for c in e.children()]
            k = e.decl().kind()
            if k == z3.Z3_OP_MUL:
                nn = [c for c in ch if not z3.is_int_value(c)]
                if len(nn) > 1:
                    nums = [c for c in ch if z3.is_int_value(c)]
                    nn.sort(key=lambda x: (not z3.is_const(x), x.get_id()))
                    p = nn[-1]
                    for c in reversed(nn[:-1]): p = MULU(c, p)
                    r = p
                    for c in nums: r = c * r
                    memo[i] = r; return r
            if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(ch[1]):
                r = (IDIVU if k == z3.Z3_OP_IDIV else IMODU)(*ch)
                memo[i] = r; return r
            if any(not a.eq(b) for a, b in zip(ch, e.children())):
                if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_DISTINCT):
                    r = {z3.Z3_OP_AND: lambda: z3.And(*ch), z3.Z3_OP_OR: lambda: z3.Or(*ch), z3.Z3_OP_ADD: lambda: z3.Sum(*ch), z3.Z3_OP_DISTINCT: lambda: z3.Distinct(*ch),
                         z3.Z3_OP_MUL: lambda: z3.Product(*ch), z3.Z3_OP_SUB: lambda: reduce_sub(ch)}[k]()
                else: r = e.decl()(*ch)
        memo[i] = r
        return r
    return go(f)
_NL = {}
def nonlinear(f):
    i = f.get_id()
    if i in _NL: return _NL[i][0]
    r = False
    if z3.is_app(f):
        k = f.decl().kind()
        r = k == z3.Z3_OP_MUL and sum(not z3.is_int_value(c) for c in f.children()) > 1 or k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(f.arg(1)) or any(nonlinear(c) for c in f.children())
    _NL[i] = (r, f)
    return r
_EX = {}
def expand(f):
    """products multiplied out in the atoms that have them"""
    i = f.get_id()
    if i in _EX: return _EX[i][0]
    r = f
    if nonlinear(f): r = z3.simplify(f, som=True)
    _EX[i] = (r, f)
    return r
def reduce_sub(ch):
    r = ch[0]
    for c in ch[1:]: r = r - c
    return r
MULU = z3.Function('mul!', I, I, I); IDIVU = z3.Function('idiv!', I, I, I); IMODU = z3.Function('imod!', I, I, I)

def subst_eqs(fs, goal):
    """eliminate equations  const = term  for skolem / fresh integer constants (keeps terms syntactically aligned)"""
    for _ in range(30):
        hit = None
        for i, f in enumerate(fs):
            if isinstance(f, FA) or not z3.is_eq(f) or not z3.is_int(f.arg(0)): continue
            a, b = f.arg(0), f.arg(1)
            for x, y in ((a, b), (b, a)):
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('sk!') and not occurs(y, x):
                    hit = (i, x, y); break
            if hit: break
        if not hit: return fs, goal
        i, x, y = hit
        nf = []
        for j, f in enumerate(fs):
            if j == i: continue
            if isinstance(f, FA):
                b = z3.substitute(f.body, (x, y)); nf.append(f if b.eq(f.body) else FA(f.vars, b, f.name))
            else: nf.append(norm_args(z3.substitute(f, (x, y))))
        fs = nf; goal = norm_args(z3.substitute(goal, (x, y)))
    return fs, goal
def squeeze(fs, goal):
    """x <= e and e <= x with x a loop constant: replace x by e everywhere"""
    for _ in range(6):
        low = {}; hit = None; keep = []
        for f in fs:
            if isinstance(f, FA): continue
            g = f; neg = False
            if z3.is_not(g): g = g.arg(0); neg = True
            if z3.is_le(g): a, b = g.arg(0), g.arg(1)
            elif z3.is_ge(g): b, a = g.arg(0), g.arg(1)
            elif z3.is_lt(g): a, b = g.arg(0), g.arg(1) - 1
            elif z3.is_gt(g): b, a = g.arg(0) - 1, g.arg(1)
            else: continue
            if neg: a, b = b + 1, a
            # a <= b
            d = z3.simplify(a - b, som=True); keep.append(d)
            if z3.is_int_value(d): continue
            kd, km = linkey(d, 1), linkey(d, -1)
            if km in low:
                x = pick(d)
                if x is not None: hit = (x, solve_for(d, x)); break
            low[kd] = f
        if not hit: break
        x, y = hit
        nf = [x == y]
        for f in fs:
            if isinstance(f, FA):
                b = z3.substitute(f.body, (x, y)); nf.append(f if b.eq(f.body) else FA(f.vars, norm_args(b), f.name))
            else:
                g = conc(z3.simplify(z3.substitute(f, (x, y)))) if (z3.is_le(f) or z3.is_ge(f) or z3.is_not(f)) else norm_args(z3.substitute(f, (x, y)))
                if g is True: continue
                nf.append(zbool(g))
        fs = nf[1:]; goal = norm_args(z3.substitute(goal, (x, y)))
    return fs, goal
def linkey(d, sg):
    out = []
    for t in (d.children() if z3.is_add(d) else [d]):
        if z3.is_int_value(t): out.append((0, sg * t.as_long()))
        elif z3.is_mul(t) and z3.is_int_value(t.arg(0)) and len(t.children()) == 2: out.append((t.arg(1).get_id(), sg * t.arg(0).as_long()))
        else: out.append((t.get_id(), sg))
    return tuple(sorted(out))
def pick(d):
    """the youngest loop constant with coefficient +-1 in the linear term d"""
    best = None
    for t in (d.children() if z3.is_add(d) else [d]):
        c = t
        if z3.is_mul(t) and len(t.children()) == 2 and z3.is_int_value(t.arg(0)) and abs(t.arg(0).as_long()) == 1: c = t.arg(1)
        if z3.is_const(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED and c.decl().name().startswith('h!'):
            k = int(c.decl().name()[2:])
            if best is None or k > best[0]: best = (k, c)
    return best[1] if best else None
def solve_for(d, x):
    """d == 0 solved for x (coefficient +-1)"""
    r = z3.simplify(z3.substitute(d, (x, z3.IntVal(0))), som=True)
    s1 = z3.simplify(z3.substitute(d, (x, z3.IntVal(1))) - r, som=True)
    return z3.simplify(-r if s1.as_long() == 1 else r, som=True)
def norm_args(e):
    """simplify the integer arguments of uninterpreted functions and selects"""
    memo = {}
    def go(e):
        i = e.get_id()
        if i in memo: return memo[i]
        r = e
        if z3.is_app(e) and e.num_args():
            k = e.decl().kind()
            ch = [go(c) for c in e.children()]
            if k in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_STORE) and not e.decl().name() == 'dvd':
                ch = [z3.simplify(c) if z3.is_int(c) else c for c in ch]
            if any(not a.eq(b) for a, b in zip(ch, e.children())):
                if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB): 
                    r = {z3.Z3_OP_AND: lambda: z3.And(*ch), z3.Z3_OP_OR: lambda: z3.Or(*ch), z3.Z3_OP_ADD: lambda: z3.Sum(*ch),
                         z3.Z3_OP_MUL: lambda: z3.Product(*ch), z3.Z3_OP_SUB: lambda: reduce_sub(ch)}[k]()
                else: r = e.decl()(*ch)
            while z3.is_select(r) and z3.is_store(r.arg(0)):
                d = z3.simplify(r.arg(1) - r.arg(0).arg(1))
                if not z3.is_int_value(d): break
                r = r.arg(0).arg(2) if d.as_long() == 0 else z3.Select(r.arg(0).arg(0), r.arg(1))
        memo[i] = r
        return r
    return go(e)

# -------------------------------------------------------------------------------- matching of quantified facts
def selects(apps_):
    """[(array term, index)] incl. the arrays under stores"""
    out = []; seen = set()
    for t in apps_.get('select', []):
        a, i = t.arg(0), t.arg(1)
        while True:
            k = (a.get_id(), i.get_id())
            if k not in seen: seen.add(k); out.append((a, i))
            if z3.is_store(a): a = a.arg(0)
            else: break
    return out
def lin_solve(pat, v, t):
    """pat(v) == t  ->  v as a term, when pat is  +-v + c"""
    if pat.eq(v): return t
    if not occurs(pat, v): return None
    z = z3.IntVal(0)
    c = z3.substitute(pat, (v, z))
    d = z3.simplify(z3.substitute(pat, (v, z3.IntVal(1))) - c)
    if z3.is_int_value(d) and abs(d.as_long()) == 1:
        d2 = z3.simplify(z3.substitute(pat, (v, z3.IntVal(5))) - c - 5 * d)
        if z3.is_int_value(d2) and d2.as_long() == 0:
            return z3.simplify(t - c if d.as_long() == 1 else c - t)
    return None
def trig(fa):
    if getattr(fa, '_trig', None) is None:
        tr = {}
        a = all_apps([fa.body])
        for nm, ts in a.items():
            if nm in ('store', 'divmod'): continue
            for t in ts:
                for v in fa.vars:
                    if nm == 'select':
                        if occurs(t.arg(1), v) and not occurs(t.arg(0), v): tr.setdefault(v.get_id(), []).append(('select', t.arg(0), t.arg(1)))
                    elif nm.startswith('idx!') or nm in ('fib', 'fact', 'sieve', 'psum'):
                        for k in range(t.num_args()):
                            if occurs(t.arg(k), v): tr.setdefault(v.get_id(), []).append(('app', nm, k, t.arg(k)))
        fa._trig = tr
    return fa._trig
def match(fa, sel, apps_, hints, cap=60):
    tr = trig(fa); cands = []
    for v in fa.vars:
        c = {}
        for t in tr.get(v.get_id(), []):
            if t[0] == 'select':
                for a, i in sel:
                    if a.eq(t[1]):
                        x = lin_solve(t[2], v, i)
                        if x is not None: c[x.get_id()] = x
            elif fa.name != 'noapp':
                for g in apps_.get(t[1], []):
                    x = lin_solve(t[3], v, g.arg(t[2]))
                    if x is not None: c[x.get_id()] = x
        keyed = any(t[0] == 'select' and z3.is_array(t[1]) and t[1].sort().range() == z3.BoolSort() and t[2].eq(v) for t in tr.get(v.get_id(), []))   # map keys: no index hints
        for hh in hints:
            if isinstance(hh[0], str):
                if keyed: c[hh[1].get_id()] = hh[1]
                continue
            if hh[0] is None or any(t[0] == 'select' and t[1].eq(hh[0]) for t in tr.get(v.get_id(), [])):
                x = zint(simp(hh[1]))
                for t in tr.get(v.get_id(), []):
                    if t[0] == 'select' and hh[0] is not None and t[1].eq(hh[0]):
                        y = lin_solve(t[2], v, x)
                        if y is not None: c[y.get_id()] = y
                if hh[0] is None and not keyed: c[x.get_id()] = x
        cands.append(list(c.values()))
    out = [[]]
    for c in cands:
        out = [o + [x] for o in out for x in c]
        if len(out) > cap * 8: out = out[:cap * 8]
    return out

def cvc5(sol, secs):
    txt = '(set-logic ALL)\n' + sol.sexpr() + '\n(check-sat)\n'
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt); p = f.name
    try:
        r = subprocess.run(['cvc5', '--nl-ext-tplanes', f'--tlimit={secs*1000}', p], capture_output=True, text=True, timeout=secs + 5)
        return r.stdout.strip().split('\n')[0] if r.stdout else 'unknown'
    except Exception: return 'unknown'
    finally: os.unlink(p)
