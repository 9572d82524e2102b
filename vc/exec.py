"""Symbolic execution of MIR with function contracts and inferred loop invariants."""
import re, time, sys
import z3
from vals import *
from uf import *
import mir, adt

class Frame:
    __slots__ = ('fn', 'L', 'bb', 'dest', 'target', 'id', 'fidx')
    def __init__(s, fn, L, dest, target, id): s.fn = fn; s.L = L; s.bb = 0; s.dest = dest; s.target = target; s.id = id
    def copy(s):
        f = Frame(s.fn, dict(s.L), s.dest, s.target, s.id); f.bb = s.bb; return f

class State:
    __slots__ = ('frames', 'heap', 'facts', 'ret', 'trail')
    def __init__(s): s.frames = []; s.heap = {}; s.facts = []; s.ret = None; s.trail = ()
    def copy(s):
        t = State(); t.frames = [f.copy() for f in s.frames]; t.heap = dict(s.heap); t.facts = list(s.facts); t.trail = s.trail
        return t
    @property
    def top(s): return s.frames[-1]
    def add(s, *fs):
        for f in fs:
            if f is True: continue
            s.facts.append(zbool(f) if isinstance(f, bool) else f)
    def frame(s, id):
        for f in reversed(s.frames):
            if f.id == id: return f
        raise Unsupported('dangling frame')

class Obl:
    __slots__ = ('name', 'facts', 'goal', 'kind', 'where', 'inputs', 'loops')
    def __init__(s, name, facts, goal, kind, where, inputs=None): s.name = name; s.facts = facts; s.goal = goal; s.kind = kind; s.where = where; s.inputs = inputs; s.loops = ()

class Call:
    __slots__ = ('fid', 'fn', 'key', 'selfty', 'args', 'argtys', 'destty', 'targs', 'where')

class LoopFail(Exception): pass

class Exec:
    MAXSTEP = 400000
    def __init__(s, prog, prover, theories=(), contracts=None, concrete=False):
        s.prog = prog; s.T = prog.T; s.prover = prover; s.theories = list(theories)
        s.contracts = contracts or {}
        s.concrete = concrete
        s.pins = []; s.dry = 0; s.fast = False; s.refuted = {}; s.obls = []; s.nid = 0; s.steps = 0
        s.conc_next = False; s.sym_next = False
        s.used_models = set(); s.used_contracts = set(); s.inlined = set(); s.loops = {}
        s.main = None; s.deadline = None; s.lost = []; s.env = {}; s.tracer = None
        import intr
        s.handlers = intr.HANDLERS; s.intr = intr
        s.synth = intr.SYNTH

    # ---------------------------------------------------------------- helpers
    def feasible(s, st, *conds):
        for c in conds:
            if c is False: return False
        if s.concrete: return True
        return s.prover.feasible(st.facts, [c for c in conds if c is not True])
    def fork(s, st, cases):
        """cases: [(cond, thunk)] -> list of states with cond added"""
        out = []
        live = [(c, x) for c, x in cases if c is not False]
        for c, x in live:
            if c is True: return [(st, x)] if len(live) == 1 else s._fork(st, live)
        return s._fork(st, live)
    def _fork(s, st, live):
        out = []
        if len(live) == 1 and live[0][0] is True: return [(st, live[0][1])]
        for c, x in live:
            if c is not True and not s.feasible(st, c): continue
            t = st.copy(); t.add(c); out.append((t, x))
        return out
    def branch(s, st, cond):
        """-> (state if true or None, state if false or None)"""
        cond = conc(cond)
        if cond is True: return st, None
        if cond is False: return None, st
        a = b = None
        if s.feasible(st, cond): a = st.copy(); a.add(cond)
        n = Not(cond)
        if s.feasible(st, n): b = st.copy(); b.add(n)
        return a, b
    def oblige(s, st, goal, kind, where):
        goal = conc(goal)
        if goal is True:
            if not s.dry and not s.concrete: s.obls.append(Obl(f'{where}:{kind}', (), True, kind, where))
            return True
        if s.concrete:
            if goal is False: raise ConcretePanic(f'{where}:{kind}')
            return True
        if s.dry:
            if goal is False: return False
            if not s.feasible(st, goal): return False
            st.add(goal); return True
        s.obls.append(Obl(f'{where}:{kind}', list(st.facts), goal, kind, where)); s.obls[-1].loops = st.trail
        if goal is False: return False
        st.add(goal)
        return s.feasible(st)
    def oblige_post(s, st, goal, kind, where):
        if s.concrete or s.dry: return
        if goal is None: raise Unsupported(kind)
        s.obls.append(Obl(f'{where}:{kind}', list(st.facts), goal, 'contract', where)); s.obls[-1].loops = st.trail
    def oblige_pre(s, st, goal, kind, where):
        s.oblige_post(st, goal, kind, where)
        if not s.concrete and goal is not None: st.add(goal)
    def range_facts(s, e, ty):
        lo, hi = s.prog.rng(ty)
        out = []
        if isinstance(e, ArithRef):
            if lo is not None: out.append(e >= lo)
            if hi is not None: out.append(e <= hi)
        return out
    def fresh_int(s, st, hint, ty=None):
        e = fresh(hint)
        if ty is not None: st.add(*s.range_facts(e, ty))
        return e
    def where(s, st):
        f = st.top
        while f.fn.id.startswith('@') or not f.fn.local:
            i = st.frames.index(f)
            if i == 0: break
            f = st.frames[i-1]
        ln = f.fn.blocks[f.bb].get('line', 0) if f.bb < len(f.fn.blocks) else 0
        return f'{short(f.fn.id)}@{ln}'

    # ---------------------------------------------------------------- types of places / operands
    def place_ty(s, fn, p):
        t = fn.locals[p['l']]; var = 0
        for e in p['p']:
            k = e[0]
            if k == 'field': t = e[2]; continue
            if t is None: continue
            tt = s.T[t]
            if k == 'deref':
                t = tt['elem'] if 'elem' in tt else (tt['args'][0] if tt['k'] == 'adt' else t)
            elif k == 'field': t = e[2]
            elif k in ('index', 'cindex'): t = tt['elem']
            elif k == 'subslice': pass
        return t
    def op_ty(s, fn, o):
        if o[0] in ('copy', 'move'): return s.place_ty(fn, o[1])
        c = o[1]
        if 'ty' in c: return c['ty']
        return None

    # ---------------------------------------------------------------- memory
    def select(s, st, seq, i):
        i = simp(i)
        if isinstance(seq, SeqC):
            if isinstance(i, int):
                if 0 <= i < len(seq.xs): return seq.xs[i]
                raise Unsupported('concrete index out of range')
            if not seq.xs: return fresh('oob')
            if all(is_int(x) for x in seq.xs):
                e = seq.xs[-1]
                for j in range(len(seq.xs) - 2, -1, -1): e = If(i == j, seq.xs[j], e)
                return e
            raise Unsupported('symbolic index into structured sequence')
        if isinstance(seq, SeqZ):
            e = z3.Select(seq.arr, zint(simp(seq.off + i)))
            if seq.ety is not None:
                if not s.scalar(seq.ety): return adt.lift(s, st, e, seq.ety)
                st.add(*s.range_facts(e, seq.ety))
            return e
        raise Unsupported(f'index into {type(seq).__name__}')
    def get_path(s, st, v, path):
        dv = 0
        for e in path:
            if isinstance(v, It) or isinstance(v, Opq): raise Unsupported('field of opaque value')
            if isinstance(e, tuple) and e[0] == 'd':
                if isinstance(v, ObjV): dv = e[1]
                continue
            if e == 'box':
                if isinstance(v, BoxV): v = v.v
                else: raise Unsupported('box deref')
            elif isinstance(e, int):
                if isinstance(v, Agg):
                    if e >= len(v.fs): raise Unsupported(f'field {e} of {v}')
                    v = v.fs[e]
                elif isinstance(v, ObjV): v = adt.field(s, st, v, dv, e); dv = 0
                elif v is UNINIT: return UNINIT
                elif isinstance(v, BoxV) and e == 0: return v
                else: raise Unsupported(f'field {e} of {type(v).__name__}')
            elif e[0] == 'i': v = s.select(st, v, e[1])
            elif e[0] == 'k': v = s.map_value(st, v, e[1])
            else: raise Unsupported(f'path {e}')
        return v
    def map_value(s, st, m, k):
        if isinstance(m, MapC):
            if is_conc(k) and k in m.d: return m.d[k]
            m = map_to_z(m)
        e = z3.Select(m.val, zint(k))
        return s.map_lift(st, m, e)
    def map_lift(s, st, m, e):
        if m.vty is not None:
            if not s.scalar(m.vty): return adt.lift(s, st, e, m.vty)
            st.add(*s.range_facts(e, m.vty))
        return e
    def scalar(s, ty): return s.prog.is_big(ty) or s.prog.is_int(ty)
    def enc(s, x):
        """integer stored for x in a symbolic sequence or map"""
        return x if is_int(x) else adt.code(s, s._st, x)
    def set_path(s, v, path, x, dv=0):
        if not path: return x
        e = path[0]; rest = path[1:]
        if isinstance(e, tuple) and e[0] == 'd': return s.set_path(v, rest, x, e[1])
        if isinstance(v, ObjV): v = adt.expand(s, s._st, v, dv)
        if e == 'box':
            if isinstance(v, BoxV): return BoxV(s.set_path(v.v, rest, x))
            if v is UNINIT: return BoxV(s.set_path(UNINIT, rest, x))
        elif isinstance(e, int):
            if v is UNINIT: v = Agg(None, 0, ())
            if isinstance(v, Agg):
                fs = list(v.fs)
                while len(fs) <= e: fs.append(UNINIT)
                fs[e] = s.set_path(fs[e], rest, x)
                return Agg(v.ty, v.var, fs)
        elif e[0] == 'i':
            i = simp(e[1])
            if isinstance(v, SeqC) and isinstance(i, int):
                xs = list(v.xs); xs[i] = s.set_path(xs[i], rest, x); return SeqC(xs, v.ety)
            if isinstance(v, (SeqC, SeqZ)):
                v = seq_to_z(v)
                if rest: x = s.set_path(s.select(s._st, v, i), rest, x)
                return SeqZ(z3.Store(v.arr, zint(simp(v.off + i)), zint(s.enc(x))), v.off, v.len, v.ety)
        elif e[0] == 'k':
            if isinstance(v, MapC) and is_conc(e[1]):
                d = dict(v.d); d[e[1]] = s.set_path(d.get(e[1], UNINIT), rest, x); return MapC(d, v.kty, v.vty)
            if isinstance(v, (MapC, MapZ)):
                v = map_to_z(v)
                if rest: x = s.set_path(s.map_lift(s._st, v, z3.Select(v.val, zint(e[1]))), rest, x)
                return MapZ(v.dom, z3.Store(v.val, zint(e[1]), zint(s.enc(x))), v.kty, v.vty)
        raise Unsupported(f'write through {e} of {type(v).__name__}')
    def root_get(s, st, root):
        if root[0] == 'L': return st.frame(root[1]).L.get(root[2], UNINIT)
        return st.heap[root[1]]
    def root_set(s, st, root, v):
        if root[0] == 'L': st.frame(root[1]).L[root[2]] = v
        else: st.heap[root[1]] = v
    def resolve(s, st, fr, p):
        cur = ('m', ('L', fr.id, p['l']), ())
        for e in p['p']:
            k = e[0]
            if k == 'deref':
                v = s.cur_get(st, cur)
                if isinstance(v, Ref): cur = ('v', v.v, ())
                elif isinstance(v, Mut): cur = ('m', v.root, v.path)
                elif isinstance(v, BoxV): cur = (cur[0], cur[1], cur[2] + ('box',))
                else: raise Unsupported(f'deref of {v!r}')
            elif k == 'field': cur = (cur[0], cur[1], cur[2] + (e[1],))
            elif k == 'downcast':
                try: w = s.cur_get(st, cur)
                except Unsupported: w = None
                if isinstance(w, ObjV): cur = (cur[0], cur[1], cur[2] + (('d', e[1]),))
            elif k == 'opaque': pass
            elif k == 'index': cur = (cur[0], cur[1], cur[2] + (('i', fr.L[e[1]]),))
            elif k == 'cindex':
                if e[3]:
                    n = s.seq_len(s.cur_get(st, cur)); ix = simp(n - e[1])
                else: ix = e[1]
                cur = (cur[0], cur[1], cur[2] + (('i', ix),))
            elif k == 'subslice':
                v = s.cur_get(st, cur); n = s.seq_len(v)
                to = simp(n - e[2]) if e[3] else e[2]
                cur = ('v', s.subseq(v, e[1], to), ())
            else: raise Unsupported(f'projection {k}')
        return cur
    def cur_get(s, st, cur):
        if cur[0] == 'v': return s.get_path(st, cur[1], cur[2])
        return s.get_path(st, s.root_get(st, cur[1]), cur[2])
    def read(s, st, fr, p): return s.cur_get(st, s.resolve(st, fr, p))
    def write(s, st, fr, p, x):
        cur = s.resolve(st, fr, p)
        if cur[0] == 'v': raise Unsupported('write through shared reference')
        s.mut_set(st, Mut(cur[1], cur[2]), x)
    def mut_get(s, st, m): return s.get_path(st, s.root_get(st, m.root), m.path)
    def mut_set(s, st, m, x):
        s._st = st
        s.root_set(st, m.root, s.set_path(s.root_get(st, m.root), m.path, x))
    def alloc(s, st, v):
        s.nid += 1; st.heap[s.nid] = v
        return Mut(('H', s.nid))
    def val(s, st, x):
        """strip references: the value itself"""
        while True:
            if isinstance(x, Ref): x = x.v
            elif isinstance(x, Mut): x = s.mut_get(st, x)
            else: return x
    def seq_len(s, v):
        if isinstance(v, SeqC): return len(v.xs)
        if isinstance(v, SeqZ): return v.len
        if isinstance(v, str): return len(v.encode())
        if isinstance(v, StrV): return app(UTF8LEN, v.e)
        raise Unsupported(f'len of {type(v).__name__}')
    def subseq(s, v, a, b):
        a = simp(a); b = simp(b)
        if isinstance(v, SeqC):
            if isinstance(a, int) and isinstance(b, int): return SeqC(v.xs[a:b], v.ety)
            v = seq_to_z(v)
        if isinstance(v, SeqZ): return SeqZ(v.arr, simp(v.off + a), simp(b - a), v.ety)
        raise Unsupported('subslice')

    # ---------------------------------------------------------------- constants / operands
    def const(s, c):
        k = c['v']
        if k == 'int': return int(c['x'])
        if k == 'unit': return UNIT
        if k == 'bool': return c['x']
        if k == 'str': return Ref(c['x'])
        if k == 'ref': return Ref(s.const(c['x']))
        if k == 'array': return SeqC([s.const(x) for x in c['x']], c.get('elem'))
        if k == 'agg': return Agg(c['ty'], c['variant'], [s.const(x) for x in c['x']])
        if k == 'fn':
            return FnV(c['inst'])
        if k == 'zst':
            t = s.T[c['ty']]
            if t['k'] == 'fndef': return FnV(t.get('inst'))
            if t['k'] == 'array': return SeqC((), t['elem'])
            return Agg(c['ty'], 0, ())
        return Opq(c.get('dbg', 'const')[:60])
    def operand(s, st, fr, o):
        if o[0] == 'const': return s.const(o[1])
        v = s.read(st, fr, o[1])
        return v

    # ---------------------------------------------------------------- arithmetic
    def wrap(s, st, e, ty):
        lo, hi = s.prog.rng(ty)
        if lo is None and hi is None: return e
        n = hi - lo + 1
        if isinstance(e, int): return (e - lo) % n + lo
        if s.prover.quick(st.facts, z3.And(e >= lo, e <= hi)): return e
        return z3.If(e > hi, z3.If(e - n > hi, (e - lo) % n + lo, e - n), z3.If(e < lo, z3.If(e + n < lo, (e - lo) % n + lo, e + n), e))
    def tdivrem(s, st, a, b):
        """truncating quotient and remainder (b != 0 already established)"""
        a = simp(a); b = simp(b)
        if isinstance(a, int) and isinstance(b, int): return c_tdiv(a, b), c_trem(a, b)
        if isinstance(b, int) and b > 0:
            if s.prover.quick(st.facts, zint(a) >= 0): return simp(a / b), simp(a % b)
            q = z3.If(a >= 0, a / b, -((-a) / b))
            return q, a - b * q
        q = app(TDIV, a, b); r = app(TREM, a, b)
        st.add(*tdiv_facts(a, b, q, r))
        return q, r
    def binop(s, st, fr, op, a, b, ty, rty):
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return s.compare(st, op, a, b)
        if is_bool(a) and is_bool(b):
            if op == 'BitAnd': return And(a, b)
            if op == 'BitOr': return Or(a, b)
            if op == 'BitXor': return conc(z3.simplify(z3.Xor(zbool(a), zbool(b))))
        if not (is_int(a) and is_int(b)): raise Unsupported(f'binop {op} on {a!r}')
        if op in ('Add', 'AddUnchecked'): return s.wrap(st, simp(a + b), ty)
        if op in ('Sub', 'SubUnchecked'): return s.wrap(st, simp(a - b), ty)
        if op in ('Mul', 'MulUnchecked'): return s.wrap(st, simp(a * b) if isinstance(a, int) or isinstance(b, int) else a * b, ty)
        if op in ('Div', 'Rem'):
            q, r = s.tdivrem(st, a, b)
            return q if op == 'Div' else r
        if isinstance(a, int) and isinstance(b, int):
            lo, hi = s.prog.rng(ty); w = s.T[ty]['bits']
            if op == 'BitAnd': return a & b
            if op == 'BitOr': return a | b
            if op == 'BitXor': return a ^ b
            if op.startswith('Shl'): return s.wrap(st, a << (b % w), ty)
            if op.startswith('Shr'): return a >> (b % w)
        lo, _ = s.prog.rng(ty)
        if op == 'BitAnd':
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and y >= 0 and (y & (y + 1)) == 0: return simp(x % (y + 1)) if y else 0
        if op.startswith('Shr') and isinstance(b, int) : return simp(a / (1 << b))
        if op.startswith('Shl') and isinstance(b, int) : return s.wrap(st, simp(a * (1 << b)), ty)
        if op == 'BitOr' and isinstance(b, int) and b == 1 and lo == 0: return simp(a - a % 2 + 1)
        if op == 'BitXor' and isinstance(b, int) and b == 1 and lo == 0: return simp(z3.If(a % 2 == 0, a + 1, a - 1))
        raise Unsupported(f'symbolic {op}')
    def compare(s, st, op, a, b):
        a = s.val(st, a); b = s.val(st, b)
        if isinstance(a, str) and isinstance(b, str) or (is_int(a) and is_int(b)):
            r = {'Eq': lambda: a == b, 'Ne': lambda: a != b, 'Lt': lambda: a < b, 'Le': lambda: a <= b, 'Gt': lambda: a > b, 'Ge': lambda: a >= b}[op]()
            return conc(r)
        if is_text(a) and is_text(b) and op in ('Eq', 'Ne'):
            r = conc(simp(zint(scode(a)) == scode(b)))
            return r if op == 'Eq' else Not(r)
        if is_bool(a) and is_bool(b):
            if op == 'Eq': return conc(z3.simplify(zbool(a) == zbool(b)))
            if op == 'Ne': return conc(z3.simplify(zbool(a) != zbool(b)))
        raise Unsupported(f'compare {a!r} {b!r}')
    def rvalue(s, st, fr, r, dty, nxt):
        k = r[0]; fn = fr.fn
        if k == 'use': return s.operand(st, fr, r[1])
        if k == 'ref' or k == 'addr':
            p = r[2] if k == 'ref' else r[1]
            cur = s.resolve(st, fr, p)
            if cur[0] == 'v': return Ref(s.cur_get(st, cur))
            if (k == 'ref' and r[1]) or (k == 'addr' and s.T[dty].get('mut')): return Mut(cur[1], cur[2])
            return Ref(s.cur_get(st, cur))
        if k == 'bin':
            ty = s.op_ty(fn, r[2])
            a = s.operand(st, fr, r[2]); b = s.operand(st, fr, r[3])
            if r[1] == 'Cmp': return s.ordering(st, a, b, dty)
            return s.binop(st, fr, r[1], a, b, ty, dty)
        if k == 'chk':
            ty = s.op_ty(fn, r[2])
            a = s.operand(st, fr, r[2]); b = s.operand(st, fr, r[3])
            op = r[1].replace('WithOverflow', '')
            e = simp(a + b) if op == 'Add' else simp(a - b) if op == 'Sub' else (simp(a * b) if isinstance(a, int) or isinstance(b, int) else a * b)
            lo, hi = s.prog.rng(ty)
            ovf = conc(Or(e < lo, e > hi)) if not isinstance(e, int) else not (lo <= e <= hi)
            t = nxt
            if not (t and t[0] == 'assert' and t[3].startswith('overflow')): e = s.wrap(st, e, ty)
            return Agg(dty, 0, (e, ovf))
        if k == 'un':
            a = s.operand(st, fr, r[2]); op = r[1]
            if op == 'Not':
                if is_bool(a): return Not(a)
                lo, hi = s.prog.rng(dty)
                return simp(hi - a) if lo == 0 else simp(-1 - a)
            if op == 'Neg': return s.wrap(st, simp(-a), dty)
            if op == 'PtrMetadata':
                v = s.val(st, a); return s.seq_len(v)
            raise Unsupported(f'unop {op}')
        if k == 'cast':
            kind = r[1]
            if kind.startswith('BoxDerefTransmute'):
                p = r[2][1]
                if p['p'] and p['p'][-1][0] == 'field':
                    q = {'l': p['l'], 'p': p['p'][:-1]}
                    cur = s.resolve(st, fr, q); v = s.cur_get(st, cur)
                    if isinstance(v, Mut): return v
                    if isinstance(v, BoxV):
                        if cur[0] == 'v': return Ref(v.v)
                        return Mut(cur[1], cur[2] + ('box',))
                raise Unsupported('box pointer')
            a = s.operand(st, fr, r[2])
            if kind.startswith('IntToInt') or kind.startswith('Transmute') and (is_int(a) or is_bool(a)):
                if is_bool(a): return If(a, 1, 0) if not isinstance(a, bool) else int(a)
                if not s.prog.is_int(r[3]): raise Unsupported(f'cast {kind}')
                return s.wrap(st, a, r[3])
            if kind.startswith('PointerCoercion') or kind.startswith('PtrToPtr') or kind.startswith('Transmute') or kind.startswith('Subtype'): return a
            raise Unsupported(f'cast {kind}')
        if k == 'discr':
            v = s.read(st, fr, r[1])
            if isinstance(v, Agg):
                if v.ty is not None and s.T[v.ty]['k'] == 'adt':
                    d = int(s.T[v.ty]['variants'][v.var]['discr'])
                else: d = v.var
                return s.wrap(st, d, dty) if dty is not None and s.prog.is_int(dty) else d
            if isinstance(v, ObjV): return adt.kind(s, st, v)
            raise Unsupported(f'discriminant of {type(v).__name__}')
        if k == 'len': return s.seq_len(s.val(st, s.read(st, fr, r[1])))
        if k == 'repeat': return SeqC([s.operand(st, fr, r[1])] * r[2])
        if k == 'agg':
            ops = [s.operand(st, fr, o) for o in r[2]]
            kk = r[1]
            if kk[0] == 'array': return SeqC(ops, kk[1])
            if kk[0] == 'tuple': return Agg(dty, 0, ops)
            if kk[0] == 'adt': return adt.coded(s, st, Agg(kk[1], kk[2], ops))
            if kk[0] == 'closure': return Agg(kk[1], 0, ops)
            if kk[0] == 'rawptr' : return ops[0]
        raise Unsupported(f'rvalue {k} {str(r)[:80]}')
    def ordering(s, st, a, b, ty):
        a = s.val(st, a); b = s.val(st, b)
        if is_conc(a) and is_conc(b): return Agg(ty, 0 if a < b else 1 if a == b else 2, ())
        raise Unsupported('symbolic three-way compare in expression')

    # ---------------------------------------------------------------- running
    def push(s, st, fn, args, dest, target):
        s.nid += 1
        if len(st.frames) > 60: raise Unsupported('inlining depth')
        L = {}
        if fn.argc != len(args): raise Unsupported(f'arity of {fn.id}')
        for i, a in enumerate(args): L[i+1] = a
        st.frames.append(Frame(fn, L, dest, target, s.nid))
        if fn.local: s.inlined.add(fn.id)
    def call_sync(s, st, fv, args, argtys=None, where=''):
        """run a call to completion: list of (state, value)"""
        fr = Frame(s.intr.STUB, {}, None, None, s.new_id())
        st = st.copy(); st.frames.append(fr)
        depth = len(st.frames); pins = s.pins
        s.pins = pins + [a for a in args if isinstance(a, Mut)]      # what the caller can still see through a reference
        try:
            sts = s.invoke(st, fv, args, {'l': 0, 'p': []}, 0, argtys)
            out = []
            for t in s.explore(sts, depth, None, stop_depth=depth):
                v = t.top.L.get(0, UNINIT); t.frames.pop(); out.append((t, v))
        finally: s.pins = pins
        return out
    def new_id(s): s.nid += 1; return s.nid

    def invoke(s, st, fv, args, dest, target, argtys=None):
        """call of a function value: -> list of states (callee frame pushed or result already written)"""
        fv0 = fv
        holder = fv if isinstance(fv, Mut) else None
        fv = s.val(st, fv)
        if isinstance(fv, FnV): return s.do_call(st, fv.inst, args, argtys, dest, target)
        if isinstance(fv, BoxV): return s.invoke(st, fv.v, args, dest, target, argtys)
        if isinstance(fv, Agg) and fv.ty is not None and s.T[fv.ty]['k'] == 'closure':
            fn = s.prog.fns.get(s.T[fv.ty].get('inst'))
            if fn is None or not fn.blocks: raise Unsupported('closure body')
            t0 = s.T[fn.locals[1]]
            if t0['k'] == 'ref':
                if t0.get('mut'): env = holder if holder is not None else s.alloc(st, fv)
                else: env = Ref(fv)
            else: env = fv
            s.push(st, fn, [env] + list(args), dest, target)
            return [st]
        raise Unsupported(f'call of {fv!r}')

    def ret_to(s, st, dest, target, v):
        """write the result of a call and continue at target"""
        fr = st.top
        s.write(st, fr, dest, v)
        fr.bb = target
        return st

    def panic(s, st, why):
        w = s.where(st)
        s.oblige(st, False, f'no panic ({why})', w)
        return []

    def do_call(s, st, fid, args, argtys, dest, target):
        fn = s.prog.fns.get(fid) if not fid.startswith('@') else s.synth.get(fid)
        if fn is None and fid not in s.handlers: raise Unsupported(f'unknown callee {fid}')
        key = fn.key if fn is not None else fid
        if PANIC.search(fid): return s.panic(st, key.split('::')[-1])
        if fn is not None and fn.blocks and len(args) == 2 and argtys and argtys[1] is not None and re.search(r'\{closure#\d+\}$', fid):
            t1 = s.T[argtys[1]]
            if t1['k'] == 'tuple' and (fn.argc == 1 or argtys[1] != fn.locals[2]) and isinstance(s.val(st, args[1]), Agg):   # rust-call ABI: the arguments come as one tuple
                tv = s.val(st, args[1]); args = [args[0]] + list(tv.fs); argtys = [argtys[0]] + list(t1['elems'])
        c = Call(); c.fid = fid; c.fn = fn; c.key = key; c.selfty = fn.selfty if fn is not None else None
        c.args = args; c.argtys = argtys or [None] * len(args); c.where = s.where(st)
        fr = st.top
        c.destty = s.place_ty(fr.fn, dest) if dest is not None and fr.fn.locals else None
        c.targs = fn.targs if fn is not None else []
        if getattr(fn, 'sig', None) is not None:
            if c.destty is None: c.destty = fn.sig[1]
            if len(fn.sig[0]) == len(c.argtys): c.argtys = [a if a is not None else b for a, b in zip(c.argtys, fn.sig[0])]
        if fn is not None and fn.d.get('derived') and key == 'std::clone::Clone::clone' and len(args) == 1:
            s.used_models.add('#[derive(Clone)]: the clone equals its original')
            return [s.ret_to(st, dest, target, s.val(st, args[0]))]
        if fn is not None and fn.local:
            con = s.contracts.get(short(fid)) if not s.concrete else None
            if con is None and not s.concrete and fid != '' and s.prog.recursive(fid, s.contracts):
                con = s.rec_contract(fn)
                if con is None: raise Unsupported(f'recursive function without contract: {fid}')
            if con is not None and fid != getattr(s, 'verifying_entry', None):
                s.used_contracts.add(short(fid))
                return [s.ret_to(t, dest, target, v) for t, v in con.apply(s, st, args)]
            if con is not None and s.depth_of(st, fid) >= 1:
                s.used_contracts.add(short(fid))
                return [s.ret_to(t, dest, target, v) for t, v in con.apply(s, st, args)]
        h = s.handlers.get(key)
        if h is not None and not (fn is not None and fn.local):
            r = h(s, st, c)
            if r is not None:
                s.used_models.add(fid)
                if isinstance(r, tuple) and r[0] == '@call':   # tail call: ('@call', state, fnvalue, args)
                    return s.invoke(r[1], r[2], r[3], dest, target)
                out = []
                for t, v in r:
                    if v is s.intr.RETRY:
                        if t.top.bb not in t.top.fn.heads() and not s.concrete: raise Unsupported('filtered iterator outside a loop head')
                        out.append(t)
                    else: out.append(s.ret_to(t, dest, target, v))
                return out
        if fn is not None and fn.blocks:
            if target is None and not fn.local: return s.panic(st, key)
            s.push(st, fn, args, dest, target)
            return [st]
        if target is None: return s.panic(st, key)
        raise Unsupported(f'no model for {fid}')
    def depth_of(s, st, fid): return sum(1 for f in st.frames if f.fn.id == fid)
    def rec_contract(s, fn):
        for th in s.theories:
            c = th.rec_contract(s, fn)
            if c is not None:
                s.contracts[short(fn.id)] = c
                return c
        return None

    def explore(s, sts, depth, loop, stop_depth=None):
        """run until the frame at index depth-1 returns to its caller (stop_depth) / returns (outermost).
        loop = (frame index, head, body) -> returns (backs, exits)"""
        work = [(t, True) for t in sts]; done = []; backs = []; exits = []
        while work:
            st, entering = work.pop()
            s.steps += 1
            if s.steps > s.MAXSTEP: raise Unsupported('step limit')
            if s.deadline and time.time() > s.deadline: raise Unsupported('time limit of the proof attempt')
            if stop_depth is not None and len(st.frames) == stop_depth and st.frames[-1].fn is s.intr.STUB:
                done.append(st); continue
            fr = st.top
            if loop is not None and len(st.frames) - 1 == loop[0] and entering != 'first':
                if fr.bb == loop[1]: backs.append(st); continue
                if fr.bb not in loop[2]: exits.append(st); continue
            if fr.bb in fr.fn.heads() and entering != 'first' and fr.bb not in getattr(fr.fn, 'nohead', ()):
                for t in s.run_loop(st): work.append((t, True))
                continue
            for t in s.step_block(st):
                if t.ret is not None: done.append(t)
                else: work.append((t, True))
        return done if loop is None else (backs, exits)

    def step_block(s, st):
        """execute the block at the top frame; -> successor states"""
        fr = st.top; blk = fr.fn.blocks[fr.bb]
        for q in blk['s']:
            if q[0] == '=':
                dty = s.place_ty(fr.fn, q[1])
                s.write(st, fr, q[1], s.rvalue(st, fr, q[2], dty, blk['t']))
            elif q[0] == 'setdiscr':
                v = s.read(st, fr, q[1])
                s.write(st, fr, q[1], Agg(s.place_ty(fr.fn, q[1]), q[2], v.fs if isinstance(v, Agg) else ()))
            else: raise Unsupported(str(q)[:60])
        t = blk['t']; k = t[0]
        if k == 'goto': fr.bb = t[1]; return [st]
        if k == 'drop': fr.bb = t[2]; return [st]
        if k == 'return':
            v = fr.L.get(0, UNIT)
            st.frames.pop()
            if not st.frames: st.ret = v if v is not UNINIT else UNIT; return [st]
            return [s.ret_to(st, fr.dest, fr.target, v)]
        if k == 'switch':
            v = s.operand(st, fr, t[1]); ty = s.op_ty(fr.fn, t[1])
            v = conc(v)
            if isinstance(v, str): raise Unsupported('switch on str')
            out = []
            vals = []
            for n, b in t[2]:
                n = int(n)
                if ty is not None and s.T[ty]['k'] == 'int' and s.T[ty]['signed'] and n >= 1 << (s.T[ty]['bits'] - 1): n -= 1 << s.T[ty]['bits']
                vals.append((n, b))
            if is_bool(v):
                def cond(n): return v if n == 1 else Not(v)
                if isinstance(v, bool):
                    for n, b in vals:
                        if bool(n) == v: fr.bb = b; return [st]
                    fr.bb = t[3]; return [st]
            elif isinstance(v, int):
                for n, b in vals:
                    if n == v: fr.bb = b; return [st]
                fr.bb = t[3]; return [st]
            elif is_int(v):
                def cond(n): return v == n
            else: raise Unsupported(f'switch on {v!r}')
            cases = [(cond(n), b) for n, b in vals]
            cases.append((And(*[Not(c) for c, _ in cases]), t[3]))
            for u, b in s.fork(st, cases):
                u.top.bb = b; out.append(u)
            return out
        if k == 'assert':
            c = s.operand(st, fr, t[1])
            if not t[2]: c = Not(c)
            if s.oblige(st, c, f'no {t[3]}', s.where(st)): fr.bb = t[4]; return [st]
            return []
        if k == 'call':
            args = [s.operand(st, fr, o) for o in t[2]]
            argtys = [s.op_ty(fr.fn, o) for o in t[2]]
            f = s.operand(st, fr, t[1])
            if isinstance(f, FnV) and f.inst is None: raise Unsupported('unresolved callee')
            if isinstance(f, FnV): return s.do_call(st, f.inst, args, argtys, t[3], t[4])
            return s.invoke(st, f, args, t[3], t[4], argtys)
        if k == 'unreachable':
            if s.concrete: raise ConcretePanic('unreachable')
            return []
        raise Unsupported(f'terminator {k}')

    # ---------------------------------------------------------------- loops
    def prune(s, st):
        """forget dead locals (keeps the shape of loop states small)"""
        keep = {}
        def reach(v):
            if isinstance(v, Mut):
                r = v.root
                if r not in keep:
                    keep[r] = True
                    try: reach(s.root_get(st, r))
                    except (Unsupported, KeyError): return
            if isinstance(v, Node):
                for x in v.kids(): reach(x)
        livesets = []
        for i, f in enumerate(st.frames):
            if f.fn is s.intr.STUB or not f.fn.blocks: live = set(f.L)
            elif i == len(st.frames) - 1: live = f.fn.live()[f.bb]
            else:
                nf = st.frames[i+1]
                live = set(f.fn.live()[nf.target]) if nf.target is not None else set()
                if nf.dest is not None:
                    if nf.dest['p']: live = live | {nf.dest['l']}
                    for e in nf.dest['p']:
                        if e[0] == 'index': live = live | {e[1]}
            livesets.append(live)
            for l in live:
                if l in f.L: reach(f.L[l])
        for a in s.pins: reach(a)
        for f, live in zip(st.frames, livesets):
            f.L = {l: v for l, v in f.L.items() if l in live or ('L', f.id, l) in keep}
        st.heap = {h: v for h, v in st.heap.items() if ('H', h) in keep}
    def values(s, st):
        """root -> value of the whole live state"""
        out = {}
        for i, f in enumerate(st.frames):
            for l in sorted(f.L): out[('L', f.id, l)] = f.L[l]
        for h in sorted(st.heap): out[('H', h)] = st.heap[h]
        return out
    def with_values(s, st, vals):
        t = st.copy()
        for r, v in vals.items(): s.root_set(t, r, v)
        return t
    def root_ty(s, st, root):
        if root[0] == 'L':
            f = st.frame(root[1])
            return f.fn.locals[root[2]] if f.fn.locals and root[2] < len(f.fn.locals) else None
        return None

    def run_loop(s, st0):
        fr = st0.top; head = fr.bb; fn = fr.fn; fidx = len(st0.frames) - 1
        body = fn.loop_body(head); lp = (fidx, head, body)
        s.prune(st0)
        def one(st):
            save = s.conc_next, s.sym_next
            s.conc_next = s.sym_next = False
            b, e = s.explore_loop(st, lp)
            flags = s.conc_next, s.sym_next
            s.conc_next, s.sym_next = save
            return b, e, flags
        if s.concrete:
            cur = [st0]; ex = []
            while cur:
                c = cur.pop()
                if s.tracer is not None: s.prune(c); s.tracer.snap(s, c)
                b, e, _ = one(c); ex += e; cur += b
            return ex
        # ---- concretely driven loops are unrolled
        nob = len(s.obls); cur = st0.copy(); exits = []; ok = False; facts0 = len(st0.facts)
        for it in range(300):
            b, e, (cn, sn) = one(cur)
            if sn or len(b) > 1 or (b and e and not cn) or (b and it > 40 and not cn): break
            exits += e
            if not b: ok = True; break
            cur = b[0]
        if ok: return exits
        del s.obls[nob:]; save = s.conc_next, s.sym_next
        try: return Loop(s, st0, lp).run()
        finally: s.conc_next, s.sym_next = save
    def explore_loop(s, st, lp):
        st = st.copy()
        work = s.step_block(st)
        backs = []; exits = []
        b, e = s.explore(work, None, lp)
        return b, e

class ConcretePanic(Exception): pass

PANIC = re.compile(r'(^|::)panicking::|unwrap_failed|expect_failed|slice_index_fail|begin_panic|overflow_panic|handle_alloc_error|panic_fmt|::panic_\w+$|unimplemented_default|unreachable_display|process::abort|process::exit|^std::rt::')
def short(fid):
    return re.sub(r'^[\w]+::', '', fid, count=1)
# -------------------------------------------------------------------------------------------- loops
class NodeRef:
    """a position in the live state at a loop head"""
    def __init__(s, root, path, ty, kind, hav): s.root = root; s.path = path; s.ty = ty; s.kind = kind; s.hav = hav
    def get(s, view):
        v = view[s.root]
        for i in s.path:
            k = v.kids()
            if i >= len(k): return None
            v = k[i]
        return v
    def __repr__(s): return f'{s.root[0]}{s.root[-1]}' + ''.join(f'.{i}' for i in s.path)

class Cand:
    __slots__ = ('name', 'f', 'alive', 'ok_entry', 'stage')
    def __init__(s, name, f): s.name = name; s.f = f; s.alive = True
class Shape: pass

import os
DEBUG = __import__("os").environ.get("VCDEBUG")
class Loop:
    def __init__(s, ex, st0, lp):
        s.ex = ex; s.st0 = st0; s.lp = lp
        s.name = f'{short(st0.top.fn.id)}:bb{lp[1]}'
        s.shapes = []; s.keep = []
    # -- generalisation
    def merge(s, a, b, root, path, hav):
        """generalise template value a with observed b; collects changed leaf paths in hav; None if the shapes differ"""
        if isinstance(a, (SeqC, SeqZ)) and isinstance(b, (SeqC, SeqZ)) and (type(a) != type(b) or a.tag() != b.tag()):
            a = seq_to_z(a); b = seq_to_z(b)
            if a.ety is None: a = SeqZ(a.arr, a.off, a.len, b.ety)
        if isinstance(a, (MapC, MapZ)) and isinstance(b, (MapC, MapZ)) and a.tag() != b.tag():
            a = map_to_z(a); b = map_to_z(b)
        if isinstance(a, StrV) and isinstance(b, str): b = StrV(z3.IntVal(lit_code(b)))
        elif isinstance(a, str) and isinstance(b, StrV): a = StrV(z3.IntVal(lit_code(a)))
        if isinstance(a, Node) != isinstance(b, Node): return None
        if isinstance(a, Node):
            if a.tag() != b.tag(): return None
            ks = []
            for i, (x, y) in enumerate(zip(a.kids(), b.kids())):
                m = s.merge(x, y, root, path + (i,), hav)
                if m is None: return None
                ks.append(m)
            return a.rebuild(tuple(ks))
        if same(a, b): return a
        if is_int(a) and is_int(b): hav.add((root, path)); return a
        if isinstance(a, ArrayRef) and isinstance(b, ArrayRef): hav.add((root, path)); return a
        if is_bool(a) and is_bool(b):
            if isinstance(a, bool) and isinstance(b, bool): return None
            hav.add((root, path)); return a
        return None
    def match(s, shape, vals):
        """-> (template, hav) or None"""
        if set(shape.tmpl) != set(vals): return None
        hav = set(shape.hav); t = {}
        for r, v in shape.tmpl.items():
            m = s.merge(v, vals[r], r, (), hav)
            if m is None: return None
            t[r] = m
        return t, hav
    def canon(s, vals):
        return vals
    def build_head(s, sh):
        """head state of a shape: havocked leaves replaced by fresh constants"""
        st = s.st0.copy()
        # frames/heap restricted to the roots of the shape
        for f in st.frames: f.L = {l: v for l, v in f.L.items() if ('L', f.id, l) in sh.tmpl}
        st.heap = {h: v for h, v in st.heap.items() if ('H', h) in sh.tmpl}
        for r in sh.tmpl:
            v = sh.tmpl[r]
            for (rr, p) in sh.hav:
                if rr != r: continue
                if (rr, p) in sh.eqs:
                    rep, sg, dl = sh.eqs[(rr, p)]
                    v = put_leaf(v, p, simp(s.const(sh, rep, None) * sg + dl)); continue
                v = put_leaf(v, p, s.const(sh, (rr, p), v))
            if r[0] == 'L': st.frame(r[1]).L[r[2]] = v
            else: st.heap[r[1]] = v
        sh.head = {r: s.ex.root_get(st, r) for r in sh.tmpl}
        st.top.bb = s.lp[1]; st.trail = st.trail + (s.name,)
        st.add(*s.type_facts(sh))
        return st
    def const(s, sh, key, v):
        if key not in sh.consts:
            if v is None: v = sh.tmpl[key[0]]
            leaf = v
            for i in key[1]: leaf = leaf.kids()[i]
            if is_bool(leaf): c = fresh('hb', 'B')
            elif isinstance(leaf, ArrayRef): c = fresh('ha', leaf.sort())
            else: c = fresh('h')
            sh.consts[key] = c
        return sh.consts[key]
    def find_eqs(s, sh):
        """changed integers that move in lockstep (same or opposite constant step on every back edge) share one constant"""
        ex = s.ex
        if sh.entry is None: return
        st = s.build_head(sh)
        backs, _ = ex.explore_loop(st, s.lp)
        if not backs: return
        convs = []
        for b in backs:
            ex.prune(b)
            tgt, conv = s.target(ex.values(b))
            if tgt is not sh: return
            convs.append(conv)
        groups = {}
        for key in sorted(sh.hav, key=repr):
            r, p = key
            h = get_leaf(sh.head[r], p)
            e = get_leaf(sh.entry[r], p)
            if not is_int(h) or e is None or not is_int(e): continue
            ds = []
            for c in convs:
                v = get_leaf(c[r], p)
                d = simp(zint(v) - zint(h)) if v is not None and is_int(v) else None
                ds.append(d if isinstance(d, int) else None)
            if any(d is None for d in ds) or not any(ds): continue
            ds = tuple(ds); neg = tuple(-d for d in ds)
            if ds in groups: groups[ds].append((key, 1, e))
            elif neg in groups: groups[neg].append((key, -1, e))
            else: groups[ds] = [(key, 1, e)]
        if DEBUG: print('LOCK', s.name, groups, [(k, get_leaf(sh.head[k[0]],k[1]), [get_leaf(c[k[0]],k[1]) for c in convs]) for k in sh.hav])
        for g in groups.values():
            k0, _, e0 = g[0]
            for k, sg, e in g[1:]: sh.eqs[k] = (k0, sg, simp(zint(e) - sg * zint(e0)))
    def eq_cands(s, sh):
        out = []
        for k, (k0, sg, dl) in sh.eqs.items():
            def f(vw, k=k, k0=k0, sg=sg, dl=dl):
                a, b = get_leaf(vw[k[0]], k[1]), get_leaf(vw[k0[0]], k0[1])
                if a is None or b is None or not (is_int(a) and is_int(b)): return None
                return conc(zint(a) == sg * zint(b) + dl)
            out.append(Cand(f'lockstep {k[0][-1]}{list(k[1])} {k0[0][-1]}{list(k0[1])}', f))
        return out
    def walk(s, v, ty, path=()):
        """typed nodes of a value"""
        yield path, v, ty
        if not isinstance(v, Node): return
        ex = s.ex; T = ex.T
        kt = [None] * len(v.kids())
        if isinstance(v, (Ref, Mut, BoxV)) and ty is not None:
            t = T[ty]
            if 'elem' in t and isinstance(v, Ref): kt = [t['elem']]
        elif isinstance(v, Agg):
            t = T[v.ty] if v.ty is not None else (T[ty] if ty is not None else None)
            if t is not None:
                if t['k'] == 'tuple': kt = list(t['elems'])
                elif t['k'] == 'adt' and v.var < len(t['variants']): kt = [f[1] for f in t['variants'][v.var]['fields']]
        elif isinstance(v, SeqC) and v.ety is not None: kt = [v.ety] * len(v.xs)
        kt += [None] * (len(v.kids()) - len(kt))
        for i, k in enumerate(v.kids()): yield from s.walk(k, kt[i], path + (i,))
    def type_facts(s, sh):
        out = []
        for r, v in sh.head.items():
            for p, x, ty in s.walk(v, s.ex.root_ty(s.st0, r) if r[0] == 'L' else None):
                if ty is not None and is_int(x) and (r, p) in sh.hav: out += s.ex.range_facts(x, ty)
                if isinstance(x, SeqZ): out.append(zint(x.len) >= 0); out.append(zint(x.off) >= 0)
        return out
    def refs(s, sh):
        ex = s.ex
        ints = []; seqs = []; maps = []; its = []
        for r, v in sh.head.items():
            for p, x, ty in s.walk(v, ex.root_ty(s.st0, r) if r[0] == 'L' else None):
                hav = any(rr == r and pp[:len(p)] == p for rr, pp in sh.hav)
                if is_int(x):
                    k = 'u'
                    w = v
                    for i in p:
                        if isinstance(w, It) and i < len(w.ints): k = 'c'
                        if isinstance(w, SeqZ): k = 's'
                        w = w.kids()[i]
                    if ty is not None: k = 'b' if ex.prog.is_big(ty) else 'm' if ex.prog.is_int(ty) else 'c'
                    ints.append(NodeRef(r, p, ty, k, hav))
                elif isinstance(x, SeqZ): seqs.append(NodeRef(r, p, ty, 'seq', hav))
                elif isinstance(x, MapZ): maps.append(NodeRef(r, p, ty, 'map', hav))
                elif isinstance(x, It): its.append(NodeRef(r, p, ty, 'it', hav))
        # children of SeqZ / It: classify
        return ints, seqs, maps, its

    def run(s):
        ex = s.ex
        ex.dry += 1
        fast0 = ex.fast
        try:
            vals0 = ex.values(s.st0)
            sh = Shape(); sh.tmpl = dict(vals0); sh.hav = set(); sh.consts = {}; sh.eqs = {}; sh.entry = vals0
            s.shapes = [sh]
            # 1. generalise to a stable set of shapes (nested loops: without looking for their invariants)
            ex.fast = True
            for rnd in range(30):
                changed = False
                for sh in list(s.shapes):
                    st = s.build_head(sh)
                    backs, _ = ex.explore_loop(st, s.lp)
                    for b in backs:
                        ex.prune(b)
                        if s.absorb(ex.values(b)): changed = True
                if not changed: break
                if len(s.shapes) > 8: raise Unsupported(f'loop {s.name}: too many control shapes')
            else: raise Unsupported(f'loop {s.name}: no stable shape')
            # 2. candidates
            s.shapes[0].entry = {r: s.convert(s.shapes[0].tmpl[r], v) for r, v in s.shapes[0].entry.items()}
            if len(s.shapes) == 1: s.find_eqs(s.shapes[0])
            ex.fast = fast0
            for i, sh in enumerate(s.shapes):
                s.build_head(sh)
                s.candidates(sh, i == 0)
            n0 = s.stat()
            s.houdini()
            if ex.prover.trace: print(f'   [{s.name}] candidates {n0} kept {s.stat()}')
        finally: ex.dry -= 1; ex.fast = fast0
        # 3. final pass
        exits = []
        ex.loops[s.name] = [c.name for sh in s.shapes for c in sh.cands]
        if not ex.dry:
            late = [c for c in s.shapes[0].cands if getattr(c, 'stage', 0)]
            if late:
                for g in s.extra: s.emit(s.st0, g, f'fact before the loop: {g.name}')
            for c in s.shapes[0].cands:
                s.emit(s.st0, c.f(s.shapes[0].entry), f'loop invariant on entry: {c.name}', s.extra if c in late else ())
        edges = []
        for sh in s.shapes:
            st = s.head_state(sh)
            backs, exs = ex.explore_loop(st, s.lp)
            exits += exs
            if not ex.dry:
                for b in backs:
                    ex.prune(b); vb = ex.values(b)
                    tgt, conv = s.target(vb)
                    for c in tgt.cands: s.emit(b, c.f(conv), f'loop invariant preserved: {c.name}')
                edges.append((sh, [(b, s.target(ex.values(b))[0]) for b in backs]))
        if not ex.dry:
            def reach(a):
                seen = []; work = [a]
                while work:
                    for sh, bs in edges:
                        if sh is work[0]:
                            for _, t in bs:
                                if all(t is not q for q in seen): seen.append(t); work.append(t)
                    work.pop(0)
                return seen
            for sh, bs in edges:      # a control shape that is left for good needs no measure
                s.termination(sh, [b for b, t in bs if any(q is sh for q in reach(t)) or t is sh])
        return exits
    def stat(s): return sum(len(sh.cands) for sh in s.shapes)
    def emit(s, st, goal, what, extra=()):
        if goal is None: return
        s.ex.obls.append(Obl(f'{s.name}:{what}', list(st.facts) + list(extra), goal, 'invariant', s.name)); s.ex.obls[-1].loops = st.trail + (s.name,)
    def absorb(s, vals):
        best = None
        for sh in s.shapes:
            m = s.match(sh, vals)
            if m is not None:
                t, hav = m
                if hav != sh.hav or any(not same(t[r], sh.tmpl[r]) for r in t):
                    sh.tmpl = t; sh.hav = hav; sh.consts = {}
                    return True
                return False
        sh = Shape(); sh.tmpl = dict(vals); sh.hav = set(); sh.consts = {}; sh.eqs = {}; sh.entry = None
        base = s.shapes[0].tmpl
        for r, v in vals.items():
            for p, leaf in leaves(v):
                if not isinstance(leaf, z3.ExprRef): continue
                b = base.get(r); okp = True
                try:
                    for i in p: b = b.kids()[i]
                except Exception: okp = False
                if not okp or not same(b, leaf): sh.hav.add((r, p))
        s.shapes.append(sh)
        return True
    def target(s, vals):
        """shape that covers the observed values, and the values converted to its representation"""
        for sh in s.shapes:
            if set(sh.tmpl) != set(vals): continue
            hav = set(); conv = {}; ok = True
            for r, v in sh.tmpl.items():
                m = s.merge(v, vals[r], r, (), hav)
                if m is None: ok = False; break
                conv[r] = s.convert(v, vals[r])
            if ok and hav <= sh.hav: return sh, conv
        raise Unsupported(f'loop {s.name}: state not covered')
    def convert(s, tmpl, v):
        if isinstance(tmpl, SeqZ) and isinstance(v, SeqC): return seq_to_z(v)
        if isinstance(tmpl, MapZ) and isinstance(v, MapC): return map_to_z(v)
        if isinstance(tmpl, StrV) and isinstance(v, str): return StrV(z3.IntVal(lit_code(v)))
        if isinstance(tmpl, Node) and isinstance(v, Node) and tmpl.kids():
            return v.rebuild(tuple(s.convert(a, b) for a, b in zip(tmpl.kids(), v.kids())))
        return v
    def candidates(s, sh, entry):
        ex = s.ex
        ints, seqs, maps, its = s.refs(sh)
        sh.ints = ints
        if ex.fast:
            sh.cands = list(s.eq_cands(sh)); return
        vws = []; refuted = set()
        if ex.tracer is not None:
            import trace
            vws = trace.views(ex.tracer, s, sh)
            refuted = ex.refuted.setdefault((s.name, tuple(sorted((r[0], r[-1], p) for r, p in sh.hav)), len(vws)), set())
        ctx = Ctx(); ctx.ints = ints; ctx.seqs = seqs; ctx.maps = maps; ctx.its = its; ctx.ex = ex; ctx.loop = s; ctx.shape = sh
        cands = generic_cands(ctx)
        fixed = s.eq_cands(sh)
        for th in ex.theories: cands += th.candidates(ctx)
        sh.cands = list(fixed)
        names = set()
        forms = set(); nt = [0, 0]; todo = []
        for c in cands:
            if c.name in names or c.name in refuted: continue
            names.add(c.name)
            f = c.f(sh.head)
            if f is None or f is True: continue
            if isinstance(f, FA):
                if ('fa', f.aid()) in forms: continue
                forms.add(('fa', f.aid())); s.keep.append(f)
            if isinstance(f, z3.ExprRef):
                g = z3.simplify(f)
                if g.get_id() in forms or z3.is_true(g): continue
                forms.add(g.get_id()); s.keep.append(g)
            bad = False
            for vw, b in vws:
                g = c.f(vw)
                if g is None: continue
                h = trace.holds(g, b)
                if h is None: nt[1] += 1
                if h is False: bad = True; refuted.add(c.name); break
            nt[0] += 1
            if bad:
                if DEBUG and DEBUG in c.name: print('TRACE-DROP', c.name, g, {k: v for k, v in b.items() if not isinstance(v, trace.CArr)}, {k: v.d for k, v in b.items() if isinstance(v, trace.CArr)})
                continue
            todo.append((c, c.f(sh.entry) if entry else True))
        todo = [(c, e) for c, e in todo if e is not None]
        extra = []
        for stage in (0, 1):
            late = []
            for (c, e), r in zip(todo, ex.prover.pmap([(list(s.st0.facts) + extra, e, ex.theories) for c, e in todo], 1500, False)):
                if r:
                    c.stage = stage; sh.cands.append(c)
                else:
                    if isinstance(e, FA): late.append((c, e))
                    if stage and DEBUG and DEBUG in c.name: print('ENTRY-DROP', c.name, r.status, e)
            if stage == 0 and entry:
                s.extra = extra = [c.f(sh.entry) for c in sh.cands if isinstance(c.f(sh.entry), FA)]
            if not late or not extra: break
            todo = late
        if ex.prover.trace: print(f'   [{s.name}] views {len(vws)} candidates tested {nt[0]} undecided evaluations {nt[1]} kept {len(sh.cands)} %.1fs' % time.process_time())
    def head_state(s, sh):
        st = s.build_head(sh)
        for c in sh.cands:
            f = c.f(sh.head)
            if f is not None: st.add(f)
        return st
    def houdini(s):
        ex = s.ex
        for rnd in range(40):
            dropped = False
            for sh in s.shapes:
                st = s.head_state(sh)
                backs, _ = ex.explore_loop(st, s.lp)
                for b in backs:
                    ex.prune(b)
                    tgt, conv = s.target(ex.values(b))
                    cs = list(tgt.cands); gs = [c.f(conv) for c in cs]
                    rs = ex.prover.pmap([(b.facts, False if g is None else g, ex.theories) for g in gs], 1500, False)
                    for c, g, r in zip(cs, gs, rs):
                        if g is None or not r:
                            if c.name.startswith('lockstep '): raise Unsupported(f'loop {s.name}: {c.name} is not preserved')
                            tgt.cands.remove(c); dropped = True
                            if ex.prover.trace:
                                print(f'   [{s.name}] drop {c.name}', r.status)
                                if DEBUG and DEBUG in c.name:
                                    print('GOAL', g)
                                    for q in b.facts: print('    ', q)
                                    import solve
                                    sk = [z3.Int(f'sk!{q}') for q in range(len(g.vars))]
                                    gg = g.inst(sk); P = ex.prover; P.jobs = 1
                                    base = [q for q in b.facts]
                                    base = [x for q in base for x in solve.flat(q)] + solve.flat(gg.arg(0)); gg = gg.arg(1)
                                    f2, g2 = solve.squeeze(*solve.subst_eqs(base, gg))
                                    for sp in P.splits(f2, g2):
                                        for c in sp:
                                            print('  SPLIT', c, P.prove(f2 + [c], g2, ex.theories, 3000, False, 2).status)
                                            if 'ONE' in os.environ and os.environ['ONE'] == str(c):
                                                f3, g3 = solve.squeeze(*solve.subst_eqs(f2 + [c], g2))
                                                print('  G', g3)
                                                for q in f3: print('   ', q)
                                                gr, ins = P.instances(f3, g3, ex.theories)
                                                for q in ins: print('   I', q)
                                                P.dbg = True; P.ring(gr + ins, g3)
                                    sys.exit()
            if not dropped: return
        raise Unsupported(f'loop {s.name}: invariants did not stabilise')
    def termination(s, sh, backs):
        """some integer measure is bounded below at the head and decreases on every back edge"""
        ex = s.ex
        if not backs: return
        ints = [r for r in sh.ints]
        h = [r for r in ints if r.hav]
        meas = []
        for r in h: meas.append((f'{r}', lambda v, r=r: r.get(v)))
        for r in h:
            for q in ints:
                if q is not r: meas.append((f'{q}-{r}', lambda v, r=r, q=q: q.get(v) - r.get(v)))
        for r in h:
            if r.kind == 'b': meas.append((f'|{r}|', lambda v, r=r: z3.If(zint(r.get(v)) >= 0, zint(r.get(v)), -zint(r.get(v))) if is_int(r.get(v)) else None))
        for c in chains(s.refs(sh)[3], sh):
            import intr
            meas.append((f'items left in {c!r}', lambda v, c=c: intr.it_len(None, None, c.get(v)) if isinstance(c.get(v), It) else None))
        st = s.head_state(sh)
        for nm, m in meas:
            ok = True
            for b in backs:
                try: tgt, conv = s.target(ex.values(b))
                except Unsupported: ok = False; break
                if tgt is not sh: ok = False; break
                m0 = m(sh.head); m1 = m(conv)
                if m0 is None or m1 is None or not (is_int(m0) and is_int(m1)): ok = False; break
                d = z3.simplify(zint(m1) - zint(m0))
                if z3.is_int_value(d) and d.as_long() >= 0: ok = False; break
                if not ex.prover.cand(b.facts, And(zint(m0) >= 0, zint(m1) < zint(m0)), ()): ok = False; break
            if ok:
                for b in backs:
                    tgt, conv = s.target(ex.values(b))
                    s.emit(b, And(zint(m(sh.head)) >= 0, zint(m(conv)) < zint(m(sh.head))), f'termination measure {nm} decreases')
                return
        if DEBUG: print("NOTERM", [(r,r.kind,r.hav,r.get(sh.head)) for r in ints], len(backs), [[(r.get(s.target(ex.values(b))[1])) for r in ints] for b in backs])
        ex.lost.append(f'{s.name}: no termination measure found')

def get_leaf(v, p):
    for i in p:
        k = v.kids() if isinstance(v, Node) else ()
        if i >= len(k): return None
        v = k[i]
    return v
class Ctx: pass
def dedupe(refs, view):
    seen = set(); out = []
    for r in refs:
        e = r.get(view)
        k = ('c', e) if not isinstance(e, z3.ExprRef) else e.get_id()
        if k in seen: continue
        seen.add(k); out.append(r)
    return out

def generic_cands(ctx):
    """linear facts over the changed integers"""
    out = []
    ints = ctx.ints; sh = ctx.shape
    h = [r for r in ints if r.hav and r.kind in 'mcus']
    pool = dedupe([r for r in ints if not r.hav and r.kind in 'mcus'], sh.head)
    def mk(nm, f): out.append(Cand(nm, f))
    def g(r, v): return r.get(v)
    for r in h:
        mk(f'{r}>=0', lambda v, r=r: conc(zint(g(r, v)) >= 0))
        mk(f'{r}>=1', lambda v, r=r: conc(zint(g(r, v)) >= 1))
        for q in pool + [x for x in h if x is not r]:
            for d in (-1, 0, 1):
                mk(f'{r}<={q}+{d}', lambda v, r=r, q=q, d=d: conc(zint(g(r, v)) <= g(q, v) + d))
                if q.hav is False: mk(f'{r}>={q}+{d}', lambda v, r=r, q=q, d=d: conc(zint(g(r, v)) >= g(q, v) + d))
        if sh.entry is not None:
            e = r.get(sh.entry)
            if e is not None:
                mk(f'{r}>=entry', lambda v, r=r, e=e: conc(zint(g(r, v)) >= e))
                mk(f'{r}<=entry', lambda v, r=r, e=e: conc(zint(g(r, v)) <= e))
    if sh.entry is not None:
        for i, r in enumerate(h):
            for q in h[i+1:]:
                a, b = r.get(sh.entry), q.get(sh.entry)
                if a is None or b is None: continue
                mk(f'{r}-{q} const', lambda v, r=r, q=q, a=a, b=b: conc(zint(g(r, v)) - g(q, v) == a - b))
                mk(f'{r}+{q} const', lambda v, r=r, q=q, a=a, b=b: conc(zint(g(r, v)) + g(q, v) == a + b))
    for c in chains(ctx.its, sh):
        import intr
        mk(f'{c!r} first part before second', lambda v, c=c: order_of(c.get(v), c.get(sh.entry)) if sh.entry is not None and c.get(sh.entry) is not None else None)
        for q in ctx.seqs:
            if not q.hav or sh.entry is None or q.get(sh.entry) is None or c.get(sh.entry) is None: continue
            def f(v, c=c, q=q):
                tot = lambda w: zint(intr.it_len(None, None, c.get(w))) + zint(q.get(w).len if isinstance(q.get(w), SeqZ) else len(q.get(w).xs))
                return conc(simp(tot(v) == tot(sh.entry)))
            mk(f'{q!r} takes the items of {c!r}', f)
    return out
def chains(its, sh):
    import intr
    return [c for c in its if c.hav and isinstance(c.get(sh.head), It) and c.get(sh.head).kind == 'chain' and intr.has_len(c.get(sh.head))]
def order_of(it, it0):
    import intr
    a, b, b0 = intr.it_len(None, None, it.subs[0]), intr.it_len(None, None, it.subs[1]), intr.it_len(None, None, it0.subs[1])
    return conc(simp(z3.Or(zint(a) == 0, zint(b) == zint(b0))))
