"""Contracts: a contract is a set of outcome cases; the same object is checked on the body and assumed at call sites."""
import z3
from vals import *
from uf import *
from exec import Exec, State, Obl

class Case:
    """shape: 'I' | ('Some'|'Ok'|'None'|'Err', ...) ;  cond: over the arguments ; facts(result leaves) -> list of terms"""
    def __init__(s, name, shape, cond=True, facts=None): s.name = name; s.shape = shape; s.cond = cond; s.facts = facts or (lambda *r: [])

def variant(ex, v):
    if isinstance(v, Agg) and v.ty is not None and ex.T[v.ty]['k'] == 'adt': return ex.T[v.ty]['variants'][v.var]['name']
    return None
def match(ex, st, v, shape):
    """leaves of v when it has the shape, else None"""
    if shape == 'I': return [v] if is_int(v) else None
    if shape == 'B': return [v] if is_bool(v) else None
    if shape == '_': return []
    if shape == 'seq2':
        w = v
        return list(w.xs) if isinstance(w, SeqC) and len(w.xs) == 2 and all(is_int(q) for q in w.xs) else None
    if shape[0] == 'tuple':
        if not (isinstance(v, Agg) and len(v.fs) == len(shape) - 1): return None
        out = []
        for a, b in zip(v.fs, shape[1:]):
            r = match(ex, st, a, b)
            if r is None: return None
            out += r
        return out
    if variant(ex, v) != shape[0]: return None
    if len(shape) == 1: return []
    if shape[1] == '_': return []
    if not v.fs: return None
    return match(ex, st, v.fs[0], shape[1])
def build(ex, st, ty, shape):
    """-> (value, leaves)"""
    T = ex.T
    if shape == 'I': e = ex.fresh_int(st, 'res', ty); return e, [e]
    if shape == 'B': e = fresh('resb', 'B'); return e, [e]
    if shape == '_': return Opq('any'), []
    if shape == 'seq2':
        xs = [fresh('res'), fresh('res')]; return SeqC(xs, T[ty]['args'][0] if T[ty].get('args') else None), xs
    if shape[0] == 'tuple':
        vs, ls = [], []
        for t, sh in zip(T[ty]['elems'], shape[1:]):
            v, l = build(ex, st, t, sh); vs.append(v); ls += l
        return Agg(ty, 0, vs), ls
    for i, va in enumerate(T[ty]['variants']):
        if va['name'] == shape[0]:
            if not va['fields']: return Agg(ty, i, ()), []
            v, l = build(ex, st, va['fields'][0][1], shape[1] if len(shape) > 1 else '_')
            return Agg(ty, i, (v,)), l
    raise Unsupported(f'no variant {shape[0]}')

class Contract:
    def __init__(s, fname, params, cases, pre=None, theories=()):
        """params: names; cases(ex, env) -> [Case]; pre(ex, env) -> [(name, goal)]"""
        s.fname = fname; s.params = params; s.cases = cases; s.pre = pre or (lambda ex, e: []); s.theories = theories
    def env(s, ex, st, args):
        e = {}
        for nme, a in zip(s.params, args): e[nme] = ex.val(st, a)
        return e
    def apply(s, ex, st, args):
        w = ex.where(st); e = s.env(ex, st, args)
        for nm, g in s.pre(ex, e): ex.oblige_pre(st, g, f'precondition of {s.fname}: {nm}', w)
        fn = ex.prog.find(s.fname); rty = fn.locals[0]
        out = []
        for c, _ in [(c, 0) for c in s.cases(ex, e)]:
            if c.cond is False: continue
            if c.cond is not True and not ex.feasible(st, c.cond): continue
            t = st.copy()
            if c.cond is not True: t.add(c.cond)
            v, leaves = build(ex, t, rty, c.shape)
            t.add(*c.facts(*leaves))
            out.append((t, v))
        return out
    def lookup(s, prog): return prog.find(s.fname)
    def symbolic_args(s, ex, st, fn):
        args = []; env = {}
        for l, nme in zip(range(1, fn.argc + 1), s.params):
            v = sym_value(ex, st, fn.locals[l], nme); args.append(v); env[nme] = ex.val(st, v)
        return args, env
    def verify(s, ex):
        """generate all obligations of the body; -> number of paths"""
        fn = s.lookup(ex.prog)
        if fn is None: raise Unsupported(f'function {s.fname} not found')
        if fn.argc != len(s.params): raise Unsupported(f'signature of {s.fname} changed')
        n = 0; s.outs = []
        for st, args, env in s.begin(ex, fn):
            s.run(ex, fn, st, args, env); n += len(s.lastouts); s.outs += s.lastouts
        return n
    def begin(s, ex, fn):
        st = State(); args, env = s.symbolic_args(ex, st, fn)
        yield st, args, env
    def run(s, ex, fn, st, args, env):
        ex.env = env
        for th in s.theories: th.env = env
        for nm, g in s.pre(ex, env): st.add(g)
        entry_facts = list(st.facts)
        cs = s.cases(ex, env)
        ex.verifying_entry = fn.id
        ex.push(st, fn, args, None, None)
        outs = ex.explore([st], 1, None)
        ex.verifying_entry = None
        for t in outs:
            alts = []
            for c in cs:
                l = match(ex, t, t.ret, c.shape)
                if l is not None: alts.append((c, l))
            if not alts:
                ex.oblige_post(t, False, f'result {describe(ex, t.ret)} is one the contract allows', s.fname); continue
            if len(alts) == 1:
                c, l = alts[0]
                fs = list(c.facts(*l))
                if c.cond is not True: ex.oblige_post(t, c.cond, f'case {c.name}: condition', s.fname)
                for i, f in enumerate(fs): ex.oblige_post(t, f, f'case {c.name}: postcondition {i+1}', s.fname)
                if c.cond is True and not fs: ex.oblige_post(t, True, f'case {c.name}', s.fname)
            else:
                ex.oblige_post(t, Or(*[And(c.cond, *c.facts(*l)) for c, l in alts]), 'case ' + '/'.join(c.name for c, _ in alts), s.fname)
        s.entry_facts = entry_facts; s.lastouts = outs; s.args = args; s.envv = env
class DepContract(Contract):
    """contract of a dependency's function: assumed at call sites through its model in intr.py, and checked here on the dependency's own body"""
    def __init__(s, fid, *a, starts=None, **k): super().__init__(fid, *a, **k); s.starts = starts
    def lookup(s, prog):
        f = prog.fns.get(s.fname)
        return f if f is not None and f.blocks else None
    def begin(s, ex, fn):
        if s.starts is None: yield from super().begin(ex, fn)
        else: yield from s.starts(ex, State(), fn)
def describe(ex, v):
    n = variant(ex, v)
    if n: return n + (f'({describe(ex, v.fs[0])})' if v.fs else '')
    return type(v).__name__
def sym_value(ex, st, ty, nme):
    T = ex.T; t = T[ty]
    if t['k'] == 'ref': return Ref(sym_value(ex, st, t['elem'], nme))
    if t['k'] == 'int' or ex.prog.is_big(ty):
        e = z3.Int(nme); st.add(*ex.range_facts(e, ty)); return e
    if t['k'] == 'slice' or (t['k'] == 'adt' and t.get('def', '').endswith('::Vec')):
        ety = t['elem'] if t['k'] == 'slice' else t['args'][0]
        if not (ex.prog.is_big(ety) or ex.prog.is_int(ety)): raise Unsupported(f'argument {nme}')
        ln = z3.Int(nme + '_len'); st.add(ln >= 0, ln <= (1 << 58))
        return SeqZ(z3.Const(nme, A), 0, ln, ety)
    raise Unsupported(f'symbolic argument {nme}')
