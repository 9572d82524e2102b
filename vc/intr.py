"""Models (assumed contracts) of std / num / itertools items the project calls.  Each handler is a contract of a
dependency: it is listed in the evidence as trusted when used."""
import re
import z3
from vals import *
from uf import *
import mir, adt

HANDLERS = {}
def h(*keys):
    def d(f):
        for k in keys: HANDLERS[k] = f
        return f
    return d

# ------------------------------------------------------------------ synthetic bodies of iterator consumers
class SynFn(mir.Fn):
    def __init__(s, id, argc, nloc, blocks):
        s.d = {'id': id}; s.prog = None; s.id = id; s.name = id; s.df = id; s.local = False
        s.blocks = blocks; s.locals = [None] * nloc; s.argc = argc; s.intrinsic = None; s.targs = []
        s.key = id; s.selfty = None; s._heads = None; s._live = None; s._body = {}; s.file = ''; s.line = 0
def L(l, *p): return {'l': l, 'p': list(p)}
def F(i): return ['field', i, None]
def mv(l, *p): return ['move', L(l, *p)]
def fnop(i): return ['const', {'v': 'fn', 'inst': i}]
def bl(s, t): return {'s': s, 't': t, 'line': 0}
def call(f, args, dest, tgt): return ['call', fnop(f), args, L(dest), tgt]
def mref(d, l): return ['=', L(d), ['ref', True, L(l)]]
def asg(d, op): return ['=', L(d), ['use', op]]
UNITOP = ['const', {'v': 'unit'}]
STUB = SynFn('@stub', 0, 1, [bl([], ['unreachable'])])
SYNTH = {'@stub': STUB}
def syn(id, argc, nloc, blocks): SYNTH[id] = SynFn(id, argc, nloc, blocks)

# fold(it=1, init=2, f=3)   4=&mut it 5=opt 6=elem 7=acc'
syn('@fold', 3, 9, [
    bl([mref(4, 1)], call('@next', [mv(4)], 5, 1)),
    bl([['=', L(6), ['discr', L(5)]]], ['switch', ['copy', L(6)], [['0', 4], ['1', 2]], 4]),
    bl([mref(7, 3)], call('@callmut', [mv(7), mv(2), mv(5, F(0))], 8, 3)),
    bl([asg(2, mv(8))], ['goto', 0]),
    bl([asg(0, mv(2))], ['return'])])
syn('@for_each', 2, 9, [
    bl([mref(4, 1)], call('@next', [mv(4)], 5, 1)),
    bl([['=', L(6), ['discr', L(5)]]], ['switch', ['copy', L(6)], [['0', 3], ['1', 2]], 3]),
    bl([mref(7, 2)], call('@callmut', [mv(7), mv(5, F(0))], 8, 0)),
    bl([], call('@unit', [], 0, 4)),
    bl([], ['return'])])
# try_fold(it_ref=1, init=2, f=3): f returns Option/Result/ControlFlow ; handled through @isbreak
syn('@try_fold', 3, 12, [
    bl([], call('@next', [['copy', L(1)]], 5, 1)),
    bl([['=', L(6), ['discr', L(5)]]], ['switch', ['copy', L(6)], [['0', 5], ['1', 2]], 5]),
    bl([mref(7, 3)], call('@callmut', [mv(7), mv(2), mv(5, F(0))], 8, 3)),
    bl([], call('@isbreak', [['copy', L(8)]], 9, 4)),
    bl([], ['switch', ['copy', L(9)], [['0', 6]], 7]),
    bl([], call('@trywrap', [mv(2)], 0, 8)),
    bl([], call('@trypayload', [mv(8)], 2, 0)),
    bl([asg(0, mv(8))], ['return']),
    bl([], ['return'])])
# any/all(it_ref=1, f=2): stop value via @const handlers
def anyall(id, stop, on_stop, on_end):
    syn(id, 2, 9, [
        bl([], call('@next', [['copy', L(1)]], 5, 1)),
        bl([['=', L(6), ['discr', L(5)]]], ['switch', ['copy', L(6)], [['0', 4], ['1', 2]], 4]),
        bl([mref(7, 2)], call('@callmut', [mv(7), mv(5, F(0))], 8, 3)),
        bl([], ['switch', ['copy', L(8)], [['0', 0 if stop else 5]], 5 if stop else 0]),
        bl([asg(0, ['const', {'v': 'bool', 'x': on_end}])], ['return']),
        bl([asg(0, ['const', {'v': 'bool', 'x': on_stop}])], ['return'])])
anyall('@any', True, True, False)
anyall('@all', False, False, True)
# find(it_ref=1, f=2): predicate on reference
syn('@find', 2, 10, [
    bl([], call('@next', [['copy', L(1)]], 5, 1)),
    bl([['=', L(6), ['discr', L(5)]]], ['switch', ['copy', L(6)], [['0', 4], ['1', 2]], 4]),
    bl([mref(7, 2), ['=', L(9), ['ref', False, L(5, F(0))]]], call('@callmut', [mv(7), mv(9)], 8, 3)),
    bl([], ['switch', ['copy', L(8)], [['0', 0]], 4]),
    bl([asg(0, mv(5))], ['return'])])
# position(it_ref=1,f=2) with counter 3
syn('@position', 2, 12, [
    bl([asg(3, ['const', {'v': 'int', 'x': '0'}])], ['goto', 1]),
    bl([], call('@next', [['copy', L(1)]], 5, 2)),
    bl([['=', L(6), ['discr', L(5)]]], ['switch', ['copy', L(6)], [['0', 6], ['1', 3]], 6]),
    bl([mref(7, 2)], call('@callmut', [mv(7), mv(5, F(0))], 8, 4)),
    bl([], ['switch', ['copy', L(8)], [['0', 5]], 7]),
    bl([], call('@inc', [mv(3)], 3, 1)),
    bl([asg(0, mv(5))], ['return']),
    bl([], call('@some', [mv(3)], 0, 8)),
    bl([], ['return'])])
# find_map(it_ref=1,f=2)
syn('@find_map', 2, 10, [
    bl([], call('@next', [['copy', L(1)]], 5, 1)),
    bl([['=', L(6), ['discr', L(5)]]], ['switch', ['copy', L(6)], [['0', 4], ['1', 2]], 4]),
    bl([mref(7, 2)], call('@callmut', [mv(7), mv(5, F(0))], 8, 3)),
    bl([['=', L(6), ['discr', L(8)]]], ['switch', ['copy', L(6)], [['0', 0]], 5]),
    bl([asg(0, mv(5))], ['return']),
    bl([asg(0, mv(8))], ['return'])])
# extend(vec_ref=1, it=2): push every item ;  extmap: insert every (k, v)
for nm, op in (('@extend', '@push'), ('@extmap', '@insert'), ('@extend_str', '@push_str')):
    syn(nm, 2, 9, [
        bl([mref(4, 2)], call('@next', [mv(4)], 5, 1)),
        bl([['=', L(6), ['discr', L(5)]]], ['switch', ['copy', L(6)], [['0', 3], ['1', 2]], 3]),
        bl([], call(op, [['copy', L(1)], mv(5, F(0))], 8, 0)),
        bl([], call('@unit', [], 0, 4)),
        bl([], ['return'])])
# collect(it=1, empty container=2)
for nm, op in (('@collect', '@push'), ('@collectmap', '@insert'), ('@collect_str', '@push_str')):
    syn(nm, 2, 9, [
        bl([mref(4, 1)], call('@next', [mv(4)], 5, 1)),
        bl([['=', L(6), ['discr', L(5)]]], ['switch', ['copy', L(6)], [['0', 3], ['1', 2]], 3]),
        bl([mref(7, 2)], call(op, [mv(7), mv(5, F(0))], 8, 0)),
        bl([asg(0, mv(2))], ['return'])])
# collect into Result<Vec,_> / Option<Vec>: items are Result/Option
syn('@collect_try', 2, 12, [
    bl([mref(4, 1)], call('@next', [mv(4)], 5, 1)),
    bl([['=', L(6), ['discr', L(5)]]], ['switch', ['copy', L(6)], [['0', 6], ['1', 2]], 6]),
    bl([], call('@isbreak', [['copy', L(5, F(0))]], 9, 3)),
    bl([], ['switch', ['copy', L(9)], [['0', 4]], 7]),
    bl([], call('@trypayload', [mv(5, F(0))], 10, 5)),
    bl([mref(7, 2)], call('@push', [mv(7), mv(10)], 8, 0)),
    bl([], call('@trywrap', [mv(2)], 0, 8)),
    bl([], call('@tryconv', [mv(5, F(0))], 0, 8)),
    bl([], ['return'])])
syn('@accum', 3, 9, [   # sum/product/min/max/last/count: accumulate with @accop
    bl([mref(4, 1)], call('@next', [mv(4)], 5, 1)),
    bl([['=', L(6), ['discr', L(5)]]], ['switch', ['copy', L(6)], [['0', 4], ['1', 2]], 4]),
    bl([], call('@accop', [['copy', L(3)], mv(2), mv(5, F(0))], 8, 3)),
    bl([asg(2, mv(8))], ['goto', 0]),
    bl([asg(0, mv(2))], ['return'])])

RETRY = object()
def NONE(ty=None): return Agg(ty, 0, ())
def SOME(x, ty=None): return Agg(ty, 1, (x,))
def tydef(ex, ty):
    t = ex.T[ty] if ty is not None else None
    return t.get('def', '') if t is not None and t['k'] == 'adt' else ''
def is_range(ex, v):
    if not (isinstance(v, Agg) and v.ty is not None): return None
    d = tydef(ex, v.ty)
    m = re.search(r'(^|::)(Range|RangeInclusive|RangeFrom|RangeTo|RangeToInclusive|RangeFull)$', d)
    return m.group(2) if m else None

# ------------------------------------------------------------------ iterators
def to_it(ex, st, v):
    """the iterator value of something iterable"""
    if isinstance(v, It): return v
    r = is_range(ex, v)
    if r == 'Range':
        a, b = v.fs[0], v.fs[1]
        hi = If(conc(a <= b), b, a) if not (is_conc(a) and is_conc(b)) else max(a, b)
        if not is_conc(hi):
            if ex.prover.quick(st.facts, zbool(conc(a <= b))): hi = b
        return It('range', (a, hi))
    if r == 'RangeInclusive':
        a, b = v.fs[0], v.fs[1]
        if len(v.fs) > 2 and v.fs[2] is not False: raise Unsupported('partially consumed inclusive range')
        if is_conc(a) and is_conc(b): return It('range', (a, max(a, b + 1)))
        if ex.prover.quick(st.facts, zbool(conc(zint(a) <= b + 1))): return It('range', (a, simp(b + 1)))
        return It('range', (a, If(a <= b, simp(b + 1), a)))
    if r == 'RangeFrom': return It('from', (v.fs[0],))
    if isinstance(v, Ref):
        w = v.v
        if isinstance(w, (SeqC, SeqZ)): return It('seq', (0, ex.seq_len(w)), (w,), 'ref')
        if isinstance(w, MapC): return It('seq', (0, len(w.d)), (SeqC([Agg(None, 0, (Ref(k), Ref(x))) for k, x in map_items(w)]),), 'val')
        if isinstance(w, Agg) and tydef(ex, w.ty).endswith('option::Option'):
            return It('seq', (0, len(w.fs)), (SeqC([Ref(x) for x in w.fs]),), 'val')
        if isinstance(w, (Mut, Ref)): return to_it(ex, st, w)
        if isinstance(w, It): return w
        if isinstance(w, ObjV) and adt.is_map(ex, w.ty): return objmap_it(ex, st, w, 'ref')
    if isinstance(v, (SeqC, SeqZ)): return It('seq', (0, ex.seq_len(v)), (v,), 'val')
    if isinstance(v, ObjV) and adt.is_map(ex, v.ty): return objmap_it(ex, st, v, 'val')
    if isinstance(v, MapC): return It('seq', (0, len(v.d)), (SeqC([Agg(None, 0, (k, x)) for k, x in map_items(v)]),), 'val')
    if isinstance(v, Mut):
        w = ex.mut_get(st, v)
        if isinstance(w, (SeqC, SeqZ)): return It('mutseq', (0, ex.seq_len(w)), (v,))
        return It('byref', (), (v,))
    if isinstance(v, Agg) and tydef(ex, v.ty).endswith('option::Option'):
        return It('seq', (0, len(v.fs)), (SeqC(v.fs),), 'val')
    raise Unsupported(f'iteration over {v!r}')
def objmap_it(ex, st, v, by):
    """the entries of a map known by its code, in ascending order of its keys"""
    n = adt.OBJLEN(zint(v.e)); st.add(n >= 0, n <= (1 << 58)); kt, vt = ex.T[v.ty]['args'][:2]
    return It('zip', (), tuple(It('seq', (0, n), (SeqZ(f(zint(v.e)), 0, n, t),), by) for f, t in ((MKEYS, kt), (MVALS, vt))))
def map_items(m):
    try: return sorted(m.d.items(), key=lambda kv: kv[0])
    except TypeError: return list(m.d.items())

def known(st, e):
    """the number a term is known to be, when a fact says so"""
    if not isinstance(e, ExprRef): return e
    for f in st.facts:
        if isinstance(f, ExprRef) and z3.is_not(f) and z3.is_distinct(f.arg(0)): f = f.arg(0).arg(0) == f.arg(0).arg(1)
        if isinstance(f, ExprRef) and z3.is_not(f) and z3.is_not(f.arg(0)): f = f.arg(0).arg(0)
        if isinstance(f, ExprRef) and z3.is_eq(f):
            a, b = f.arg(0), f.arg(1)
            if z3.is_int_value(a): a, b = b, a
            if z3.is_int_value(b) and a.eq(e): return b.as_long()
    return e
def need(ex, st, lo, hi):
    """fork on lo < hi -> (state nonempty or None, state empty or None)"""
    if ex.prog.crate == 'sm_ast':
        lo, hi = known(st, lo), known(st, hi)
    c = conc(simp(lo < hi) if isinstance(lo < hi, ExprRef) else lo < hi)
    if isinstance(c, bool): ex.conc_next = True
    else: ex.sym_next = True
    return ex.branch(st, c)

def call_clo(ex, st, clo, args):
    """call a closure value that may mutate its environment: [(state, value, clo')]"""
    m = ex.alloc(st, clo)
    out = []
    for t, v in ex.call_sync(st, m, args):
        c2 = t.heap.pop(m.root[1]); out.append((t, v, c2))
    return out

def it_next(ex, st, it, back=False):
    """-> [(state, item | None | RETRY, iterator')]"""
    k = it.kind
    if k == 'range':
        lo, hi = it.ints
        a, b = need(ex, st, lo, hi); out = []
        if a is not None:
            if back: x = simp(hi - 1); out.append((a, x, it.up((lo, x))))
            else: out.append((a, lo, it.up((simp(lo + 1), hi))))
        if b is not None: out.append((b, None, it))
        return out
    if k == 'from':
        return [(st, it.ints[0], it.up((simp(it.ints[0] + 1),)))]
    if k == 'seq' or k == 'mutseq':
        lo, hi = it.ints
        a, b = need(ex, st, lo, hi); out = []
        if a is not None:
            ix = simp(hi - 1) if back else lo
            if k == 'seq':
                x = ex.select(a, it.subs[0], ix)
                if it.x == 'ref': x = Ref(x)
            else: x = Mut(it.subs[0].root, it.subs[0].path + (('i', ix),))
            out.append((a, x, it.up((lo, ix) if back else (simp(lo + 1), hi))))
        if b is not None: out.append((b, None, it))
        return out
    if k == 'rev': return [(t, x, it.up(subs=(i,))) for t, x, i in it_next(ex, st, it.subs[0], not back)]
    if k in ('copied', 'cloned'):
        return [(t, x if x is None or x is RETRY else ex.val(t, x) if not isinstance(x, Ref) else x.v, it.up(subs=(i,))) for t, x, i in it_next(ex, st, it.subs[0], back)]
    if k == 'enumerate':
        out = []
        if back:
            n = it_len(ex, st, it.subs[0])
            for t, x, i in it_next(ex, st, it.subs[0], True):
                out.append((t, x if x is None or x is RETRY else Agg(None, 0, (simp(it.ints[0] + n - 1), x)), it.up(subs=(i,))))
            return out
        for t, x, i in it_next(ex, st, it.subs[0]):
            if x is None or x is RETRY: out.append((t, x, it.up(subs=(i,))))
            else: out.append((t, Agg(None, 0, (it.ints[0], x)), it.up((simp(it.ints[0] + 1),), (i,))))
        return out
    if k == 'zip':
        a, b = it.subs; out = []
        for t, x, i in it_next(ex, st, a, back):
            if x is RETRY: raise Unsupported('zip of a filtered iterator')
            if x is None: out.append((t, None, it.up(subs=(i, b)))); continue
            for u, y, j in it_next(ex, t, b, back):
                if y is RETRY: raise Unsupported('zip of a filtered iterator')
                out.append((u, None if y is None else Agg(None, 0, (x, y)), it.up(subs=(i, j))))
        return out
    if k == 'map':
        out = []
        for t, x, i in it_next(ex, st, it.subs[0], back):
            if x is None or x is RETRY: out.append((t, x, it.up(subs=(i, it.subs[1])))); continue
            for u, v, c in call_clo(ex, t, it.subs[1], [x]): out.append((u, v, it.up(subs=(i, c))))
        return out
    if k in ('filter', 'take_while', 'skip_while', 'filter_map', 'map_while', 'inspect'):
        out = []
        if k == 'take_while' and it.ints[0] == 1: return [(st, None, it)]
        for t, x, i in it_next(ex, st, it.subs[0], back):
            if x is None or x is RETRY: out.append((t, x, it.up(subs=(i, it.subs[1])))); continue
            if k == 'skip_while' and it.ints[0] == 1: out.append((t, x, it.up(subs=(i, it.subs[1])))); continue
            arg = x if k in ('filter_map', 'map_while') else Ref(x)
            for u, v, c in call_clo(ex, t, it.subs[1], [arg]):
                if k == 'inspect': out.append((u, x, it.up(subs=(i, c)))); continue
                if k in ('filter_map', 'map_while'):
                    if v.var == 1: out.append((u, v.fs[0], it.up(subs=(i, c))))
                    else: out.append((u, RETRY if k == 'filter_map' else None, it.up(subs=(i, c))))
                    continue
                yes, no = ex.branch(u, v)
                if k == 'filter':
                    if yes is not None: out.append((yes, x, it.up(subs=(i, c))))
                    if no is not None: out.append((no, RETRY, it.up(subs=(i, c))))
                elif k == 'take_while':
                    if yes is not None: out.append((yes, x, it.up(subs=(i, c))))
                    if no is not None: out.append((no, None, it.up((1,), (i, c))))
                else:
                    if yes is not None: out.append((yes, RETRY, it.up(subs=(i, c))))
                    if no is not None: out.append((no, x, it.up((1,), (i, c))))
        return out
    if k == 'chain':
        out = []
        a, b = it.subs
        if back: a, b = b, a
        for t, x, i in it_next(ex, st, a, back):
            if x is not None: out.append((t, x, it.up(subs=(b, i) if back else (i, b)))); continue
            for u, y, j in it_next(ex, t, b, back): out.append((u, y, it.up(subs=(j, i) if back else (i, j))))
        return out
    if k == 'take':
        n = it.ints[0]
        if back: raise Unsupported('take from the back')
        a, b = need(ex, st, 0, n); out = []
        if b is not None: out.append((b, None, it))
        if a is not None:
            for t, x, i in it_next(ex, a, it.subs[0]): out.append((t, x, it.up((simp(n - 1),), (i,))) if x is not RETRY else (t, x, it.up(subs=(i,))))
        return out
    if k == 'step_by':
        step, first = it.ints; out = []
        sub = it.subs[0]
        if sub.kind not in ('range', 'seq'): raise Unsupported('step_by')
        lo, hi = sub.ints
        ix = lo if first == 1 else simp(lo + step - 1)
        a, b = need(ex, st, ix, hi)
        if a is not None:
            x = ix if sub.kind == 'range' else ex.select(a, sub.subs[0], ix)
            if sub.kind == 'seq' and sub.x == 'ref': x = Ref(x)
            out.append((a, x, it.up((step, 0), (sub.up((simp(ix + 1), hi)),))))
        if b is not None: out.append((b, None, it))
        return out
    if k == 'peekable':
        sub, pk = it.subs
        if pk is not UNINIT:
            return [(st, pk.fs[0] if pk.var == 1 else None, it.up(subs=(sub, UNINIT)))]
        return [(t, x, it.up(subs=(i, UNINIT))) for t, x, i in it_next(ex, st, sub, back)]
    if k == 'byref':
        m = it.subs[0]; sub = to_it(ex, st, ex.mut_get(st, m)); out = []
        for t, x, i in it_next(ex, st, sub, back): ex.mut_set(t, m, i); out.append((t, x, it))
        return out
    if k == 'successors':
        nxt = it.subs[0]
        if nxt.var == 0: return [(st, None, it)]
        x = nxt.fs[0]
        return [(u, x, it.up(subs=(v, c))) for u, v, c in call_clo(ex, st, it.subs[1], [Ref(x)])]
    if k == 'repeat': return [(st, it.subs[0], it)]
    raise Unsupported(f'iterator {k}')

def it_len(ex, st, it):
    """number of remaining items, or Unsupported"""
    k = it.kind
    if k in ('range', 'seq', 'mutseq'): return simp(it.ints[1] - it.ints[0])
    if k in ('rev', 'copied', 'cloned', 'enumerate', 'map', 'inspect'): return it_len(ex, st, it.subs[0])
    if k == 'zip':
        a, b = it_len(ex, st, it.subs[0]), it_len(ex, st, it.subs[1])
        return simp(If(conc(simp(a <= b)) if not (is_conc(a) and is_conc(b)) else a <= b, a, b))
    if k == 'chain': return simp(it_len(ex, st, it.subs[0]) + it_len(ex, st, it.subs[1]))
    raise Unsupported(f'length of {k}')
def has_len(it):
    return it.kind in ('range', 'seq', 'mutseq') or it.kind in ('rev', 'copied', 'cloned', 'enumerate', 'map') and has_len(it.subs[0]) or it.kind in ('zip', 'chain') and has_len(it.subs[0]) and has_len(it.subs[1])
def pure_seq(it):
    return it.kind in ('range', 'seq') or it.kind in ('rev', 'copied', 'cloned', 'enumerate') and pure_seq(it.subs[0]) or it.kind == 'zip' and pure_seq(it.subs[0]) and pure_seq(it.subs[1])
def trim(ex, st, it, n):
    """the first n items of a random-access iterator"""
    k = it.kind
    if k in ('range', 'seq', 'mutseq'): return it.up((it.ints[0], simp(it.ints[0] + n)))
    if k in ('copied', 'cloned', 'enumerate', 'map'): return it.up(subs=(trim(ex, st, it.subs[0], n),) + it.subs[1:])
    if k == 'rev':
        s = it.subs[0]
        if s.kind in ('range', 'seq', 'mutseq'): return it.up(subs=(s.up((simp(s.ints[1] - n), s.ints[1])),))
    if k == 'zip': return it.up(subs=(trim(ex, st, it.subs[0], n), trim(ex, st, it.subs[1], n)))
    raise Unsupported('trim')
def make_zip(ex, st, a, b):
    """zip with both sides cut to the common length when both are random access"""
    if not (has_len(a) and has_len(b)): return [(st, It('zip', (), (a, b)))]
    try: la, lb = it_len(ex, st, a), it_len(ex, st, b)
    except Unsupported: return [(st, It('zip', (), (a, b)))]
    if same(la, lb): return [(st, It('zip', (), (a, b)))]
    out = []
    x, y = ex.branch(st, conc(simp(la <= lb)) if not (is_conc(la) and is_conc(lb)) else la <= lb)
    try:
        if x is not None: out.append((x, It('zip', (), (a, trim(ex, x, b, la)))))
        if y is not None: out.append((y, It('zip', (), (trim(ex, y, a, lb), b))))
    except Unsupported: return [(st, It('zip', (), (a, b)))]
    return out
def it_elem(ex, st, it, j):
    """item at distance j from the front (random access, effect free) -> (value, state) single path"""
    k = it.kind
    if k == 'range': return simp(it.ints[0] + j)
    if k == 'seq':
        x = ex.select(st, it.subs[0], simp(it.ints[0] + j))
        return Ref(x) if it.x == 'ref' else x
    if k == 'rev':
        n = it_len(ex, st, it.subs[0]); return it_elem(ex, st, it.subs[0], simp(n - 1 - j))
    if k in ('copied', 'cloned'):
        x = it_elem(ex, st, it.subs[0], j); return x.v if isinstance(x, Ref) else ex.val(st, x)
    if k == 'enumerate': return Agg(None, 0, (simp(it.ints[0] + j), it_elem(ex, st, it.subs[0], j)))
    if k == 'zip': return Agg(None, 0, (it_elem(ex, st, it.subs[0], j), it_elem(ex, st, it.subs[1], j)))
    if k == 'map':
        x = it_elem(ex, st, it.subs[0], j)
        r = call_clo(ex, st, it.subs[1], [x])
        if len(r) != 1: raise Unsupported('closure with several paths')
        t, v, c = r[0]
        if not same(c, it.subs[1]): raise Unsupported('stateful closure')
        st.facts = t.facts; st.heap = t.heap; st.frames = t.frames
        return v
    raise Unsupported(f'random access into {k}')
def comprehension(ex, st, it):
    """[(value(j), facts, j, len)] for a random-access iterator with a symbolic length; closure obligations are emitted for a generic j"""
    n = it_len(ex, st, it)
    j = fresh('j')
    t = st.copy(); t.add(j >= 0, zint(j) < n)
    nf = len(t.facts)
    v = it_elem(ex, t, it, j)
    extra = t.facts[nf:]
    if any(isinstance(f, FA) for f in extra): raise Unsupported('quantified fact in comprehension')
    return v, extra, j, n

def writeback(ex, st, m, it):
    if isinstance(m, Mut): ex.mut_set(st, m, it)
    return st

@h('std::iter::Iterator::next', '@next', 'std::iter::DoubleEndedIterator::next_back')
def _next(ex, st, c):
    m = c.args[0]
    if not isinstance(m, Mut): return None
    v = ex.mut_get(st, m)
    if not isinstance(v, It):
        try: it = to_it(ex, st, v)
        except Unsupported: return None
    else: it = v
    out = []
    for t, x, i in it_next(ex, st, it, c.key.endswith('next_back')):
        ex.mut_set(t, m, i)
        if x is RETRY: out.append((t, RETRY))
        else: out.append((t, NONE(c.destty) if x is None else SOME(x, c.destty)))
    return out
@h('std::iter::IntoIterator::into_iter', 'core::slice<impl>::iter', 'core::slice<impl>::iter_mut', 'std::slice<impl>::iter', 'std::option::Option::iter', 'std::vec::Vec::iter',
   'std::collections::BTreeMap::iter', 'std::collections::HashMap::iter', 'std::iter::Iterator::by_ref', 'std::collections::BTreeMap::into_iter')
def _iter(ex, st, c):
    try: return [(st, to_it(ex, st, c.args[0]))]
    except Unsupported:
        if c.fn is not None and c.fn.blocks and 'into_iter' in c.key: return None
        raise
def adaptor(name, kind, f):
    @h('std::iter::Iterator::' + name)
    def _a(ex, st, c):
        it = to_it(ex, st, c.args[0])
        return f(ex, st, it, c.args)
adaptor('rev', 'rev', lambda ex, st, it, a: [(st, It('rev', (), (it,)) if it.kind != 'rev' else it.subs[0])])
adaptor('map', 'map', lambda ex, st, it, a: [(st, It('map', (), (it, a[1])))])
for _k in ('filter', 'filter_map', 'map_while', 'inspect'):
    adaptor(_k, _k, lambda ex, st, it, a, _k=_k: [(st, It(_k, (), (it, a[1])))])
for _k in ('take_while', 'skip_while'):
    adaptor(_k, _k, lambda ex, st, it, a, _k=_k: [(st, It(_k, (0,), (it, a[1])))])
for _k in ('copied', 'cloned'):
    adaptor(_k, _k, lambda ex, st, it, a, _k=_k: [(st, It('copied', (), (it,)))])
adaptor('enumerate', 'enumerate', lambda ex, st, it, a: [(st, It('enumerate', (0,), (it,)))])
adaptor('zip', 'zip', lambda ex, st, it, a: make_zip(ex, st, it, to_it(ex, st, a[1])))
adaptor('chain', 'chain', lambda ex, st, it, a: [(st, It('chain', (), (it, to_it(ex, st, a[1]))))])
adaptor('fuse', 'fuse', lambda ex, st, it, a: [(st, it)])
adaptor('peekable', 'peekable', lambda ex, st, it, a: [(st, It('peekable', (), (it, UNINIT)))])
@h('std::iter::Rev::new', 'std::iter::Zip::new')
def _never(ex, st, c): return None
@h('itertools::Itertools::tuple_windows', 'itertools::Itertools::join', 'itertools::Itertools::sorted')
def _unsup(ex, st, c): raise Unsupported(c.key)
def _limit(ex, st, c, which):
    it = to_it(ex, st, c.args[0]); n = c.args[1]
    if has_len(it):
        try:
            ln = it_len(ex, st, it); out = []
            a, b = ex.branch(st, conc(simp(zint(n) <= ln)))
            if a is not None: out.append((a, trim(ex, a, it, n) if which == 'take' else drop_front(ex, a, it, n)))
            if b is not None: out.append((b, it if which == 'take' else drop_front(ex, b, it, ln)))
            return out
        except Unsupported: pass
    if which == 'take': return [(st, It('take', (n,), (it,)))]
    if isinstance(n, int) and n < 50:
        cur = [(st, it)]
        for _ in range(n):
            nx = []
            for t, i in cur:
                for u, x, j in it_next(ex, t, i):
                    if x is RETRY: raise Unsupported('skip on filter')
                    nx.append((u, j))
            cur = nx
        return cur
    raise Unsupported('skip')
def drop_front(ex, st, it, n):
    k = it.kind
    if k in ('range', 'seq', 'mutseq'): return it.up((simp(it.ints[0] + n), it.ints[1]))
    if k in ('copied', 'cloned', 'map'): return it.up(subs=(drop_front(ex, st, it.subs[0], n),) + it.subs[1:])
    if k == 'enumerate': return it.up((simp(it.ints[0] + n),), (drop_front(ex, st, it.subs[0], n),))
    if k == 'rev':
        s = it.subs[0]
        if s.kind in ('range', 'seq', 'mutseq'): return it.up(subs=(s.up((s.ints[0], simp(s.ints[1] - n))),))
    if k == 'zip': return it.up(subs=(drop_front(ex, st, it.subs[0], n), drop_front(ex, st, it.subs[1], n)))
    raise Unsupported('skip')
@h('std::iter::Iterator::take')
def _take(ex, st, c): return _limit(ex, st, c, 'take')
@h('std::iter::Iterator::skip')
def _skip(ex, st, c): return _limit(ex, st, c, 'skip')
@h('std::iter::Iterator::step_by')
def _step(ex, st, c):
    ex.oblige(st, conc(zint(c.args[1]) != 0), 'no panic (step_by 0)', c.where)
    return [(st, It('step_by', (c.args[1], 1), (to_it(ex, st, c.args[0]),)))]
@h('std::iter::zip', 'std::iter::Iterator::zip_')
def _zip2(ex, st, c): return make_zip(ex, st, to_it(ex, st, c.args[0]), to_it(ex, st, c.args[1]))
@h('std::iter::successors')
def _succ(ex, st, c): return [(st, It('successors', (), (c.args[0], c.args[1])))]
@h('std::iter::once')
def _once(ex, st, c): return [(st, It('seq', (0, 1), (SeqC([c.args[0]]),), 'val'))]
@h('std::iter::empty')
def _empty(ex, st, c): return [(st, It('seq', (0, 0), (SeqC([]),), 'val'))]
@h('std::iter::repeat')
def _rep(ex, st, c): return [(st, It('repeat', (), (c.args[0],)))]
@h('std::iter::ExactSizeIterator::len')
def _elen(ex, st, c): return [(st, it_len(ex, st, to_it(ex, st, ex.val(st, c.args[0]))))]
def consume(ex, st, c, name, *extra):
    it = to_it(ex, st, c.args[0])
    return ('@call', st, FnV(name), [it] + list(extra))
def by_ref(ex, st, c, name, *extra):
    m = c.args[0]
    if not isinstance(m, Mut): raise Unsupported(name)
    v = ex.mut_get(st, m)
    if not isinstance(v, It): ex.mut_set(st, m, to_it(ex, st, v))
    return ('@call', st, FnV(name), [m] + list(extra))
@h('std::iter::Iterator::fold')
def _fold(ex, st, c): return consume(ex, st, c, '@fold', c.args[1], c.args[2])
@h('std::iter::DoubleEndedIterator::rfold')
def _rfold(ex, st, c):
    it = to_it(ex, st, c.args[0])
    return ('@call', st, FnV('@fold'), [It('rev', (), (it,)), c.args[1], c.args[2]])
@h('std::iter::Iterator::for_each')
def _fe(ex, st, c): return consume(ex, st, c, '@for_each', c.args[1])
@h('std::iter::Iterator::any')
def _any(ex, st, c): return by_ref(ex, st, c, '@any', c.args[1])
@h('std::iter::Iterator::all')
def _all(ex, st, c): return by_ref(ex, st, c, '@all', c.args[1])
@h('std::iter::Iterator::find')
def _find(ex, st, c): return by_ref(ex, st, c, '@find', c.args[1])
@h('std::iter::Iterator::find_map')
def _findm(ex, st, c): return by_ref(ex, st, c, '@find_map', c.args[1])
@h('std::iter::Iterator::position')
def _pos(ex, st, c): return by_ref(ex, st, c, '@position', c.args[1])
@h('std::iter::Iterator::try_fold')
def _tf(ex, st, c): return by_ref(ex, st, c, '@try_fold', c.args[1], c.args[2])
@h('std::iter::Iterator::sum')
def _sum(ex, st, c): return ('@call', st, FnV('@accum'), [to_it(ex, st, c.args[0]), 0, Opq(f'sum {c.destty}')])
@h('std::iter::Iterator::product')
def _prod(ex, st, c): return ('@call', st, FnV('@accum'), [to_it(ex, st, c.args[0]), 1, Opq(f'product {c.destty}')])
@h('std::iter::Iterator::count')
def _count(ex, st, c):
    it = to_it(ex, st, c.args[0])
    if pure_seq(it): return [(st, it_len(ex, st, it))]
    return ('@call', st, FnV('@accum'), [it, 0, Opq(f'count {c.destty}')])
@h('std::iter::Iterator::last')
def _last(ex, st, c):
    it = to_it(ex, st, c.args[0])
    if pure_seq(it):
        n = it_len(ex, st, it); out = []
        a, b = ex.branch(st, conc(simp(zint(n) > 0)))
        if a is not None: out.append((a, SOME(it_elem(ex, a, it, simp(n - 1)), c.destty)))
        if b is not None: out.append((b, NONE(c.destty)))
        return out
    return ('@call', st, FnV('@accum'), [it, NONE(c.destty), Opq(f'last {c.destty}')])
@h('std::iter::Iterator::nth')
def _nth(ex, st, c):
    m = c.args[0]; it = to_it(ex, st, ex.mut_get(st, m)); n = c.args[1]
    if not isinstance(n, int) or n > 50: raise Unsupported('nth')
    cur = [(st, it, 0)]; out = []
    while cur:
        t, i, q = cur.pop()
        for u, x, j in it_next(ex, t, i):
            if x is RETRY: cur.append((u, j, q))
            elif x is None or q == n: ex.mut_set(u, m, j); out.append((u, NONE(c.destty) if x is None else SOME(x, c.destty)))
            else: cur.append((u, j, q + 1))
    return out
@h('@accop')
def _accop(ex, st, c):
    what, ty = c.args[0].name.split(); ty = None if ty == 'None' else int(ty)
    acc, x = c.args[1], c.args[2]
    if what == 'last': return [(st, SOME(x, ty))]
    if what == 'count': e = simp(acc + 1)
    else:
        x = ex.val(st, x)
        if not (is_int(acc) and is_int(x)): raise Unsupported(what)
        e = simp(acc + x) if what == 'sum' else (simp(acc * x) if is_conc(acc) or is_conc(x) else acc * x)
    if ty is not None:
        lo, hi = ex.prog.rng(ty)
        ok = And(True if lo is None else conc(zint(e) >= lo), True if hi is None else conc(zint(e) <= hi))
        if not ex.oblige(st, simp(ok) if isinstance(ok, ExprRef) else ok, f'no overflow in {what}', c.where): return []
    return [(st, e)]
@h('@callmut')
def _callmut(ex, st, c): return ('@call', st, c.args[0], list(c.args[1:]))
@h('@unit')
def _unit(ex, st, c): return [(st, UNIT)]
@h('@inc')
def _inc(ex, st, c): return [(st, simp(c.args[0] + 1))]
@h('@some')
def _some(ex, st, c): return [(st, SOME(c.args[0]))]
def opt_res(ex, v):
    """'o' option, 'r' result"""
    d = tydef(ex, v.ty) if isinstance(v, Agg) else ''
    if d.endswith('Option'): return 'o'
    if d.endswith('Result'): return 'r'
    if d.endswith('ControlFlow'): return 'c'
    raise Unsupported('try value')
@h('@isbreak')
def _isbreak(ex, st, c):
    v = c.args[0]; k = opt_res(ex, v)
    return [(st, v.var == 0 if k == 'o' else v.var == 1)]
@h('@trypayload')
def _trypayload(ex, st, c): return [(st, c.args[0].fs[0])]
@h('@trywrap')
def _trywrap(ex, st, c):
    # destination type comes from the caller of the synthetic frame
    ty = synth_dest(ex, st)
    d = tydef(ex, ty)
    if d.endswith('Option'): return [(st, Agg(ty, 1, (c.args[0],)))]
    if d.endswith('Result') or d.endswith('ControlFlow'): return [(st, Agg(ty, 0, (c.args[0],)))]
    raise Unsupported('try wrap')
@h('@tryconv')
def _tryconv(ex, st, c):
    ty = synth_dest(ex, st); v = c.args[0]
    return [(st, Agg(ty, v.var, v.fs))]
def synth_dest(ex, st):
    f = st.frames[-1]; g = st.frames[-2]
    if g.fn.locals and g.fn is not STUB and f.dest is not None: return ex.place_ty(g.fn, f.dest)
    return None
def elem_ty(ex, ty, i=0):
    a = ex.T[ty].get('args') if ty is not None else None
    return a[i] if a and i < len(a) and isinstance(a[i], int) else None
@h('std::iter::Iterator::collect', 'itertools::Itertools::collect_vec', 'std::iter::FromIterator::from_iter')
def _collect(ex, st, c):
    it = to_it(ex, st, c.args[0]); ty = c.destty; d = tydef(ex, ty)
    if d.endswith('::Vec'):
        ety = elem_ty(ex, ty)
        if has_len(it) and not is_conc(it_len(ex, st, it)):
            try: return [(st, seq_of(ex, st, it, ety))]
            except Unsupported: pass
        return ('@call', st, FnV('@collect'), [it, SeqC((), ety)])
    if d.endswith('Map'):
        kty, vty = elem_ty(ex, ty), elem_ty(ex, ty, 1)
        if has_len(it) and not is_conc(it_len(ex, st, it)):
            try: return [(st, map_of(ex, st, it, kty, vty))]
            except Unsupported: pass
        return ('@call', st, FnV('@collectmap'), [it, MapC({}, kty, vty)])
    if d.endswith('::Result') or d.endswith('::Option'):
        vt = elem_ty(ex, ty)
        if vt is not None and tydef(ex, vt).endswith('::Vec'):
            return ('@call', st, FnV('@collect_try'), [it, SeqC((), elem_ty(ex, vt))])
    if d.endswith('::String'): return ('@call', st, FnV('@collect_str'), [it, ''])
    if d.endswith('::Box'): return None
    raise Unsupported(f'collect into {d}')
def seq_of(ex, st, it, ety):
    v, facts, j, n = comprehension(ex, st, it)
    if not is_int(v):
        v = scode(v)
        if v is None: raise Unsupported('comprehension of structured values')
        v = zint(v)
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_SELECT and not contains(v.arg(0), j):   # the items are the elements of an existing sequence, in order
            o = simp(v.arg(1) - j)
            if not (isinstance(o, z3.ExprRef) and contains(o, j)):
                st.add(zint(n) >= 0); return SeqZ(v.arg(0), o, n, ety)
    a = fresh('seq', A)
    st.add(FA(j, z3.Implies(z3.And(0 <= j, j < zint(n)), And(*([zbool(f) for f in facts] + [z3.Select(a, j) == zint(v)]))), 'collect'))
    st.add(zint(n) >= 0)
    return SeqZ(a, 0, n, ety)
def map_of(ex, st, it, kty, vty):
    v, facts, j, n = comprehension(ex, st, it)
    if not (isinstance(v, Agg) and len(v.fs) == 2 and is_int(v.fs[0]) and is_int(v.fs[1])): raise Unsupported('map comprehension')
    k, x = v.fs
    kv = fresh('key')
    val = z3.substitute(zint(x), (zint(k), kv))
    kfacts = []
    for f in facts:
        g = z3.substitute(zbool(f), (zint(k), kv))
        if not contains(g, j): kfacts.append(g)
    if contains(val, j): raise Unsupported('map value not a function of its key')
    dom = fresh('dom', z3.ArraySort(I, B)); arr = fresh('map', A)
    idx = z3.Function(f'idx!{fresh("f")}', I, I)
    st.add(FA(j, z3.Implies(z3.And(0 <= j, j < zint(n)), And(*([zbool(f) for f in facts] + [z3.Select(dom, zint(k))]))), 'collected keys'))
    q = fresh('q')
    kj = z3.substitute(zint(k), (j, idx(q)))
    st.add(FA(q, z3.Implies(z3.Select(dom, q), z3.And(0 <= idx(q), idx(q) < zint(n), kj == q)), 'key index'))
    st.add(FA(kv, z3.Implies(z3.Select(dom, kv), And(*(kfacts + [z3.Select(arr, kv) == val]))), 'collected values'))
    return MapZ(dom, arr, kty, vty)
def contains(e, j):
    seen = set(); stk = [e]
    while stk:
        x = stk.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(j): return True
        stk += x.children()
    return False
@h('std::iter::Extend::extend', 'std::vec::Vec::extend')
def _extend(ex, st, c):
    m = c.args[0]; v = ex.mut_get(st, m); it = to_it(ex, st, c.args[1])
    if isinstance(v, (SeqC, SeqZ)):
        if has_len(it):
            n = it_len(ex, st, it)
            if not is_conc(n) or isinstance(v, SeqZ):
                try:
                    w, facts, j, n = comprehension(ex, st, it)
                    if not is_int(w): raise Unsupported('x')
                    z = seq_to_z(v)
                    a = fresh('ext', A); j0 = fresh('j')
                    st.add(FA(j0, z3.Implies(z3.And(0 <= j0, j0 < zint(z.len)), z3.Select(a, j0) == z3.Select(z.arr, zint(simp(z.off + j0)))), 'extend keeps'))
                    q = fresh('q'); jj = q - zint(z.len)
                    b = And(*([zbool(f) for f in facts] + [z3.Select(a, q) == zint(w)]))
                    b = z3.substitute(zbool(b), (j, jj))
                    st.add(FA(q, z3.Implies(z3.And(zint(z.len) <= q, q < zint(simp(z.len + n))), b), 'extend adds'))
                    ex.mut_set(st, m, SeqZ(a, 0, simp(z.len + n), z.ety))
                    return [(st, UNIT)]
                except Unsupported: pass
        return ('@call', st, FnV('@extend'), [m, it])
    if isinstance(v, (MapC, MapZ)): return ('@call', st, FnV('@extmap'), [m, it])
    if is_text(v): return ('@call', st, FnV('@extend_str'), [m, it])
    raise Unsupported('extend')

# ------------------------------------------------------------------ Vec / slices
@h('std::vec::Vec::new', 'std::vec::Vec::with_capacity')
def _vnew(ex, st, c): return [(st, SeqC((), elem_ty(ex, c.destty)))]
@h('std::vec::Vec::push', '@push')
def _push(ex, st, c):
    m = c.args[0]; v = ex.mut_get(st, m); x = c.args[1]
    if isinstance(v, SeqC): ex.mut_set(st, m, SeqC(v.xs + (x,), v.ety))
    elif isinstance(v, SeqZ):
        x = zint(adt.code(ex, st, x))
        ex.mut_set(st, m, SeqZ(z3.Store(v.arr, zint(simp(v.off + v.len)), x), v.off, simp(v.len + 1), v.ety))
    else: raise Unsupported('push')
    return [(st, UNIT)]
@h('std::vec::Vec::pop')
def _pop(ex, st, c):
    m = c.args[0]; v = ex.mut_get(st, m); n = ex.seq_len(v); out = []
    a, b = ex.branch(st, conc(simp(zint(n) > 0)))
    if a is not None:
        x = ex.select(a, v, simp(n - 1)); ex.mut_set(a, m, ex.subseq(v, 0, simp(n - 1)))
        out.append((a, SOME(x, c.destty)))
    if b is not None: out.append((b, NONE(c.destty)))
    return out
@h('std::vec::Vec::len', 'core::slice<impl>::len', 'std::string::String::len', 'core::str<impl>::len', 'std::collections::BTreeMap::len', 'std::collections::HashMap::len')
def _len(ex, st, c):
    v = ex.val(st, c.args[0])
    if isinstance(v, MapC): return [(st, len(v.d))]
    if isinstance(v, ObjV): return [(st, obj_len(st, v))]
    if isinstance(v, BoxV): v = v.v
    return [(st, ex.seq_len(v))]
def obj_len(st, v):
    n = adt.OBJLEN(zint(v.e)); st.add(n >= 0, n <= (1 << 58)); return n
@h('std::vec::Vec::is_empty', 'core::slice<impl>::is_empty', 'std::string::String::is_empty', 'core::str<impl>::is_empty', 'std::collections::BTreeMap::is_empty', 'std::collections::HashMap::is_empty')
def _isempty(ex, st, c):
    v = ex.val(st, c.args[0])
    n = len(v.d) if isinstance(v, MapC) else obj_len(st, v) if isinstance(v, ObjV) else ex.seq_len(v)
    return [(st, conc(simp(zint(n) == 0)))]
def _edge(ex, st, c, last, mut=False):
    v = ex.val(st, c.args[0]); n = ex.seq_len(v); out = []
    a, b = ex.branch(st, conc(simp(zint(n) > 0)))
    if a is not None:
        ix = simp(n - 1) if last else 0
        if mut: out.append((a, SOME(Mut(c.args[0].root, c.args[0].path + (('i', ix),)), c.destty)))
        else: out.append((a, SOME(Ref(ex.select(a, v, ix)), c.destty)))
    if b is not None: out.append((b, NONE(c.destty)))
    return out
@h('core::slice<impl>::last')
def _slast(ex, st, c): return _edge(ex, st, c, True)
@h('core::slice<impl>::first')
def _sfirst(ex, st, c): return _edge(ex, st, c, False)
@h('core::slice<impl>::last_mut')
def _slastm(ex, st, c): return _edge(ex, st, c, True, True)
def range_ends(r, kind, n):
    lo = r.fs[0] if kind in ('Range', 'RangeFrom', 'RangeInclusive') else 0
    if kind == 'Range': hi = r.fs[1]
    elif kind == 'RangeInclusive': hi = simp(r.fs[1] + 1)
    elif kind == 'RangeTo': hi = r.fs[0]
    elif kind == 'RangeToInclusive': hi = simp(r.fs[0] + 1)
    else: hi = n
    return lo, hi
def index_range(ex, st, v, r, kind, where):
    n = ex.seq_len(v); lo, hi = range_ends(r, kind, n)
    ok = And(conc(simp(zint(lo) <= hi)), conc(simp(zint(hi) <= n)))
    if not ex.oblige(st, ok, 'slice range in bounds', where): return None
    return ex.subseq(v, lo, hi)
@h('std::ops::Index::index', 'std::slice::SliceIndex::index')
def _index(ex, st, c):
    v = ex.val(st, c.args[0]); ix = c.args[1]
    if c.key.endswith('SliceIndex::index'): v, ix = ex.val(st, c.args[1]), c.args[0]
    if isinstance(v, (MapC, MapZ)):
        out = []
        for t, x in map_get(ex, st, v, ix):
            if x is None: ex.oblige(t, False, 'no panic (map index: key present)', c.where)
            else: out.append((t, Ref(x)))
        return out
    if isinstance(v, str) and is_range(ex, ix):
        k = is_range(ex, ix); b = v.encode(); lo, hi = range_ends(ix, k, len(b))
        if not (isinstance(lo, int) and isinstance(hi, int)): raise Unsupported('text range')
        def edge(i): return i == len(b) or (0 <= i < len(b) and b[i] & 0xc0 != 0x80)
        if not ex.oblige(st, lo <= hi <= len(b) and edge(lo) and edge(hi), 'text range on character boundaries', c.where): return []
        return [(st, Ref(b[lo:hi].decode()))]
    if isinstance(v, (SeqC, SeqZ)):
        k = is_range(ex, ix)
        if k:
            s = index_range(ex, st, v, ix, k, c.where)
            return [] if s is None else [(st, Ref(s))]
        if is_int(ix):
            if not ex.oblige(st, conc(simp(And(zint(ix) >= 0, zint(ix) < ex.seq_len(v)))), 'index in bounds', c.where): return []
            return [(st, Ref(ex.select(st, v, ix)))]
    return None
@h('std::ops::IndexMut::index_mut')
def _indexm(ex, st, c):
    m = c.args[0]; v = ex.val(st, m); ix = c.args[1]
    if isinstance(v, (SeqC, SeqZ)) and is_int(ix) and isinstance(m, Mut):
        if not ex.oblige(st, conc(simp(And(zint(ix) >= 0, zint(ix) < ex.seq_len(v)))), 'index in bounds', c.where): return []
        return [(st, Mut(m.root, m.path + (('i', ix),)))]
    if isinstance(v, (SeqC, SeqZ)) and isinstance(m, Mut) and is_range(ex, ix) == 'RangeFull': return [(st, m)]
    return None
@h('core::slice<impl>::get')
def _get(ex, st, c):
    v = ex.val(st, c.args[0]); ix = c.args[1]; out = []
    if is_range(ex, ix): raise Unsupported('get(range)')
    a, b = ex.branch(st, conc(simp(And(zint(ix) >= 0, zint(ix) < ex.seq_len(v)))))
    if a is not None: out.append((a, SOME(Ref(ex.select(a, v, ix)), c.destty)))
    if b is not None: out.append((b, NONE(c.destty)))
    return out
@h('core::slice<impl>::to_vec', 'std::slice<impl>::to_vec', 'std::borrow::ToOwned::to_owned', 'std::vec::Vec::as_slice', 'core::slice<impl>::into_vec')
def _tovec(ex, st, c):
    v = ex.val(st, c.args[0])
    if isinstance(v, (SeqC, SeqZ)) or is_text(v): return [(st, Ref(v) if c.key.endswith('as_slice') else v)]
    return None
@h('core::slice<impl>::reverse')
def _reverse(ex, st, c):
    m = c.args[0]; v = ex.val(st, m)
    if isinstance(v, SeqC): ex.mut_set(st, m, SeqC(tuple(reversed(v.xs)), v.ety)); return [(st, UNIT)]
    if isinstance(v, SeqZ):
        a = fresh('rev', A); j = fresh('j')
        st.add(FA(j, z3.Implies(z3.And(0 <= j, j < zint(v.len)), z3.Select(a, j) == z3.Select(v.arr, zint(simp(v.off + v.len - 1 - j)))), 'reverse'))
        ex.mut_set(st, m, SeqZ(a, 0, v.len, v.ety)); return [(st, UNIT)]
    raise Unsupported('reverse')
@h('core::slice<impl>::split_last', 'core::slice<impl>::split_first')
def _split(ex, st, c):
    v = ex.val(st, c.args[0]); n = ex.seq_len(v); out = []
    a, b = ex.branch(st, conc(simp(zint(n) > 0)))
    if a is not None:
        if 'last' in c.key: p = Agg(None, 0, (Ref(ex.select(a, v, simp(n - 1))), Ref(ex.subseq(v, 0, simp(n - 1)))))
        else: p = Agg(None, 0, (Ref(ex.select(a, v, 0)), Ref(ex.subseq(v, 1, n))))
        out.append((a, SOME(p, c.destty)))
    if b is not None: out.append((b, NONE(c.destty)))
    return out
@h('std::vec::Vec::clear', 'std::vec::Vec::truncate')
def _clear(ex, st, c):
    m = c.args[0]; v = ex.val(st, m)
    if c.key.endswith('clear'): ex.mut_set(st, m, SeqC((), v.ety)); return [(st, UNIT)]
    n = ex.seq_len(v); out = []
    a, b = ex.branch(st, conc(simp(zint(c.args[1]) < n)))
    if a is not None: ex.mut_set(a, m, ex.subseq(v, 0, c.args[1])); out.append((a, UNIT))
    if b is not None: out.append((b, UNIT))
    return out
@h('std::vec::Vec::reserve', 'std::vec::Vec::shrink_to_fit')
def _reserve(ex, st, c): return [(st, UNIT)]
@h('std::boxed::Box::new_uninit')
def _boxun(ex, st, c): return [(st, BoxV(UNINIT))]
@h('std::boxed::Box::new')
def _boxnew(ex, st, c): return [(st, BoxV(c.args[0]))]
@h('std::boxed::box_assume_init_into_vec_unsafe')
def _boxvec(ex, st, c):
    v = c.args[0]
    while not isinstance(v, (SeqC, SeqZ)):
        if isinstance(v, BoxV): v = v.v
        elif isinstance(v, Agg) and v.fs: v = v.fs[-1]
        else: raise Unsupported('vec! box')
    return [(st, SeqC(v.xs, elem_ty(ex, c.destty)) if isinstance(v, SeqC) else v)]
@h('std::vec::from_elem')
def _fromelem(ex, st, c):
    x, n = c.args
    if isinstance(n, int) and n <= 4096: return [(st, SeqC([x] * n, elem_ty(ex, c.destty)))]
    if is_int(x): return [(st, SeqZ(z3.K(I, zint(x)), 0, n, elem_ty(ex, c.destty)))]
    raise Unsupported('vec![x; n]')

# ------------------------------------------------------------------ maps
def map_get(ex, st, m, k):
    """[(state, value | None)]"""
    k = ex.val(st, k)
    if isinstance(m, MapC):
        if is_conc(k): return [(st, m.d.get(k))]
        if not is_int(k): raise Unsupported('symbolic key')
        cases = [(conc(k == q), v) for q, v in m.d.items()]
        cases.append((And(*[Not(c) for c, _ in cases]), None))
        return ex.fork(st, cases)
    if isinstance(m, MapZ):
        out = []
        a, b = ex.branch(st, z3.Select(m.dom, zint(k)))
        if a is not None:
            out.append((a, ex.map_lift(a, m, z3.Select(m.val, zint(k)))))
        if b is not None: out.append((b, None))
        return out
    raise Unsupported('map lookup')
_MAPS = ('std::collections::BTreeMap::', 'std::collections::HashMap::')
def mh(*names): return h(*[p + n for p in _MAPS for n in names])
@mh('new', 'with_capacity')
def _mnew(ex, st, c): return [(st, MapC({}, elem_ty(ex, c.destty), elem_ty(ex, c.destty, 1)))]
@mh('get')
def _mget(ex, st, c):
    m = ex.val(st, c.args[0])
    return [(t, NONE(c.destty) if x is None else SOME(Ref(x), c.destty)) for t, x in map_get(ex, st, m, c.args[1])]
@mh('contains_key')
def _mhas(ex, st, c):
    m = ex.val(st, c.args[0]); k = ex.val(st, c.args[1])
    if isinstance(m, MapZ): return [(st, conc(simp(z3.Select(m.dom, zint(k)))))]
    return [(t, x is not None) for t, x in map_get(ex, st, m, k)]
@mh('get_mut')
def _mgetm(ex, st, c):
    r = c.args[0]; m = ex.val(st, r); k = ex.val(st, c.args[1])
    out = []
    for t, x in map_get(ex, st, m, k):
        kk = k
        if x is not None and isinstance(m, MapC) and not is_conc(k):
            ex.mut_set(t, r, map_to_z(m))
        out.append((t, NONE(c.destty) if x is None else SOME(Mut(r.root, r.path + (('k', kk),)), c.destty)))
    return out
@mh('remove')
def _mremove(ex, st, c):
    r = c.args[0]; m = ex.val(st, r); k = ex.val(st, c.args[1]); out = []
    for t, x in map_get(ex, st, m, k):
        if x is not None:
            if isinstance(m, MapC):
                hit = [q for q, v in m.d.items() if v is x]
                if is_conc(k): hit = [k]
                if len(hit) != 1: raise Unsupported('map remove')
                ex.mut_set(t, r, MapC({q: v for q, v in m.d.items() if q != hit[0]}, m.kty, m.vty))
            else: ex.mut_set(t, r, MapZ(z3.Store(m.dom, zint(k), False), m.val, m.kty, m.vty))
        out.append((t, NONE(c.destty) if x is None else SOME(x, c.destty)))
    return out
@mh('entry')
def _mentry(ex, st, c): return [(st, It('entry', (), (c.args[0], c.args[1])))]
@h('std::collections::btree_map::Entry::or_insert', 'std::collections::hash_map::Entry::or_insert')
def _orinsert(ex, st, c):
    e = ex.val(st, c.args[0])
    if not isinstance(e, It) or e.kind != 'entry': return None
    r, k0 = e.subs; m = ex.val(st, r); k = ex.val(st, k0); out = []
    for t, x in map_get(ex, st, m, k):
        if x is None: map_insert(ex, t, c, r, k, c.args[1])
        elif isinstance(m, MapC) and not is_conc(k): ex.mut_set(t, r, map_to_z(m))
        out.append((t, Mut(r.root, r.path + (('k', k),))))
    return out
@mh('insert')
def _minsert(ex, st, c): return map_insert(ex, st, c, c.args[0], c.args[1], c.args[2])
@h('@insert')
def _minsert2(ex, st, c): return map_insert(ex, st, c, c.args[0], c.args[1].fs[0], c.args[1].fs[1])
def struct_key(ex, st, k):
    """the code of a structured key; keys that are equal have the same code: for trees, names and texts only (decimals compare by value)"""
    k = adt.strip(ex, st, k)
    if ex.prog.crate != 'sm_ast' or not isinstance(k, (ObjV, Agg)) or k.ty is None: raise Unsupported('symbolic map of structured keys')
    if adt.inexact(ex, k.ty):
        import ast_contracts as AC
        if k.ty != AC.T_AST(ex) or not ex.prover.cand(st.facts, zbool(AC.is_a(ex, st, k, "Symbol", "String")), []): raise Unsupported('map of keys whose equality is not structural')
    return adt.code(ex, st, k)
def map_insert(ex, st, c, r, k, x):
    m = ex.val(st, r)
    k0 = k; k = ex.val(st, k) if isinstance(k, (Ref, Mut)) else k
    if isinstance(m, MapC) and is_conc(k):
        old = m.d.get(k); d = dict(m.d); d[k] = x
        ex.mut_set(st, r, MapC(d, m.kty, m.vty))
        return [(st, NONE(c.destty) if old is None else SOME(old, c.destty))]
    z = map_to_z(m)
    if not is_int(k): k = struct_key(ex, st, k)
    x = zint(adt.code(ex, st, x))
    ex.mut_set(st, r, MapZ(z3.Store(z.dom, zint(k), True), z3.Store(z.val, zint(k), x), z.kty, z.vty))
    return [(st, Opq('old value'))]
@h('@unsupported')
def _u(ex, st, c): raise Unsupported('x')

# ------------------------------------------------------------------ numbers
def numlike(ex, c, i=0):
    ty = c.argtys[i] if i < len(c.argtys) else None
    if ty is not None:
        t = ex.prog.strip_ref(ty)
        return ex.prog.is_big(t) or ex.prog.is_int(t)
    return c.selfty is not None and re.fullmatch(r"&?('\w+ )?(num(_bigint)?::Big(Int|Uint)|[iu](8|16|32|64|128|size)|char)", c.selfty) is not None
def argbig(ex, c, i=0):
    """type index of the (dereferenced) argument"""
    ty = c.argtys[i] if i < len(c.argtys) else None
    return ex.prog.strip_ref(ty) if ty is not None else None
def vals2(ex, st, c): return ex.val(st, c.args[0]), ex.val(st, c.args[1])
def result_ty(ex, c): return c.destty
def arith(op, ex, st, a, b, ty, where):
    """ty: type of the result (None = unknown)"""
    if op == 'add': e = simp(a + b) if is_conc(a) or is_conc(b) else a + b
    elif op == 'sub': e = simp(a - b) if is_conc(a) or is_conc(b) else a - b
    elif op == 'mul': e = simp(a * b) if is_conc(a) or is_conc(b) else a * b
    elif op in ('div', 'rem'):
        if not ex.oblige(st, conc(simp(zint(b) != 0)), 'no division by zero', where): return None
        q, r = ex.tdivrem(st, a, b); e = q if op == 'div' else r
    if ty is not None:
        lo, hi = ex.prog.rng(ty)
        if lo is not None or hi is not None:
            ok = And(True if lo is None else conc(simp(zint(e) >= lo)), True if hi is None else conc(simp(zint(e) <= hi)))
            if op in ('add', 'mul') and hi is None: ok = True
            if op == 'rem': ok = True if lo is None or lo == 0 else conc(simp(z3.Not(z3.And(zint(a) == lo, zint(b) == -1))))
            if not ex.oblige(st, ok, f'no overflow ({op})', where): return None
    return e
for _op, _tr in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul'), ('div', 'Div'), ('rem', 'Rem')):
    def _mk(op):
        def f(ex, st, c):
            if not (numlike(ex, c, 0) or numlike(ex, c, 1)): return None
            a, b = vals2(ex, st, c)
            if not (is_int(a) and is_int(b)): return None
            e = arith(op, ex, st, a, b, c.destty, c.where)
            return [] if e is None else [(st, e)]
        def g(ex, st, c):
            if not isinstance(c.args[0], Mut): return None
            a, b = vals2(ex, st, c)
            if not (is_int(a) and is_int(b)): return None
            e = arith(op, ex, st, a, b, argbig(ex, c), c.where)
            if e is None: return []
            ex.mut_set(st, strip_mut(ex, st, c.args[0]), e); return [(st, UNIT)]
        return f, g
    f_, g_ = _mk(_op)
    HANDLERS[f'std::ops::{_tr}::{_op}'] = f_
    HANDLERS[f'std::ops::{_tr}Assign::{_op}_assign'] = g_
def strip_mut(ex, st, m):
    """innermost place of &mut &mut x"""
    while True:
        v = ex.mut_get(st, m)
        if isinstance(v, Mut): m = v
        else: return m
@h('std::ops::Neg::neg')
def _neg(ex, st, c):
    if not numlike(ex, c): return None
    a = ex.val(st, c.args[0])
    t = argbig(ex, c)
    if t is not None and ex.prog.is_biguint(t): return [] if not ex.oblige(st, False, 'no panic (negation of BigUint)', c.where) else []
    e = simp(-a)
    lo, hi = ex.prog.rng(t) if t is not None else (None, None)
    if hi is not None and not ex.oblige(st, conc(simp(zint(e) <= hi)), 'no overflow (neg)', c.where): return []
    return [(st, e)]
def cmp_handler(op):
    def f(ex, st, c):
        a, b = vals2(ex, st, c)
        if (is_int(a) and is_int(b)) or (isinstance(a, str) and isinstance(b, str)) or (is_bool(a) and is_bool(b)):
            return [(st, ex.compare(st, op, a, b))]
        if op in ('Eq', 'Ne'):
            a, b = adt.strip(ex, st, a), adt.strip(ex, st, b)
            if is_text(a) and is_text(b): return [(st, ex.compare(st, op, a, b))]
        return None
    return f
for _m, _o in (('PartialEq::eq', 'Eq'), ('PartialEq::ne', 'Ne'), ('PartialOrd::lt', 'Lt'), ('PartialOrd::le', 'Le'), ('PartialOrd::gt', 'Gt'), ('PartialOrd::ge', 'Ge')):
    HANDLERS['std::cmp::' + _m] = cmp_handler(_o)
@h('std::cmp::Ord::cmp', 'std::cmp::PartialOrd::partial_cmp')
def _cmp(ex, st, c):
    a, b = vals2(ex, st, c)
    if not (is_int(a) and is_int(b)): return None
    wrap = c.key.endswith('partial_cmp')
    ty = c.destty if not wrap else elem_ty(ex, c.destty)
    out = ex.fork(st, [(conc(simp(zint(a) < b)), 0), (conc(simp(zint(a) == b)), 1), (conc(simp(zint(a) > b)), 2)])
    return [(t, SOME(Agg(ty, v, ()), c.destty) if wrap else Agg(ty, v, ())) for t, v in out]
@h('std::cmp::Ord::max', 'std::cmp::Ord::min', 'std::cmp::max', 'std::cmp::min')
def _maxmin(ex, st, c):
    a, b = c.args
    if isinstance(a, Ref) or not (is_int(a) and is_int(b)): return None
    if c.key.endswith('max'): return [(st, simp(If(conc(zint(a) <= b), b, a)))]
    return [(st, simp(If(conc(zint(a) <= b), a, b)))]
@h('std::clone::Clone::clone')
def _clone(ex, st, c):
    x = c.args[0]
    v = x.v if isinstance(x, Ref) else ex.mut_get(st, x) if isinstance(x, Mut) else None
    if v is None: return None
    return [(st, v)]
@h('num::Zero::zero')
def _zero(ex, st, c): return [(st, 0)]
@h('num::One::one')
def _one(ex, st, c): return [(st, 1)]
@h('num::Zero::is_zero')
def _isz(ex, st, c): return [(st, conc(simp(zint(ex.val(st, c.args[0])) == 0)))]
@h('num::One::is_one')
def _iso(ex, st, c): return [(st, conc(simp(zint(ex.val(st, c.args[0])) == 1)))]
@h('num::Zero::set_zero', 'num::One::set_one')
def _setz(ex, st, c): ex.mut_set(st, c.args[0], 0 if 'zero' in c.key else 1); return [(st, UNIT)]
def opaque_pred(nm):
    """a predicate of a foreign value (a decimal): some function of it"""
    def f(ex, st, v):
        if not isinstance(v, ObjV): raise Unsupported(nm)
        return z3.Function(f'{nm}_{v.ty}', z3.IntSort(), z3.BoolSort())(zint(v.e))
    return f
@h('num::Signed::is_negative', 'core::num<impl>::is_negative')
def _isneg(ex, st, c):
    v = ex.val(st, c.args[0])
    if not is_int(v): return [(st, opaque_pred('is_negative')(ex, st, v))]
    return [(st, conc(simp(zint(v) < 0)))]
@h('num::Signed::is_positive', 'core::num<impl>::is_positive')
def _ispos(ex, st, c):
    v = ex.val(st, c.args[0])
    if not is_int(v): return [(st, opaque_pred('is_positive')(ex, st, v))]
    return [(st, conc(simp(zint(v) > 0)))]
@h('num::Signed::abs', 'core::num<impl>::unsigned_abs', 'num::abs')
def _abs(ex, st, c):
    a = ex.val(st, c.args[0])
    if not c.key.endswith('unsigned_abs') and not fits(ex, st, c, abs(a) if is_conc(a) else If(a >= 0, a, -a), 'abs'): return []
    return [(st, abs(a) if is_conc(a) else If(a >= 0, a, -a))]
@h('num::Signed::signum')
def _signum(ex, st, c):
    a = ex.val(st, c.args[0])
    return [(st, simp(If(conc(zint(a) > 0), 1, If(conc(zint(a) < 0), -1, 0))))]
@h('num::Integer::is_even', 'num::Integer::is_odd')
def _even(ex, st, c):
    a = ex.val(st, c.args[0])
    return [(st, conc(simp(zint(a) % 2 == (0 if 'even' in c.key else 1))))]
@h('num::BigInt::sign')
def _sign(ex, st, c):
    a = ex.val(st, c.args[0])
    return [(t, Agg(c.destty, v, ())) for t, v in ex.fork(st, [(conc(simp(zint(a) < 0)), 0), (conc(simp(zint(a) == 0)), 1), (conc(simp(zint(a) > 0)), 2)])]
@h('num::BigInt::from_biguint')
def _frombu(ex, st, c):
    s_, a = c.args
    return [(st, simp({0: -zint(a), 1: 0, 2: a}[s_.var]) if not is_conc(a) else {0: -a, 1: 0, 2: a}[s_.var])]
@h('num::BigInt::to_biguint')
def _tobu(ex, st, c):
    a = ex.val(st, c.args[0]); out = []
    x, y = ex.branch(st, conc(simp(zint(a) >= 0)))
    if x is not None: out.append((x, SOME(a, c.destty)))
    if y is not None: out.append((y, NONE(c.destty)))
    return out
def fits(ex, st, c, e, what, ty=None):
    """obligation: the value fits the (machine) type of the result"""
    ty = ty if ty is not None else c.destty
    lo, hi = ex.prog.rng(ty) if ty is not None else (None, None)
    if hi is None: return True
    return ex.oblige(st, conc(simp(And(zint(e) >= lo, zint(e) <= hi))), f'no overflow ({what})', c.where)
def min_over(ex, st, c, a, b, ty):
    """obligation: not the least machine integer over -1"""
    lo, hi = ex.prog.rng(ty) if ty is not None else (None, None)
    if hi is None or lo == 0: return True
    return ex.oblige(st, conc(simp(z3.Not(z3.And(zint(a) == lo, zint(b) == -1)))), 'no overflow (division)', c.where)
def gcd_facts(ex, st, a, b):
    if is_conc(a) and is_conc(b):
        import math
        return math.gcd(a, b)
    g = app(GCD, a, b)
    qa, qb = fresh('qa'), fresh('qb')
    st.add(zint(a) == g * qa, zint(b) == g * qb, *gcd_axioms(g, a, b))
    return g
@h('num::integer::gcd', 'num::Integer::gcd')
def _gcd(ex, st, c):
    a, b = vals2(ex, st, c); g = gcd_facts(ex, st, a, b)
    return [(st, g)] if fits(ex, st, c, g, 'gcd') else []
@h('num::integer::lcm', 'num::Integer::lcm')
def _lcm(ex, st, c): raise Unsupported('lcm')
@h('num::Integer::extended_gcd', 'num::integer::extended_gcd')
def _egcd(ex, st, c):
    a, b = vals2(ex, st, c)
    if not ex.prog.is_big(argbig(ex, c)): raise Unsupported('extended_gcd of machine integers')
    names = [f[0] for f in ex.T[c.destty]['variants'][0]['fields']]
    if is_conc(a) and is_conc(b):
        g, x, y = py_egcd(a, b)
    else:
        g = gcd_facts(ex, st, a, b)
        x, y = fresh('bx'), fresh('by')
        st.add(zint(a) * x + zint(b) * y == g)
    d = {'gcd': g, 'x': x, 'y': y}
    return [(st, Agg(c.destty, 0, [d.get(n, UNIT) for n in names]))]
def py_egcd(a, b):
    """num-integer 0.1's loop, with floor... uses truncating division exactly as the library does"""
    s = (0, 1); t = (1, 0); r = (b, a)
    while r[0] != 0:
        q = c_tdiv(r[1], r[0])
        r = (r[1] - q * r[0], r[0]); s = (s[1] - q * s[0], s[0]); t = (t[1] - q * t[0], t[0])
    if r[1] >= 0: return r[1], s[1], t[1]
    return -r[1], -s[1], -t[1]
@h('num::Integer::div_floor', 'num::Integer::mod_floor', 'num::integer::mod_floor', 'num::integer::div_floor', 'core::num<impl>::rem_euclid', 'core::num<impl>::div_euclid', 'num::Integer::div_mod_floor')
def _floor(ex, st, c):
    a, b = vals2(ex, st, c)
    if not ex.oblige(st, conc(simp(zint(b) != 0)), 'no division by zero', c.where): return []
    if not min_over(ex, st, c, a, b, argbig(ex, c)): return []
    euclid = 'euclid' in c.key
    if is_conc(a) and is_conc(b):
        q = a // b
        if euclid and b < 0: q = -(a // -b)
        r = a - b * q
    else:
        q, r = fresh('fq'), fresh('fr'); zb = zint(b)
        st.add(zint(a) == zb * q + r, z3.Implies(zb > 0, z3.And(0 <= r, r < zb)))
        st.add(z3.Implies(zb < 0, z3.And(0 <= r, r < -zb) if euclid else z3.And(zb < r, r <= 0)))
    if c.key.endswith('div_mod_floor'): return [(st, Agg(c.destty, 0, (q, r)))]
    return [(st, q if 'div' in c.key else r)]
@h('num::Integer::div_rem')
def _divrem(ex, st, c):
    a, b = vals2(ex, st, c)
    if not ex.oblige(st, conc(simp(zint(b) != 0)), 'no division by zero', c.where): return []
    if not min_over(ex, st, c, a, b, argbig(ex, c)): return []
    q, r = ex.tdivrem(st, a, b)
    return [(st, Agg(c.destty, 0, (q, r)))]
@h('num::Integer::is_multiple_of', 'num::Integer::divides', 'core::num<impl>::is_multiple_of')
def _mult(ex, st, c):
    a, b = vals2(ex, st, c)
    if c.key.startswith('num') and not ex.oblige(st, conc(simp(zint(b) != 0)), 'no division by zero', c.where): return []
    if c.key.startswith('core'):
        nz, z = ex.branch(st, conc(simp(zint(b) != 0))); out = []
        if nz is not None: q, r = ex.tdivrem(nz, a, b); out.append((nz, conc(simp(zint(r) == 0))))
        if z is not None: out.append((z, conc(simp(zint(a) == 0))))
        return out
    q, r = ex.tdivrem(st, a, b)
    return [(st, conc(simp(zint(r) == 0)))]
@h('num::traits::Pow::pow', 'num::BigInt::pow', 'num::BigUint::pow', 'num::pow', 'core::num<impl>::pow', 'num::checked_pow')
def _pow(ex, st, c):
    a, b = vals2(ex, st, c)
    if c.key == 'num::checked_pow': raise Unsupported('checked_pow')
    if is_conc(b) and b <= 4:
        e = 1
        for _ in range(b): e = a if is_conc(e) and e == 1 else e * a
    elif is_conc(a) and is_conc(b) and b < 100000: e = a ** b
    else: e = app(IPOW, a, b)
    ty = c.destty
    lo, hi = ex.prog.rng(ty) if ty is not None else (None, None)
    if hi is not None:
        if not ex.oblige(st, conc(simp(And(zint(e) >= lo, zint(e) <= hi))), 'no overflow (pow)', c.where): return []
    return [(st, e)]
@h('num::integer::Roots::sqrt', 'num::integer::sqrt', 'num::Roots::sqrt', 'core::num<impl>::isqrt')
def _sqrt(ex, st, c):
    a = ex.val(st, c.args[0])
    if is_conc(a):
        import math
        return [(st, math.isqrt(a))]
    if not ex.oblige(st, conc(zint(a) >= 0), 'no panic (sqrt of negative)', c.where): return []
    r = app(ISQ, a)
    st.add(*sqrt_axioms(r, a))
    ty = c.destty
    if ty is not None and ex.prog.rng(ty)[1] is not None:
        hi = ex.prog.rng(ty)[1]
        import math
        st.add(z3.Implies(zint(a) <= hi, r <= math.isqrt(hi)))
    return [(st, r)]
_CONV = {'u8': (0, 8), 'u16': (0, 16), 'u32': (0, 32), 'u64': (0, 64), 'u128': (0, 128), 'usize': (0, 64), 'i8': (1, 8), 'i16': (1, 16), 'i32': (1, 32), 'i64': (1, 64), 'i128': (1, 128), 'isize': (1, 64)}
for _n, (_s, _b) in _CONV.items():
    def _mkc(sg, bits):
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
        def f(ex, st, c):
            a = ex.val(st, c.args[0]); out = []
            x, y = ex.branch(st, conc(simp(And(zint(a) >= lo, zint(a) <= hi))))
            if x is not None: out.append((x, SOME(a, c.destty)))
            if y is not None: out.append((y, NONE(c.destty)))
            return out
        return f
    HANDLERS['num::ToPrimitive::to_' + _n] = _mkc(_s, _b)
@h('num::FromPrimitive::from_u64', 'num::FromPrimitive::from_i64', 'num::FromPrimitive::from_usize', 'num::FromPrimitive::from_u32', 'num::FromPrimitive::from_i32', 'num::FromPrimitive::from_u128', 'num::FromPrimitive::from_isize')
def _fromprim(ex, st, c):
    a = c.args[0]; lo, _ = ex.prog.rng(elem_ty(ex, c.destty)) if elem_ty(ex, c.destty) is not None else (None, None)
    if lo == 0 and not (is_conc(a) and a >= 0): raise Unsupported('from_i*')
    return [(st, SOME(a, c.destty))]
@h('std::string::String::into_boxed_str', 'std::vec::Vec::into_boxed_slice')
def _boxed(ex, st, c): return [(st, BoxV(ex.val(st, c.args[0])))]
@h('std::convert::From::from', 'std::convert::Into::into', 'num::bigint::ToBigInt::to_bigint', 'num::ToBigInt::to_bigint', 'std::convert::AsRef::as_ref', 'std::string::ToString::to_string',
   'std::borrow::Borrow::borrow', 'std::string::String::as_str', 'std::string::String::from', 'core::str<impl>::to_string', 'core::str<impl>::to_owned', 'std::string::String::as_ref')
def _from(ex, st, c):
    a = c.args[0]; v = ex.val(st, a)
    if c.key.endswith('to_bigint'): return [(st, SOME(v, c.destty))]
    if is_int(v) and c.destty is not None and (ex.prog.is_big(c.destty) or ex.prog.is_int(c.destty)) and not isinstance(a, (Ref, Mut)):
        if ex.prog.is_biguint(c.destty) and not (is_conc(v) and v >= 0): st.add(zint(v) >= 0) if c.argtys[0] is not None and ex.prog.rng(c.argtys[0])[0] == 0 else None
        return [(st, v)]
    if is_bool(v) and c.destty is not None and ex.prog.is_int(c.destty): return [(st, If(v, 1, 0))]
    if isinstance(v, BoxV) and is_text(v.v) and c.destty is not None: v = v.v
    if is_text(v):
        if c.destty is not None and ex.T[c.destty]['k'] == 'ref': return [(st, Ref(v))]
        if tydef(ex, c.destty).endswith('String'): return [(st, v)]
        if c.destty is not None and adt.is_box(ex, c.destty) and adt.is_string(ex, ex.T[c.destty]['args'][0]): return [(st, BoxV(v))]
    if is_int(v) and c.argtys[0] is not None and ex.T[c.argtys[0]]['k'] == 'char' and tydef(ex, c.destty) == 'std::string::String': return [(st, text.char_text(st, v))]
    if isinstance(v, SeqC) and tydef(ex, c.destty).endswith('::Vec'): return [(st, SeqC(v.xs, elem_ty(ex, c.destty)))]
    if tydef(ex, c.destty).endswith('boxed::Box') and c.fn is not None and not c.fn.local and c.key == 'std::convert::From::from': return [(st, BoxV(a))]
    if c.key == 'std::convert::From::from' and c.argtys[0] is not None and c.argtys[0] == c.destty: return [(st, a)]
    if tydef(ex, c.destty).endswith('String') and c.key == 'std::string::ToString::to_string': return [(st, Opq('string'))]
    return None
@h('std::convert::TryFrom::try_from', 'std::convert::TryInto::try_into')
def _tryfrom(ex, st, c):
    a = c.args[0]
    ty = elem_ty(ex, c.destty)
    if not is_int(a) or ty is None or not ex.prog.is_int(ty): return None
    lo, hi = ex.prog.rng(ty); out = []
    x, y = ex.branch(st, conc(simp(And(zint(a) >= lo, zint(a) <= hi))))
    if x is not None: out.append((x, Agg(c.destty, 0, (a,))))
    if y is not None: out.append((y, Agg(c.destty, 1, (Opq('TryFromIntError'),))))
    return out
@h('std::str::FromStr::from_str', 'core::str<impl>::parse')
def _fromstr(ex, st, c):
    s_ = ex.val(st, c.args[0])
    ty = elem_ty(ex, c.destty)
    if isinstance(s_, str) and ty is not None and (ex.prog.is_big(ty) or ex.prog.is_int(ty)):
        m = re.fullmatch(r'[+-]?[0-9]+(_*[0-9])*_*', s_) if ex.prog.is_big(ty) else re.fullmatch(r'[+-]?[0-9]+', s_)
        if m:
            v = int(s_.replace('_', ''))
            lo, hi = ex.prog.rng(ty)
            if (lo is None or v >= lo) and (hi is None or v <= hi): return [(st, Agg(c.destty, 0, (v,)))]
        return [(st, Agg(c.destty, 1, (Opq('parse error'),)))]
    raise Unsupported('parse')
for _o in ('add', 'sub', 'mul', 'div', 'rem'):
    def _mkck(op):
        def chk(ex, st, c):
            a, b = vals2(ex, st, c)
            ty = elem_ty(ex, c.destty)
            if ty is None: return None
            lo, hi = ex.prog.rng(ty)
            out = []
            if op in ('div', 'rem'):
                x, y = ex.branch(st, conc(simp(zint(b) != 0)))
                if y is not None: out.append((y, NONE(c.destty)))
                if x is not None:
                    q, r = ex.tdivrem(x, a, b); out.append((x, SOME(q if op == 'div' else r, c.destty)))
                return out
            e = simp(a + b) if op == 'add' else simp(a - b) if op == 'sub' else a * b
            ok = And(True if lo is None else conc(simp(zint(e) >= lo)), True if hi is None else conc(simp(zint(e) <= hi)))
            x, y = ex.branch(st, ok)
            if x is not None: out.append((x, SOME(e, c.destty)))
            if y is not None: out.append((y, NONE(c.destty)))
            return out
        def wrp(ex, st, c):
            a, b = vals2(ex, st, c)
            e = simp(a + b) if op == 'add' else simp(a - b) if op == 'sub' else a * b
            return [(st, ex.wrap(st, e, c.destty))]
        def sat(ex, st, c):
            a, b = vals2(ex, st, c); lo, hi = ex.prog.rng(c.destty)
            e = simp(a + b) if op == 'add' else simp(a - b) if op == 'sub' else a * b
            return [(st, simp(If(conc(zint(e) > hi), hi, If(conc(zint(e) < lo), lo, e))))]
        return chk, wrp, sat
    a_, b_, c_ = _mkck(_o)
    HANDLERS['core::num<impl>::checked_' + _o] = a_
    HANDLERS[f'num::Checked{_o.capitalize()}::checked_{_o}'] = a_
    HANDLERS[f'num::BigUint::checked_{_o}'] = a_; HANDLERS[f'num::BigInt::checked_{_o}'] = a_
    if _o not in ('div', 'rem'):
        HANDLERS['core::num<impl>::wrapping_' + _o] = b_
        HANDLERS['core::num<impl>::saturating_' + _o] = c_
        HANDLERS['core::num<impl>::unchecked_' + _o] = b_
@h('core::num<impl>::abs_diff')
def _absdiff(ex, st, c):
    a, b = vals2(ex, st, c); return [(st, simp(If(conc(zint(a) >= b), simp(a - b), simp(b - a))))]

# ------------------------------------------------------------------ references, closures, misc
@h('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::vec::Vec::as_mut_slice', 'std::convert::AsMut::as_mut', 'std::boxed::Box::as_ref')
def _deref(ex, st, c):
    a = c.args[0]
    if isinstance(a, Ref):
        v = a.v
        if isinstance(v, (SeqC, SeqZ)) or is_text(v): return [(st, a)]
        if isinstance(v, BoxV): return [(st, Ref(v.v))]
        if isinstance(v, Ref): return [(st, v)]
        if isinstance(v, Mut): return [(st, Ref(ex.mut_get(st, v)))]
    if isinstance(a, Mut):
        v = ex.mut_get(st, a)
        if isinstance(v, (SeqC, SeqZ)) or is_text(v): return [(st, a)]
        if isinstance(v, BoxV): return [(st, Mut(a.root, a.path + ('box',)))]
        if isinstance(v, Mut): return [(st, v)]
    return None
@h('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call')
def _callfn(ex, st, c):
    t = c.args[1] if len(c.args) > 1 else UNIT
    return ('@call', st, c.args[0], list(t.fs))
@h('std::io::_print', 'std::io::_eprint', 'std::hint::black_box_unit')
def _print(ex, st, c): return [(st, UNIT)]
@h('std::mem::drop', 'std::mem::forget')
def _drop(ex, st, c): return [(st, UNIT)]
@h('std::mem::swap')
def _swap(ex, st, c):
    a, b = c.args; x, y = ex.mut_get(st, a), ex.mut_get(st, b)
    ex.mut_set(st, a, y); ex.mut_set(st, b, x); return [(st, UNIT)]
@h('std::mem::replace')
def _replace(ex, st, c):
    x = ex.mut_get(st, c.args[0]); ex.mut_set(st, c.args[0], c.args[1]); return [(st, x)]
@h('std::option::Option::take')
def _otake(ex, st, c):
    x = ex.mut_get(st, c.args[0]); ex.mut_set(st, c.args[0], NONE(x.ty)); return [(st, x)]
@h('std::ops::RangeInclusive::new')
def _rinew(ex, st, c): return [(st, Agg(c.destty, 0, (c.args[0], c.args[1], False)))]
@h('std::ops::RangeInclusive::contains', 'std::ops::Range::contains')
def _contains(ex, st, c):
    r = ex.val(st, c.args[0]); x = ex.val(st, c.args[1])
    return [(st, conc(simp(And(zint(x) >= r.fs[0], (zint(x) <= r.fs[1]) if 'Inclusive' in c.key else (zint(x) < r.fs[1])))))]
@h('std::ops::RangeInclusive::start', 'std::ops::RangeInclusive::end')
def _rstart(ex, st, c):
    r = ex.val(st, c.args[0]); return [(st, Ref(r.fs[0 if c.key.endswith('start') else 1]))]
@h('std::hint::black_box', 'std::convert::identity')
def _ident(ex, st, c): return [(st, c.args[0])]
@h('std::intrinsics::cold_path')
def _cold(ex, st, c): return [(st, UNIT)]
for _k in ('core::fmt::rt::Argument::new_debug', 'core::fmt::rt::Argument::new_display', 'std::fmt::Arguments::new', 'std::fmt::Arguments::from_str', 'std::fmt::Arguments::new_const', 'std::fmt::format', 'std::fmt::Arguments::from_str_nonconst'):
    HANDLERS[_k] = lambda ex, st, c: [(st, Opq('fmt'))]
@h('std::option::Option::cloned', 'std::option::Option::copied')
def _ocl(ex, st, c):
    o = c.args[0]
    if isinstance(o, Agg): return [(st, Agg(c.destty, o.var, [ex.val(st, x) if not isinstance(x, Ref) else x.v for x in o.fs]))]
    return None

import text
