"""Algebraic values: structures, enumerations, texts and containers known by an integer code.

A value of type T whose contents are unknown is ObjV(e, T): `kind_T(e)` is its variant, `fld_T_k_i(e)` field i of variant k
and `con_T_k(c0, .., cn)` the code of a value built from codes.  The functions are uninterpreted; con's defining facts are
added where a code is taken, so equality of codes implies equality of values and every fact holds in the intended model
(codes are an injective numbering of the finite values of each type)."""
import re
import z3
from vals import *
from uf import *

def tname(ex, ty): return f'{ty}'
def F(n, *s): return z3.Function(n, *s)
def kind_f(ty): return F(f'kind_{ty}', I, I)
def fld_f(ty, k, i): return F(f'fld_{ty}_{k}_{i}', I, I)
def con_f(ty, k, n): return F(f'con_{ty}_{k}', *([I] * (n + 1))) if n else None
OBJLEN = F('objlen', I, I)

def tdef(ex, ty):
    t = ex.T[ty] if ty is not None else None
    return t.get('def', '') if t is not None and t['k'] == 'adt' else ''
def is_vec(ex, ty): return tdef(ex, ty).endswith('vec::Vec') or ex.T[ty]['k'] == 'slice'
def is_string(ex, ty): return tdef(ex, ty) == 'std::string::String' or ex.T[ty]['k'] == 'str'
def is_box(ex, ty): return tdef(ex, ty) == 'std::boxed::Box'
def is_map(ex, ty): return tdef(ex, ty) in ('std::collections::BTreeMap', 'std::collections::HashMap')
def text_facts(e):
    e = zint(e); n = STRLEN(e); b = UTF8LEN(e); empty = lit_code('')
    return [n >= 0, n <= b, b <= 4 * n, b <= (1 << 62), (n == 0) == (e == empty)]
def mk_text(st, e):
    """text value of a code; literals become python strings"""
    e = simp(e)
    if isinstance(e, int): return code_lit(e)
    st.add(*text_facts(e))
    return StrV(e)
def mk_seq(st, e, ety):
    if z3.is_app(e) and e.decl().name() == 'cseq': return SeqZ(e.arg(0), simp(e.arg(1)), simp(e.arg(2)), ety)
    n = SEQN(zint(e)); st.add(n >= 0, n <= (1 << 58))
    return SeqZ(SEQA(zint(e)), 0, n, ety)

def lift(ex, st, e, ty):
    """the value of type ty with code e"""
    t = ex.T[ty]; k = t['k']
    if ex.scalar(ty): st.add(*ex.range_facts(e, ty)); return e
    if k == 'bool':
        e = simp(e)
        if isinstance(e, int): return e == 1
        st.add(zint(e) >= 0, zint(e) <= 1); return e == 1
    if is_string(ex, ty): return mk_text(st, e)
    if k in ('ref', 'ptr'): return Ref(lift(ex, st, e, t['elem']))
    if is_box(ex, ty): return BoxV(lift(ex, st, e, t['args'][0]))
    if is_vec(ex, ty): return mk_seq(st, e, t['elem'] if k == 'slice' else t['args'][0])
    if is_map(ex, ty) and ex.scalar(t['args'][0]): return MapZ(MAPD(zint(e)), MAPV(zint(e)), t['args'][0], t['args'][1])
    return ObjV(e, ty)
def variants(ex, ty):
    t = ex.T[ty]
    return t.get('variants') if t['k'] == 'adt' else None
def kind(ex, st, v):
    vs = variants(ex, v.ty)
    if vs is None or ex.T[v.ty].get('kind') == 'struct': return 0
    for i, va in enumerate(vs):
        if int(va['discr']) != i: raise Unsupported('enumeration with explicit discriminants')
    v = seen_through(v); c = made_as(v)
    if c is not None: return c
    k = app(kind_f(v.ty), v.e)
    st.add(k >= 0, k < len(vs))
    return k
def seen_through(v):
    """an element read from a written array, as the element"""
    if not z3.is_select(v.e) or not z3.is_store(v.e.arg(0)): return v
    e = z3.simplify(v.e)
    return v if z3.is_select(e) else ObjV(e, v.ty)
def made_as(v):
    """the variant a code was built as, when that is apparent"""
    m = re.fullmatch(rf'con_{v.ty}_(\d+)', v.e.decl().name()) if isinstance(v.e, z3.ExprRef) and z3.is_app(v.e) else None
    return int(m.group(1)) if m else None
def field_tys(ex, ty, k):
    t = ex.T[ty]
    if t['k'] == 'tuple': return list(t['elems'])
    vs = variants(ex, ty)
    if vs is None or k >= len(vs): raise Unsupported(f'fields of {t["k"]}')
    return [f[1] for f in vs[k]['fields']]
def opaque_adt(ex, ty):
    """a foreign type whose representation the model does not look into"""
    d = tdef(ex, ty)
    return d.startswith(('std::collections', 'bigdecimal', 'std::io', 'std::fmt')) or is_string(ex, ty)
def field(ex, st, v, k, i):
    if opaque_adt(ex, v.ty): raise Unsupported(f'representation of {tdef(ex, v.ty)}')
    ft = field_tys(ex, v.ty, k)
    if i >= len(ft): raise Unsupported(f'field {i} of variant {k}')
    v = seen_through(v)
    if made_as(v) == k and z3.is_app(v.e) and v.e.num_args() == len(ft): return lift(ex, st, simp(v.e.arg(i)), ft[i])
    return lift(ex, st, app(fld_f(v.ty, k, i), v.e), ft[i])
def expand(ex, st, v, k=0):
    if opaque_adt(ex, v.ty): raise Unsupported(f'representation of {tdef(ex, v.ty)}')
    return Agg(v.ty, k, [field(ex, st, v, k, i) for i in range(len(field_tys(ex, v.ty, k)))])
def code(ex, st, x):
    """integer code of a value (facts that define it go to st)"""
    c = scode(x)
    if c is not None: return c
    while isinstance(x, (Ref, BoxV)): x = x.v
    if isinstance(x, Mut): return code(ex, st, ex.mut_get(st, x))
    if is_bool(x): return If(x, 1, 0)
    if isinstance(x, Agg):
        if x.ty is None: raise Unsupported('code of an untyped aggregate')
        cs = [zint(code(ex, st, f)) for f in x.fs]
        if not cs:
            e = z3.Int(f'con_{x.ty}_{x.var}')
        else: e = con_f(x.ty, x.var, len(cs))(*cs)
        if variants(ex, x.ty) is not None and ex.T[x.ty].get('kind') != 'struct': st.add(kind_f(x.ty)(e) == x.var)
        for i, c in enumerate(cs): st.add(fld_f(x.ty, x.var, i)(e) == c)
        for c in cs:                                     # a value taken apart and put together again is the value it was
            if z3.is_app(c) and c.decl().name().startswith(f'fld_{x.ty}_{x.var}_'):
                o = c.arg(0); g = [fld_f(x.ty, x.var, i)(o) == d for i, d in enumerate(cs)]
                if variants(ex, x.ty) is not None and ex.T[x.ty].get('kind') != 'struct': g.append(kind_f(x.ty)(o) == x.var)
                st.add(z3.Implies(z3.And(*g), e == o)); break
        return e
    if isinstance(x, SeqC): x = seq_to_z(SeqC([zint(code(ex, st, q)) for q in x.xs], x.ety))
    if isinstance(x, SeqZ):
        a, o, n = x.arr, simp(x.off), simp(x.len)
        if a.decl().name() == 'seqa' and o == 0 and isinstance(n, z3.ExprRef) and n.decl().name() == 'seqn' and n.arg(0).eq(a.arg(0)): return a.arg(0)
        e = CSEQ(a, zint(o), zint(n)); j = fresh('j')
        st.add(SEQN(e) == zint(n), FA(j, z3.Implies(z3.And(0 <= j, j < zint(n)), z3.Select(SEQA(e), j) == z3.Select(a, j + zint(o))), 'sequence code'))
        return e
    if isinstance(x, MapC): x = map_to_z(MapC({k: code(ex, st, q) for k, q in x.d.items()}, x.kty, x.vty))
    if isinstance(x, MapZ):
        e = CMAP(x.dom, x.val); st.add(MAPD(e) == x.dom, MAPV(e) == x.val)
        return e
    raise Unsupported(f'code of {type(x).__name__}')
CODED = {'wolfram_wxf::WolframValue'}      # a contract may add to these
def coded(ex, st, v):
    """values of a type that nests without bound under a loop are kept as codes"""
    if ex.prog.crate == 'sm_ast' and not ex.concrete and tdef(ex, v.ty) in CODED: return ObjV(code(ex, st, v), v.ty)
    return v
def strip(ex, st, a):
    while True:
        if isinstance(a, (Ref, BoxV)): a = a.v
        elif isinstance(a, Mut): a = ex.mut_get(st, a)
        else: return a
def inexact(ex, ty, seen=None):
    """types whose equality is not equality of representations (decimals: 1.0 == 1.00)"""
    seen = set() if seen is None else seen
    if ty in seen or ty is None: return False
    seen.add(ty); t = ex.T[ty]
    if 'BigDecimal' in tdef(ex, ty) or t['k'] == 'float': return True
    if ex.scalar(ty) or t['k'] in ('bool', 'str') or is_string(ex, ty): return False
    sub = list(t.get('args') or []) if opaque_adt(ex, ty) or is_vec(ex, ty) or is_box(ex, ty) else [f[1] for va in variants(ex, ty) or [] for f in va['fields']]
    if 'elem' in t: sub.append(t['elem'])
    if 'elems' in t: sub += t['elems']
    return any(isinstance(q, int) and inexact(ex, q, seen) for q in sub)
def eqv(ex, st, a, b):
    """a term for `a equals b` (structural; the contracts' notion of `exactly the same value`)"""
    a, b = strip(ex, st, a), strip(ex, st, b)
    if same(a, b): return True
    if is_bool(a) and is_bool(b): return conc(simp(zbool(a) == zbool(b)))
    ca, cb = scode(a), scode(b)
    if ca is not None and cb is not None: return conc(simp(zint(ca) == cb))
    if isinstance(b, Agg) and isinstance(a, ObjV): a, b = b, a
    if isinstance(a, Agg):
        if isinstance(b, Agg):
            if a.var != b.var or len(a.fs) != len(b.fs): return False
            return And(*[eqv(ex, st, x, y) for x, y in zip(a.fs, b.fs)])
        if isinstance(b, ObjV):
            g = [conc(simp(zint(kind(ex, st, b)) == a.var))]
            return And(*(g + [eqv(ex, st, x, field(ex, st, b, a.var, i)) for i, x in enumerate(a.fs)]))
    if isinstance(a, SeqC) and isinstance(b, SeqC):
        if len(a.xs) != len(b.xs): return False
        return And(*[eqv(ex, st, x, y) for x, y in zip(a.xs, b.xs)])
    if isinstance(b, SeqC) and isinstance(a, SeqZ): a, b = b, a
    if isinstance(a, SeqC) and isinstance(b, SeqZ):
        return And(conc(simp(zint(b.len) == len(a.xs))), *[eqv(ex, st, x, ex.select(st, b, i)) for i, x in enumerate(a.xs)])
    if isinstance(a, SeqZ) and isinstance(b, SeqZ):
        if a.arr.eq(b.arr) and same(simp(a.off), simp(b.off)): return conc(simp(zint(a.len) == b.len))
    if isinstance(a, (MapC, MapZ)) and isinstance(b, (MapC, MapZ)):
        a, b = map_to_z(a), map_to_z(b)
        return And(a.dom == b.dom, a.val == b.val)
    ca, cb = code(ex, st, a), code(ex, st, b)
    return conc(simp(zint(ca) == cb))
