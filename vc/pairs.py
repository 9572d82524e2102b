"""Models (assumed contracts) of the parse tree pest hands to the tree builder, and of the text functions the builder uses on it.

A node of the parse tree is known by its code p: rule(p), text(p), span(p) and its children kids(p)[0 .. nkids(p))."""
import z3
from vals import *
from uf import *
import adt, intr, text
from intr import h, HANDLERS, tydef, elem_ty, SOME, NONE, It, SeqZ

PRULE = z3.Function('rule', I, I); PTEXT = z3.Function('node_text', I, I); PSPAN = z3.Function('span', I, I)
PKIDS = z3.Function('kids', I, A); PKIDN = z3.Function('nkids', I, I)
LINE = z3.Function('line_of', I, I, I)
SUBT = z3.Function('subtext', I, I, I, I)        # bytes lo..hi of a text
EDGE = z3.Function('char_boundary', I, I, B)
NUMERAL = z3.Function('numeral', I, I, B)        # numeral(t, b): digits of base b, single underscores between or before them
NUMVAL = z3.Function('numeral_value', I, I, I)   # the value of those digits, whatever underscores there are
DECNUM = z3.Function('decimal_value', I, I)      # the decimal a text of the form digits.digits denotes
DECOK = z3.Function('is_decimal', I, B)
STRIPU = z3.Function('without_underscores', I, I)
SHAPE = {}                                       # code of a node -> its children, where the contract fixes their number
def rule_ty(ex): return text.find_ty(ex, lambda t: t['k'] == 'adt' and t.get('def', '').endswith('sm_parser::Rule'))
def kids(ex, st, p, ty):
    e = zint(p.e)
    if e.get_id() in SHAPE and SHAPE[e.get_id()][0].eq(e): return SeqC([ObjV(z3.Select(PKIDS(e), i), ty) for i in range(SHAPE[e.get_id()][1])], ty)
    n = PKIDN(e); st.add(n >= 0, n <= (1 << 58))
    return SeqZ(PKIDS(e), 0, n, ty)
def node(ex, st, a):
    v = adt.strip(ex, st, a)
    if not isinstance(v, ObjV) or not tydef(ex, v.ty).endswith('Pair'): raise Unsupported('parse tree node')
    return v
@h('sm_parser::Pair::as_rule')
def _rule(ex, st, c):
    p = node(ex, st, c.args[0]); return [(st, ObjV(PRULE(zint(p.e)), c.destty))]
@h('sm_parser::Pair::as_str')
def _str(ex, st, c):
    p = node(ex, st, c.args[0]); return [(st, Ref(adt.mk_text(st, PTEXT(zint(p.e)))))]
@h('sm_parser::Pair::as_span')
def _span(ex, st, c):
    p = node(ex, st, c.args[0]); return [(st, ObjV(PSPAN(zint(p.e)), c.destty))]
@h('sm_parser::Span::start_pos', 'sm_parser::Span::end_pos')
def _pos(ex, st, c):
    v = adt.strip(ex, st, c.args[0]); return [(st, ObjV(z3.Function(c.key.split('::')[-1], I, I)(zint(v.e)), c.destty))]
@h('pest::Position::line_col')
def _linecol(ex, st, c):
    v = adt.strip(ex, st, c.args[0]); a, b = LINE(zint(v.e), 0), LINE(zint(v.e), 1); st.add(a >= 1, b >= 1, a <= (1 << 58), b <= (1 << 58))
    return [(st, Agg(c.destty, 0, (a, b)))]
@h('sm_parser::Pair::into_inner')
def _inner(ex, st, c):
    p = node(ex, st, c.args[0]); s = kids(ex, st, p, p.ty)
    n = len(s.xs) if isinstance(s, SeqC) else s.len
    return [(st, It('seq', (0, n), (s,), 'val'))]

# ------------------------------------------------------------------ texts
_index0 = HANDLERS['std::ops::Index::index']
@h('std::ops::Index::index', 'std::slice::SliceIndex::index')
def _index(ex, st, c):
    v = ex.val(st, c.args[1] if c.key.endswith('SliceIndex::index') else c.args[0]); ix = c.args[0] if c.key.endswith('SliceIndex::index') else c.args[1]
    if isinstance(v, StrV) and intr.is_range(ex, ix):
        e = zint(v.e); n = UTF8LEN(e); lo, hi = intr.range_ends(ix, intr.is_range(ex, ix), n)
        lo, hi = simp(lo), simp(hi)
        st.add(EDGE(e, 0), EDGE(e, n))
        if not ex.oblige(st, z3.And(zint(lo) <= zint(hi), zint(hi) <= n, EDGE(e, zint(lo)), EDGE(e, zint(hi))), 'text range on character boundaries', c.where): return []
        return [(st, Ref(adt.mk_text(st, SUBT(e, zint(lo), zint(hi)))))]
    return _index0(ex, st, c)
def strip_u(ex, st, v):
    """the text without underscores (all of them, or those in front): the same numeral"""
    if isinstance(v, str): return None
    e = zint(v.e); w = STRIPU(e)
    for b in (2, 8, 10, 16): st.add(z3.Implies(NUMERAL(e, b), z3.And(NUMERAL(w, b), NUMVAL(w, b) == NUMVAL(e, b), z3.Select(CHARS(w), 0) != ord('_'))))
    return adt.mk_text(st, w)
def is_underscore(ex, st, a):
    a = adt.strip(ex, st, a)
    return a == '_' or isinstance(a, int) and not isinstance(a, bool) and a == ord('_')
@h('core::str<impl>::trim_start_matches')
def _trimu(ex, st, c):
    v = ex.val(st, c.args[0])
    if not isinstance(v, StrV) or not is_underscore(ex, st, c.args[1]): raise Unsupported('trim_start_matches')
    return [(st, Ref(strip_u(ex, st, v)))]
_replace0 = HANDLERS['core::str<impl>::replace']
@h('core::str<impl>::replace', 'std::str<impl>::replace')
def _replace(ex, st, c):
    v = ex.val(st, c.args[0])
    if isinstance(v, StrV) and is_underscore(ex, st, c.args[1]) and adt.strip(ex, st, c.args[2]) == '': return [(st, strip_u(ex, st, v))]
    raise Unsupported('replace')
STARTS = z3.Function('starts_with', I, I, B)
_starts0 = HANDLERS['core::str<impl>::starts_with']
@h('core::str<impl>::starts_with')
def _starts(ex, st, c):
    v = ex.val(st, c.args[0]); q = ex.val(st, c.args[1])
    if isinstance(q, int) and not isinstance(q, bool): q = chr(q)
    if not is_text(v) or not isinstance(q, str): raise Unsupported('starts_with')
    if isinstance(v, str): return [(st, v.startswith(q))]
    e = zint(v.e)
    return [(st, z3.And(STRLEN(e) >= len(q), *[z3.Select(CHARS(e), i) == ord(x) for i, x in enumerate(q)]))]
def number(ex, st, c, v, b, f):
    """Ok(value) of a numeral: the text must be one, which the contracts require of the grammar"""
    if not isinstance(v, StrV): raise Unsupported('numeral')
    return f(zint(v.e), b)
def parse_big(ex, st, c, v, b):
    if isinstance(b, z3.ExprRef): b = simp(b)
    if not isinstance(b, int) or not is_text(v): raise Unsupported('numeral')
    ty = ex.T[c.destty]['args'][0]
    if 'BigDecimal' in tydef(ex, ty):
        e = zint(scode(v))
        if b != 10 or not ex.oblige(st, DECOK(e), 'no panic: a decimal number', c.where): return []
        return [(st, Agg(c.destty, 0, (ObjV(DECNUM(e), ty),)))]
    e = zint(scode(v))
    if not ex.oblige(st, z3.And(NUMERAL(e, b), z3.Select(CHARS(e), 0) != ord('_')), f'no panic: a numeral of base {b}, no underscore in front', c.where): return []
    return [(st, Agg(c.destty, 0, (NUMVAL(e, b),)))]
@h('num::Num::from_str_radix')
def _radix(ex, st, c): return parse_big(ex, st, c, ex.val(st, c.args[0]), c.args[1])
_fromstr0 = HANDLERS.get('std::str::FromStr::from_str')
@h('std::str::FromStr::from_str', 'core::str<impl>::parse')
def _fromstr(ex, st, c):
    ty = ex.T[c.destty]['args'][0] if ex.T[c.destty].get('args') else None
    d = tydef(ex, ty) if ty is not None else ''
    if ex.prog.crate == 'sm_ast' and ('BigInt' in d or 'BigDecimal' in d): return parse_big(ex, st, c, ex.val(st, c.args[0]), 10)
    return _fromstr0(ex, st, c) if _fromstr0 else None

TOC = z3.Function('text_of_chars', A, I, I, I)
_collect0 = HANDLERS['std::iter::Iterator::collect']
@h('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter')
def _collect_chars(ex, st, c):
    """characters into a text: the text with exactly these characters"""
    if ex.prog.crate == 'sm_ast' and not ex.concrete and c.destty is not None and adt.is_string(ex, c.destty):
        it = intr.to_it(ex, st, c.args[0])
        if it.kind == 'seq' and isinstance(it.subs[0], (SeqZ, SeqC)) and not (isinstance(it.subs[0], SeqC) and intr.is_conc(intr.it_len(ex, st, it))):
            z = it.subs[0]; lo, hi = it.ints[0], it.ints[1]
            if z.ety is not None and ex.T[ex.prog.strip_ref(z.ety)]['k'] == 'char':
                if isinstance(z, SeqC): z = intr.seq_to_z(z)
                o, n = zint(simp(zint(z.off) + zint(lo))), zint(simp(zint(hi) - zint(lo))); e = TOC(z.arr, o, n)
                st.add(z3.Implies(n >= 0, STRLEN(e) == n)); return [(st, adt.mk_text(st, e))]
    return _collect0(ex, st, c)

# ------------------------------------------------------------------ sequences put one after another
def concat(ex, st, v, w):
    if isinstance(v, SeqC) and isinstance(w, SeqC): return SeqC(tuple(v.xs) + tuple(w.xs), v.ety)
    z = []
    for q in (v, w): z.append(intr.seq_to_z(SeqC([zint(adt.code(ex, st, x)) for x in q.xs], q.ety)) if isinstance(q, SeqC) else q)
    a, b = z; r = fresh('concat', A); n, m = zint(simp(a.len)), zint(simp(b.len)); j = fresh('j')
    if isinstance(v, SeqC):
        for i, x in enumerate(v.xs): st.add(z3.Select(r, i) == zint(adt.code(ex, st, x)))
    else: st.add(FA(j, z3.Implies(z3.And(0 <= j, j < n), z3.Select(r, j) == z3.Select(a.arr, zint(simp(zint(a.off) + j)))), 'first part'))
    if isinstance(w, SeqC):
        for i, x in enumerate(w.xs): st.add(z3.Select(r, zint(simp(n + i))) == zint(adt.code(ex, st, x)))
    else:
        k = fresh('k'); st.add(FA(k, z3.Implies(z3.And(n <= k, k < n + m), z3.Select(r, k) == z3.Select(b.arr, zint(simp(zint(b.off) + k - n)))), 'second part'))
    st.add(m >= 0)
    return SeqZ(r, 0, simp(n + m), v.ety)
def on_seq(ex, v): return ex.prog.crate == 'sm_ast' and not ex.concrete and isinstance(v, (SeqC, SeqZ))
@h('std::vec::Vec::extend_from_slice', 'std::vec::Vec::append')
def _efs(ex, st, c):
    v = ex.mut_get(st, c.args[0]); w = adt.strip(ex, st, c.args[1])
    if not on_seq(ex, v) or not isinstance(w, (SeqC, SeqZ)): raise Unsupported(c.key)
    ex.mut_set(st, c.args[0], concat(ex, st, v, w))
    if c.key.endswith('append'): ex.mut_set(st, c.args[1], SeqC((), w.ety))
    return [(st, UNIT)]
@h('std::vec::Vec::insert')
def _insert(ex, st, c):
    v = ex.mut_get(st, c.args[0]); i = c.args[1]
    if not on_seq(ex, v) or not isinstance(i, int): raise Unsupported('insert')
    if isinstance(v, SeqC):
        if i > len(v.xs): ex.panic(st, 'insert beyond the end'); return []
        ex.mut_set(st, c.args[0], SeqC(v.xs[:i] + (c.args[2],) + v.xs[i:], v.ety))
    elif i == 0: ex.mut_set(st, c.args[0], concat(ex, st, SeqC((c.args[2],), v.ety), v))
    else: raise Unsupported('insert')
    return [(st, UNIT)]

def fieldless(ex, v, w):
    """a known variant of an enumeration without fields"""
    return isinstance(v, Agg) and not v.fs and isinstance(w, (Agg, ObjV)) and v.ty is not None and v.ty == w.ty and ex.T[v.ty]['k'] == 'adt' and len(ex.T[v.ty]['variants']) > 1 and not any(x['fields'] for x in ex.T[v.ty]['variants'])
for _m in ('eq', 'ne'):
    def _eq(ex, st, c, f0=HANDLERS['std::cmp::PartialEq::' + _m], ne=_m == 'ne'):
        if not (c.fn is not None and c.fn.blocks) and not ex.concrete and ex.prog.crate == 'sm_ast':
            a, b = adt.strip(ex, st, c.args[0]), adt.strip(ex, st, c.args[1])
            for v, w in ((a, b), (b, a)):
                if fieldless(ex, v, w):
                    import ast_contracts as AC
                    g = v.var == w.var if isinstance(w, Agg) else AC.is_a(ex, st, w, ex.T[v.ty]['variants'][v.var]['name'])
                    return [(st, conc(simp(z3.Not(zbool(g)))) if ne else g)]
        return f0(ex, st, c)
    HANDLERS['std::cmp::PartialEq::' + _m] = _eq
