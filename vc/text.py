"""Models (assumed contracts) of texts, formatting and the generic Option/Result plumbing used by sm_ast."""
import re
import z3
from vals import *
from uf import *
import adt, intr
from intr import h, HANDLERS, tydef, elem_ty, SOME, NONE, It, SeqZ

def text_on(ex): return ex.prog.crate == 'sm_ast'
def find_ty(ex, pred):
    for i, t in enumerate(ex.T):
        if pred(t): return i
    raise Unsupported('type not in the program')
def char_ty(ex): return find_ty(ex, lambda t: t['k'] == 'char')
def str_ref_ty(ex): return find_ty(ex, lambda t: t['k'] == 'ref' and not t.get('mut') and ex.T[t['elem']]['k'] == 'str')

# ------------------------------------------------------------------ pieces
def pieces(v):
    """a text as its list of pieces (literals as str, others as terms)"""
    if isinstance(v, str): return [v] if v else []
    out = []; e = v.e if isinstance(v, StrV) else v
    while isinstance(e, z3.ExprRef) and z3.is_app(e) and e.decl().name() == 'cat': out.append(e.arg(1)); e = e.arg(0)
    out.append(e); out.reverse()
    return [code_lit(x.as_long()) if z3.is_int_value(x) else x for x in (zint(q) for q in out)]
SEEN = []      # literal pieces the code puts between others (possible separators of a loop's invariant)
def cat(st, a, b):
    ps = []
    for p in pieces(a) + pieces(b):
        if isinstance(p, str):
            if not p: continue
            if len(p) < 5 and p not in SEEN: SEEN.append(p)
            if ps and isinstance(ps[-1], str): ps[-1] += p; continue
        ps.append(p)
    if not ps: return ''
    if len(ps) == 1: return ps[0] if isinstance(ps[0], str) else adt.mk_text(st, ps[0])
    e = zint(lit_code(ps[0])) if isinstance(ps[0], str) else ps[0]
    for p in ps[1:]: e = CAT(e, zint(lit_code(p)) if isinstance(p, str) else p)
    return adt.mk_text(st, e)
def char_text(st, c):
    if isinstance(c, int): return chr(c)
    e = STR1(zint(c)); st.add(STRLEN(e) == 1, z3.Select(CHARS(e), 0) == zint(c))
    return adt.mk_text(st, e)
def dec_text(st, n):
    if isinstance(n, int): return str(n)
    e = DEC(zint(n)); st.add(STRLEN(e) >= 1)
    return adt.mk_text(st, e)
def text_len(st, v): return len(v) if isinstance(v, str) else STRLEN(zint(v.e))

# ------------------------------------------------------------------ characters, split, join
def chars_it(ex, st, v):
    if isinstance(v, str): return It('seq', (0, len(v)), (SeqC([ord(q) for q in v]),), 'val')
    return It('seq', (0, STRLEN(zint(v.e))), (SeqZ(CHARS(zint(v.e)), 0, STRLEN(zint(v.e)), char_ty(ex)),), 'val')
@h('core::str<impl>::chars')
def _chars(ex, st, c):
    v = ex.val(st, c.args[0])
    return [(st, chars_it(ex, st, v))] if is_text(v) else None
@h('core::str<impl>::split')
def _split(ex, st, c):
    v = ex.val(st, c.args[0]); sep = ex.val(st, c.args[1])
    if isinstance(sep, int) and not isinstance(sep, bool): sep = chr(sep)
    if not is_text(v) or not isinstance(sep, str) or not sep: raise Unsupported('split')
    if isinstance(v, str): return [(st, It('seq', (0, len(v.split(sep))), (SeqC([Ref(x) for x in v.split(sep)]),), 'val'))]
    s = lit_code(sep); a, n = split_facts(st, s, v.e)
    return [(st, It('seq', (0, n), (SeqZ(a, 0, n, str_ref_ty(ex)),), 'val'))]
def split_facts(st, s, e):
    """joining the parts gives the text back; the join is unfolded once at the end"""
    s = zint(s); e = zint(e); a, n = SPLITA(s, e), SPLITN(s, e)
    st.add(n >= 1, n <= (1 << 58), JOIN(s, a, 0, n) == e)
    join_facts(st, s, a, 0, n)
    return a, n
def join_facts(st, s, a, o, n):
    last = z3.Select(a, zint(simp(zint(o) + n - 1)))
    st.add(z3.Implies(n == 1, JOIN(s, a, o, n) == z3.Select(a, zint(o))),
           z3.Implies(n >= 2, JOIN(s, a, o, n) == CAT(CAT(JOIN(s, a, o, zint(simp(n - 1))), s), last)))
@h('std::slice<impl>::join', 'std::slice<impl>::concat')
def _join(ex, st, c):
    v = ex.val(st, c.args[0]); sep = ex.val(st, c.args[1]) if len(c.args) > 1 else ''
    if not is_text(sep): raise Unsupported('join')
    if isinstance(v, SeqC):
        out = ''
        for i, x in enumerate(v.xs):
            x = adt.strip(ex, st, x)
            if not is_text(x): raise Unsupported('join')
            if i: out = cat(st, out, sep)
            out = cat(st, out, x)
        return [(st, out)]
    if not isinstance(v, SeqZ) or v.ety is None or not adt.is_string(ex, ex.prog.strip_ref(v.ety)): raise Unsupported('join')
    out = []
    z, nz = ex.branch(st, conc(simp(zint(v.len) == 0)))
    if z is not None: out.append((z, ''))
    if nz is not None:
        o, n = simp(v.off), zint(simp(v.len)); s = zint(scode(sep))
        join_facts(nz, s, v.arr, zint(o), n)
        out.append((nz, adt.mk_text(nz, JOIN(s, v.arr, zint(o), n))))
    return out
@h('core::str<impl>::char_indices', 'core::str<impl>::bytes', 'core::str<impl>::rsplit', 'core::str<impl>::splitn', 'core::str<impl>::rsplitn', 'core::str<impl>::find', 'core::str<impl>::rfind',
   'core::str<impl>::split_at', 'core::str<impl>::trim', 'core::str<impl>::starts_with', 'core::str<impl>::ends_with', 'core::str<impl>::rsplit_once', 'core::str<impl>::split_once', 'core::str<impl>::as_bytes', 'core::str<impl>::replace')
def _nostr(ex, st, c): raise Unsupported(c.key)
@h('std::string::String::new', 'std::string::String::with_capacity')
def _snew(ex, st, c): return [(st, '')]
@h('std::string::String::push_str', '@push_str')
def _pushstr(ex, st, c):
    m = c.args[0]; v = ex.mut_get(st, m); x = adt.strip(ex, st, c.args[1])
    if is_int(x) and (c.key == '@push_str'): x = char_text(st, x)
    if not (is_text(v) and is_text(x)): raise Unsupported('push_str')
    ex.mut_set(st, m, cat(st, v, x)); return [(st, UNIT)]
@h('std::string::String::push')
def _pushc(ex, st, c):
    m = c.args[0]; v = ex.mut_get(st, m)
    if not is_text(v): raise Unsupported('push')
    ex.mut_set(st, m, cat(st, v, char_text(st, c.args[1]))); return [(st, UNIT)]

# ------------------------------------------------------------------ formatting
@h('core::fmt::rt::Argument::new_display')
def _newdisp(ex, st, c):
    if not text_on(ex) or not c.targs: return [(st, Opq('fmt'))]
    return [(st, It('fmtarg', (), (c.args[0],), c.targs[0]))]
@h('std::fmt::Arguments::new')
def _argsnew(ex, st, c):
    if not text_on(ex): return [(st, Opq('fmt'))]
    t = adt.strip(ex, st, c.args[0]); a = adt.strip(ex, st, c.args[1])
    if not (isinstance(t, SeqC) and isinstance(a, SeqC) and all(isinstance(x, int) for x in t.xs)): return [(st, Opq('fmt'))]
    bs = list(t.xs); i = 0; k = 0; out = []
    while True:
        if i >= len(bs): return [(st, Opq('fmt'))]
        b = bs[i]; i += 1
        if b == 0: break
        if b == 128: n = bs[i] | bs[i+1] << 8; i += 2; out.append(bytes(bs[i:i+n]).decode()); i += n
        elif b < 128: out.append(bytes(bs[i:i+b]).decode()); i += b
        elif b == 192:
            if k >= len(a.xs): return [(st, Opq('fmt'))]
            out.append(a.xs[k]); k += 1
        else:
            # explicit position: 0b11aawwpp flags; only a plain argument index is modelled
            if b == 200 and i + 1 < len(bs):
                ix = bs[i] | bs[i+1] << 8; i += 2
                if ix >= len(a.xs): return [(st, Opq('fmt'))]
                out.append(a.xs[ix]); k = ix + 1
            else: return [(st, Opq('fmt'))]
    return [(st, It('fmt', (), tuple(out)))]
@h('std::fmt::Arguments::from_str', 'std::fmt::Arguments::new_const', 'std::fmt::Arguments::from_str_nonconst')
def _argsstr(ex, st, c):
    if not text_on(ex): return [(st, Opq('fmt'))]
    v = adt.strip(ex, st, c.args[0])
    return [(st, It('fmt', (), (v,)))] if isinstance(v, str) else [(st, Opq('fmt'))]
def display(ex, st, v, ty):
    """[(state, text)] of the Display form of a value"""
    v = adt.strip(ex, st, v); ty = ex.prog.strip_ref(ty)
    while adt.is_box(ex, ty): ty = ex.prog.strip_ref(ex.T[ty]['args'][0])
    if is_text(v): return [(st, v)]
    if ex.T[ty]['k'] == 'char': return [(st, char_text(st, v))]
    if is_int(v): return [(st, dec_text(st, v))]
    if is_bool(v):
        return ex.fork(st, [(v, 'true'), (Not(v), 'false')])
    d = adt.tdef(ex, ty); nm = d.replace('sm_ast::', '')
    fs = [f for f in ex.prog.fns.values() if f.local and f.blocks and re.search(r'<impl std::fmt::Display for (sm_ast::)?' + re.escape(nm) + r'>::fmt$', f.id)]
    if fs and d.startswith('sm_ast::'):
        m = ex.alloc(st, It('formatter', (), ('',))); out = []
        for t, r in ex.call_sync(st, FnV(fs[0].id), [Ref(v), m]):
            w = t.heap.pop(m.root[1])
            if not (isinstance(r, Agg) and r.var == 0): raise Unsupported('failing Display')
            out.append((t, w.subs[0]))
        return out
    e = F_DISP(ex, ty)(zint(adt.code(ex, st, v)))
    return [(st, adt.mk_text(st, e))]
def F_DISP(ex, ty): return z3.Function(f'display_{ty}', I, I)
def render(ex, st, a):
    a = adt.strip(ex, st, a)
    if not (isinstance(a, It) and a.kind == 'fmt'): return None
    cur = [(st, '')]
    for p in a.subs:
        nx = []
        for t, acc in cur:
            if isinstance(p, It): 
                for u, x in display(ex, t, p.subs[0], p.x): nx.append((u, cat(u, acc, x)))
            else: nx.append((t, cat(t, acc, p)))
        cur = nx
    return cur
@h('std::fmt::format', 'alloc::fmt::format')
def _format(ex, st, c):
    r = render(ex, st, c.args[0]) if text_on(ex) else None
    return r if r is not None else [(st, Opq('fmt'))]
def emit(ex, st, m, x):
    w = ex.mut_get(st, m)
    if not (isinstance(w, It) and w.kind == 'formatter'): raise Unsupported('formatter')
    ex.mut_set(st, m, It('formatter', (), (cat(st, w.subs[0], x),)))
@h('std::fmt::Formatter::write_fmt', 'std::fmt::Write::write_fmt')
def _wfmt(ex, st, c):
    if not text_on(ex): raise Unsupported(c.key)
    m = c.args[0]; r = render(ex, st, c.args[1])
    if r is None or not isinstance(m, Mut): raise Unsupported('write_fmt')
    out = []
    for t, x in r: emit(ex, t, m, x); out.append((t, Agg(c.destty, 0, (UNIT,))))
    return out
@h('std::fmt::Formatter::write_str', 'std::fmt::Write::write_str')
def _wstr(ex, st, c):
    x = adt.strip(ex, st, c.args[1])
    if not text_on(ex) or not is_text(x): raise Unsupported(c.key)
    emit(ex, st, c.args[0], x); return [(st, Agg(c.destty, 0, (UNIT,)))]
@h('std::fmt::Formatter::write_char', 'std::fmt::Write::write_char')
def _wchr(ex, st, c):
    if not text_on(ex): raise Unsupported(c.key)
    emit(ex, st, c.args[0], char_text(st, c.args[1])); return [(st, Agg(c.destty, 0, (UNIT,)))]
@h('std::fmt::Display::fmt')
def _dfmt(ex, st, c):
    """Display of a foreign value inside a local Display"""
    if not text_on(ex) or c.argtys[0] is None: return None
    out = []
    for t, x in display(ex, st, c.args[0], c.argtys[0]): emit(ex, t, c.args[1], x); out.append((t, Agg(c.destty, 0, (UNIT,))))
    return out
@h('std::hint::must_use')
def _mustuse(ex, st, c): return [(st, c.args[0])]
_tostr0 = HANDLERS['std::string::ToString::to_string']
@h('std::string::ToString::to_string')
def _tostring(ex, st, c):
    if text_on(ex) and c.argtys[0] is not None: return display(ex, st, c.args[0], c.argtys[0])
    return _tostr0(ex, st, c)

# ------------------------------------------------------------------ Option / Result plumbing without a body
def ores(ex, v):
    if not (isinstance(v, Agg) and v.ty is not None): return None
    d = tydef(ex, v.ty)
    return 'o' if d.endswith('option::Option') else 'r' if d.endswith('result::Result') else None
def nobody(f):
    def g(ex, st, c):
        if c.fn is not None and c.fn.blocks: return None
        return f(ex, st, c)
    return g
@h('std::option::Option::unwrap', 'std::option::Option::expect', 'std::result::Result::unwrap', 'std::result::Result::expect')
@nobody
def _unwrap(ex, st, c):
    v = c.args[0]; k = ores(ex, v)
    if k is None: raise Unsupported(c.key)
    if v.var == (1 if k == 'o' else 0): return [(st, v.fs[0])]
    ex.panic(st, c.key.split('::')[-1]); return []
@h('std::ops::FromResidual::from_residual')
@nobody
def _resid(ex, st, c):
    v = c.args[0]; k = ores(ex, v)
    if k == 'o': return [(st, NONE(c.destty))]
    if k != 'r' or v.var != 1: raise Unsupported(c.key)
    t0, t1 = ex.T[v.ty]['args'][1], ex.T[c.destty]['args'][1]
    if t0 == t1: return [(st, Agg(c.destty, 1, v.fs))]
    if getattr(ex, 'converts', False): return [(st, Agg(c.destty, 1, (ObjV(z3.Function(f'converted_{t1}', I, I)(zint(adt.code(ex, st, v.fs[0]))), t1),)))]     # some error
    raise Unsupported('error conversion without a body')
@h('std::ops::Try::branch')
@nobody
def _branch(ex, st, c):
    v = c.args[0]; k = ores(ex, v)
    if k is None: raise Unsupported(c.key)
    good = v.var == (1 if k == 'o' else 0)
    if good: return [(st, Agg(c.destty, 0, v.fs))]
    rt = ex.T[c.destty]['args'][0]
    return [(st, Agg(c.destty, 1, (Agg(rt, v.var, v.fs),)))]
@h('std::default::Default::default')
def _default(ex, st, c):
    ty = c.destty
    if ty is None or (c.fn is not None and c.fn.local): return None
    if ex.scalar(ty): return [(st, 0)]
    if ex.T[ty]['k'] == 'bool': return [(st, False)]
    if adt.is_string(ex, ty): return [(st, '')]
    if adt.is_vec(ex, ty): return [(st, SeqC((), elem_ty(ex, ty)))]
    if adt.is_map(ex, ty): return [(st, MapC({}, elem_ty(ex, ty), elem_ty(ex, ty, 1)))]
    if tydef(ex, ty).startswith('std::collections'): return [(st, ObjV(z3.Int(f'empty_{ty}'), ty))]
    return None

# ------------------------------------------------------------------ the algorithms (verified under C08, C10, C11 and C12; here: some function of the argument)
def alg(nm):
    ok = z3.Function(f'algok_{nm}', I, B); val = z3.Function(f'algv_{nm}', I, I); err = z3.Function(f'alge_{nm}', I, I)
    return ok, val, err
def _alg(nm):
    def f(ex, st, c):
        if c.fn is not None and c.fn.blocks: return None
        n = ex.val(st, c.args[0])
        if not is_int(n): return None
        ok, val, err = alg(nm); ety = ex.T[c.destty]['args'][1]; out = []
        a, b = ex.branch(st, ok(zint(n)))
        if a is not None: out.append((a, Agg(c.destty, 0, (val(zint(n)),))))
        if b is not None: out.append((b, Agg(c.destty, 1, (ObjV(err(zint(n)), ety),))))
        return out
    return f
for _n in ('factorial_i', 'fibonacci_i', 'prime_sum_i', 'prime_count_i'): HANDLERS[f'sm_algorithm::{_n}'] = _alg(_n)

# ------------------------------------------------------------------ exports (assumed contracts of wolfram_wxf and text_utils)
def vnum(ex, ty, nm):
    for i, v in enumerate(ex.T[ty]['variants']):
        if v['name'] == nm: return i
    raise Unsupported(f'no variant {nm}')
@h('wolfram_wxf::WolframValue::symbol')
def _wsymbol(ex, st, c):
    v = adt.strip(ex, st, c.args[0])
    if not is_text(v): raise Unsupported('symbol')
    return [(st, adt.coded(ex, st, Agg(c.destty, vnum(ex, c.destty, 'Symbol'), (BoxV(v),))))]
@h('wolfram_wxf::WolframValue::function')
def _wfunction(ex, st, c):
    """a call of a symbol, with the exports of the arguments"""
    hd = adt.strip(ex, st, c.args[0]); a = adt.strip(ex, st, c.args[1]); ty = c.destty
    if not is_text(hd) or not isinstance(a, (SeqC, SeqZ)): raise Unsupported('function')
    hd = adt.coded(ex, st, Agg(ty, vnum(ex, ty, 'Symbol'), (BoxV(hd),)))
    ety = elem_ty(ex, c.argtys[1]) if c.argtys[1] is not None else a.ety
    if ety != ty:
        import ast_contracts as AC
        if ety != AC.T_AST(ex): raise Unsupported('arguments of function')
        a = AC.exported_seq(ex, st, a, ty)
    return [(st, adt.coded(ex, st, Agg(ty, vnum(ex, ty, 'Function'), (BoxV(hd), a))))]
@h('text_utils::capitalize_first_letter')
def _capfirst(ex, st, c):
    v = adt.strip(ex, st, c.args[0])
    if not is_text(v): raise Unsupported('capitalize_first_letter')
    return [(st, adt.mk_text(st, CAPF(zint(scode(v)))))]
