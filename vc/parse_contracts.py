"""The contracts of the tree builder of sm-ast (projects/sm-ast/src/parser/parse.rs): C25."""
import z3
from vals import *
from uf import *
from exec import State, short
import adt, text, theory, pairs, intr
from intr import h, It
from pairs import PRULE, PTEXT, PKIDS, PKIDN, NUMERAL, NUMVAL, DECOK, DECNUM, SUBT, EDGE
import ast_contracts as AC
from ast_contracts import Ast, is_a, part, length, text_is, item, T_AST

PATH = r'parser::parse::<impl .*ParserSettings>::%s$'
def rule(ex, st, p, *nms): return is_a(ex, st, ObjV(PRULE(zint(p)), pairs.rule_ty(ex)), *nms)
def kid(p, i): return z3.Select(PKIDS(zint(p)), zint(simp(i)))
class Build(Ast):
    """a function (settings, node): the children of the node are of one of the given shapes (None: any number)"""
    def __init__(s, nm, post, pre=None, shapes=(None,), theories=(theory.texts,), apply=None, params=('self', 'pairs')):
        Ast.__init__(s, nm, PATH % nm, list(params), post, pre, theories, apply); s.shapes = shapes
    def verify(s, ex):
        fn = s.lookup(ex.prog)
        if fn is None: raise Unsupported(f'function {s.fname} not found')
        if fn.argc != len(s.params): raise Unsupported(f'signature of {s.fname} changed')
        sts = []; s.cases = []; s.entry_facts = None; ex.env = {}; s.outs = []
        for th in s.theories: th.env = {}
        pairs.SHAPE.clear(); ex.verifying_entry = fn.id; n = 0
        for k, sh in enumerate(s.shapes):
            st = State(); args, env = s.begin(ex, st, fn); p = env[s.params[-1]]
            if isinstance(p, ObjV) and len(s.shapes) > 1:
                q = z3.Int(f'{s.params[-1]}_{k}'); v = ObjV(q, p.ty); env[s.params[-1]] = v; args[-1] = v
            if sh is not None:
                e = env[s.params[-1]].e; pairs.SHAPE[e.get_id()] = (e, len(sh))
                st.add(PKIDN(e) == len(sh))
                for i, r in enumerate(sh):
                    if r: st.add(zbool(rule(ex, st, kid(e, i), *r.split('|'))))
            env['shape'] = sh
            for nm, g in s.pre(ex, st, env): st.add(g)
            if s.entry_facts is None: s.entry_facts = list(st.facts)
            ex.pins = [a for a in args if isinstance(a, Mut)]
            s.start(ex, fn, args, env)
            ex.push(st, fn, args, None, None)
            for t in ex.explore([st], 1, None):
                s.outs.append(t); n += 1
                for q in s.post(ex, t, t.ret, env): ex.oblige_post(q[2] if len(q) > 2 else t, q[1], q[0], s.fname)
        ex.verifying_entry = None
        return n
    def start(s, ex, fn, args, env): pass
def P(e): return zint(e['pairs'].e)
def txt(e): return PTEXT(P(e))
def integer(what, val):
    def post(ex, t, r, e):
        g = is_a(ex, t, r, 'Integer')
        return [(f'{what}: an integer', g)] + ([(f'{what}: its value', conc(simp(zint(part(ex, t, r, 'Integer')) == val(e))))] if g is not False else [])
    return post
def call_of(ex, t, r, ns, nm):
    """goals: r is a call of ns::nm with one argument list without options; and its arguments"""
    g = is_a(ex, t, r, 'Function'); out = [('a call', g)]
    if g is False: return out, None
    s = part(ex, t, r, 'Function', 0); ps = part(ex, t, r, 'Function', 1)
    out.append((f'of {nm}', And(text_is(part(ex, t, s, None, 'name'), nm), names(ex, t, part(ex, t, s, None, 'name_space'), ns))))
    one = conc(simp(zint(length(ps)) == 1)); out.append(('one argument list', one))
    if one is False: return out, None
    p0 = item(ex, t, ps, 0); out.append(('no options', no_options(ex, t, part(ex, t, p0, None, 'options'))))
    return out, part(ex, t, p0, None, 'arguments')
def names(ex, t, v, ns):
    return And(conc(simp(zint(length(v)) == len(ns))), *([text_is(item(ex, t, v, i), x) for i, x in enumerate(ns)] if length(v) == len(ns) else []))
def no_options(ex, t, m):
    m = adt.strip(ex, t, m)
    if isinstance(m, MapC): return not m.d
    if isinstance(m, ObjV): return True if z3.is_const(m.e) and str(m.e).startswith('empty_') else conc(simp(z3.Or(adt.OBJLEN(zint(m.e)) == 0, *([zint(m.e) == zint(adt.code(ex, t, MapC({}, *ex.T[m.ty]['args'][:2])))] if len(ex.T[m.ty].get('args') or ()) >= 2 else []))))
    raise Unsupported('options')
# ------------------------------------------------------------------ C25: literals
def num_pre(ex, st, e): return [('a numeral', And(NUMERAL(txt(e), 10), z3.Select(pairs.CHARS(txt(e)), 0) != ord('_')))]
parse_integer = Build('parse_integer', integer('decimal digits', lambda e: NUMVAL(txt(e), 10)), num_pre)
BASES = (('x', 16), ('X', 16), ('o', 8), ('O', 8), ('b', 2), ('B', 2))
def byte_pre(ex, st, e):
    x = txt(e); c = z3.Select(CHARS(x), 1); d = SUBT(x, 2, UTF8LEN(x))
    return [('0 and a letter for the base', And(STRLEN(x) >= 3, UTF8LEN(x) >= 3, z3.Select(CHARS(x), 0) == ord('0'), EDGE(x, 1), EDGE(x, 2), Or(*[c == ord(l) for l, b in BASES]))),
            ('digits of that base', And(*[z3.Implies(c == ord(l), NUMERAL(d, b)) for l, b in BASES]))]
def byte_val(e):
    x = txt(e); c = z3.Select(CHARS(x), 1); d = SUBT(x, 2, UTF8LEN(x)); r = NUMVAL(d, 16)
    for l, b in BASES: r = z3.If(c == ord(l), NUMVAL(d, b), r)
    return r
parse_byte = Build('parse_byte', integer('digits of a given base', byte_val), byte_pre)
def dec_post(ex, t, r, e):
    g = is_a(ex, t, r, 'Decimal')
    return [('a decimal', g)] + ([('its value', conc(simp(zint(adt.code(ex, t, part(ex, t, r, 'Decimal'))) == DECNUM(txt(e)))))] if g is not False else [])
parse_decimal = Build('parse_decimal', dec_post, lambda ex, st, e: [('a decimal', DECOK(txt(e)))])
def special_post(ex, t, r, e):
    x = adt.mk_text(t, txt(e)); b = is_a(ex, t, r, 'Boolean'); tf = text_is(x, 'true', 'false')
    out = [('true and false are booleans', Implies(tf, b))]
    if b is not False: out.append(('their values', Implies(tf, conc(simp(zbool(part(ex, t, r, 'Boolean')) == zbool(text_is(x, 'true')))))))
    out.append(('null is a name', Implies(text_is(x, 'null'), is_a(ex, t, r, 'Symbol'))))
    return out
def special_pre(ex, st, e):
    for l in ('null', 'true', 'false'):
        c = zint(lit_code(l)); st.add(UTF8LEN(c) == len(l), STRLEN(c) == len(l), *[z3.Select(CHARS(c), i) == ord(q) for i, q in enumerate(l)])
    return [('a special value', text_is(adt.mk_text(st, txt(e)), 'null', 'true', 'false'))]
parse_special = Build('parse_special', special_post, special_pre)
def quoted(x): return And(UTF8LEN(x) >= 2, EDGE(x, 1), EDGE(x, zint(simp(UTF8LEN(x) - 1))))
class Roles(theory.Theory):
    """children with a role of their own, each at its (unknown) place among children that have none"""
    name = 'roles'; ex = None
    def __init__(s): s.at = []
    def setup(s, ex, at): s.ex = ex; s.at = at          # at: (node, place, image of the child there, type of the variable)
    def candidates(s, ctx):
        import exec as X
        out = []; ex = ctx.ex
        for n, (q, pos, img, kind) in enumerate(s.at):
            for r in ctx.ints:
                if r.kind in 'mcu' and r.hav: out.append(X.Cand(f'role {n} not met by {r!r}', lambda vw, g=r.get, pos=pos: None if not is_int(g(vw)) else z3.Not(z3.And(pos >= 0, pos < zint(g(vw))))))
        entry = ctx.loop.shapes[0].entry
        if not s.at or entry is None: return out
        cnt = [(repr(r), r.get) for r in ctx.ints if r.kind in 'mcu' and r.hav]; seen = set()
        for r, val in ctx.shape.head.items():
            for p_, x_, ty in ctx.loop.walk(val, ex.root_ty(ctx.loop.st0, r) if r[0] == 'L' else None):
                if not (isinstance(x_, (ObjV, StrV)) or is_bool(x_)) or not any(rr == r and pp[:len(p_)] == p_ for rr, pp in ctx.shape.hav) and not (is_bool(x_) and any(q_[3] == 'flag' for q_ in s.at)): continue
                def get(vw, r=r, p_=p_):
                    q = vw.get(r)
                    for i_ in p_:
                        if not isinstance(q, Node) or i_ >= len(q.kids()): return None
                        q = q.kids()[i_]
                    if is_bool(q): return zbool(q)
                    c = q.e if isinstance(q, ObjV) else scode(q) if is_text(q) else None
                    return None if c is None else zint(c)
                e0 = get(entry)        # None: a variable of an enum, in another variant before the loop
                for n, (q, pos, img, kind) in enumerate(s.at):
                    if kind != ('text' if isinstance(x_, StrV) else 'tree' if isinstance(x_, ObjV) else 'flag'): continue
                    for nm, g in cnt:
                        def f(vw, get=get, g=g, pos=pos, img=img, e0=e0): return None if get(vw) is None or not is_int(g(vw)) else z3.And(pos >= 0, pos < zint(g(vw)), get(vw) == img) if e0 is None else get(vw) == z3.If(z3.And(pos >= 0, pos < zint(g(vw))), img, e0)
                        out.append(X.Cand(f'role {n} after {nm} children {r[-1]}{p_}', f))
        return out
class Placed(Build):
    """any number of children, those that matter at places of their own"""
    def __init__(s, nm, post, pre, at, apply=None): Build.__init__(s, nm, post, pre, (None,), (roles, theory.texts), apply); s.at = at
    def start(s, ex, fn, args, env): roles.setup(ex, s.at(env))
    def verify(s, ex):
        f = ast_symbol.lookup(ex.prog)
        if f is not None: ex.contracts = dict(ex.contracts or {}); ex.contracts[short(f.id)] = ast_symbol
        more = {'sm_ast::ast::AST', 'sm_ast::ast::Position'}; adt.CODED.update(more)
        try: return Build.verify(s, ex)
        finally: adt.CODED.difference_update(more)
roles = Roles()
def only_at(ex, p, allowed, at, lo=0):
    """every child has an allowed rule, and each of these rules occurs at its place only (at: rule -> place)"""
    k = fresh('k'); n = PKIDN(p); u = State(); g = zbool(rule(ex, u, kid(p, k), *allowed)); h = [zbool(rule(ex, u, kid(p, k), r)) == (k == pos) for r, pos in at.items()]
    fs = [f for f in u.facts if not isinstance(f, FA)]
    return [('children', And(n >= 0, n <= (1 << 58))), ('which children, and where', FA(k, z3.Implies(z3.And(lo <= k, k < n), z3.And(g, *h, *fs)), 'roles'))]
BLOCKPOS = z3.Int('place_of_the_text')
def string_pre(ex, st, e):
    out = []; p = P(e); roles.setup(ex, [])
    for i, r in enumerate(e['shape']):
        q = kid(p, i)
        if r == 'StringNormal': out.append(('between quotes', quoted(PTEXT(q))))
        if r == 'StringBlock':
            out += only_at(ex, q, ('Quotation', 'StringText'), {'StringText': BLOCKPOS}) + [('a text between quotes', And(BLOCKPOS >= 0, BLOCKPOS < PKIDN(q)))]
            roles.setup(ex, [(q, BLOCKPOS, PTEXT(kid(q, BLOCKPOS)), 'text')])
    return out
def string_post(ex, t, r, e):
    g = is_a(ex, t, r, 'String'); out = [('a text', g)]
    if g is False: return out
    k = len(e['shape']) - 1; q = kid(P(e), k); x = PTEXT(q); v = zint(scode(part(ex, t, r, 'String')))
    if e['shape'][k] == 'StringNormal': return out + [('exactly what is between the quotes', conc(simp(v == SUBT(x, 1, zint(simp(UTF8LEN(x) - 1))))))]
    return out + [('exactly the text of the block', conc(simp(v == PTEXT(kid(q, BLOCKPOS)))))]
parse_string = Build('parse_string', string_post, string_pre, (('StringNormal',), ('SYMBOL', 'StringNormal'), ('StringBlock',), ('SYMBOL', 'StringBlock')), (roles, theory.texts))
def slot_pre(ex, st, e):
    x = txt(e); out = [('a sharp', And(STRLEN(x) >= 1, z3.Select(CHARS(x), 0) == ord('#')))]
    two = And(STRLEN(x) >= 2, z3.Select(CHARS(x), 1) == ord('#'))
    for i, r in enumerate(e['shape']):
        if r in ('Integer', 'Positive'): q = PTEXT(kid(P(e), i)); out.append(('digits', And(NUMERAL(q, 10), z3.Select(CHARS(q), 0) != ord('_'))))
        if r in ('Integer', 'SYMBOL'): out.append(('one sharp', Not(two)))
        if r == 'Positive': out.append(('two sharps', two))
    return out
def slot_post(ex, t, r, e):
    x = txt(e); two = And(STRLEN(x) >= 2, z3.Select(CHARS(x), 1) == ord('#')); g = is_a(ex, t, r, 'Function'); out = [('a call', g)]
    if g is False: return out
    s = part(ex, t, r, 'Function', 0); ps = part(ex, t, r, 'Function', 1)
    out.append(('slot or slot_sequence', And(text_is(part(ex, t, s, None, 'name'), 'slot', 'slot_sequence'), zbool(text_is(part(ex, t, s, None, 'name'), 'slot_sequence')) == zbool(two), names(ex, t, part(ex, t, s, None, 'name_space'), ('std', 'core')))))
    one = conc(simp(zint(length(ps)) == 1)); out.append(('one argument list', one))
    if one is False: return out
    p0 = item(ex, t, ps, 0); out.append(('no options', no_options(ex, t, part(ex, t, p0, None, 'options')))); args = part(ex, t, p0, None, 'arguments')
    n = conc(simp(zint(length(args)) == len(e['shape']))); out.append(('what follows the sharps', n))
    if n is True and e['shape']:
        a = item(ex, t, args, 0); q = PTEXT(kid(P(e), 0)); k = 'String' if e['shape'][0] == 'SYMBOL' else 'Integer'; g = is_a(ex, t, a, k); out.append((f'its kind ({k})', g))
        if g is not False: out.append(('its value', conc(simp(zint(scode(part(ex, t, a, 'String'))) == q)) if k == 'String' else conc(simp(zint(part(ex, t, a, 'Integer')) == NUMVAL(q, 10)))))
    return out
parse_slot = Build('parse_slot', slot_post, slot_pre, ((), ('Integer',), ('SYMBOL',), ('Positive',)))

# inputs and outputs of a session: a run of signs counts from the end, a sign with a number from the start
TAIL = z3.Function('after_the_sign', I, I); NUMBERED = z3.Function('numbered', I, B); TOC = pairs.TOC; SIGNS = {'input': 0xB6, 'output': 0x204B}
class InOut(theory.Theory):
    """the characters of a sign with its number, or of a run of signs"""
    name = 'in_out'; x = None
    def lemmas(s, A_, facts, goal):
        if s.x is None: return
        d = TAIL(s.x)
        for a, o, n in theory.args_of(A_, 'text_of_chars'):
            w = z3.Function('differs_at', A, I, I, I)(a, o, n)          # texts with the same characters are the same text
            yield 'same_text', z3.Implies(z3.And(n == STRLEN(d), z3.Implies(z3.And(0 <= w, w < n), z3.Select(a, zint(simp(o + w))) == z3.Select(CHARS(d), w))), TOC(a, o, n) == d)
    def candidates(s, ctx):
        import exec as X
        out = []
        if s.x is None: return out
        x = s.x; m = z3.Select(CHARS(x), 0); nb = NUMBERED(x); cnt = [(repr(r), r.get) for r in ctx.ints if r.kind in 'mcu' and r.hav]
        for nm, g in cnt:
            sizes = (('signs', lambda k: z3.If(nb, z3.If(k >= 1, 1, 0), k)), ('digits', lambda k: z3.If(nb, z3.If(k >= 1, k - 1, 0), 0)))
            for what, size in sizes:
                for q in ctx.seqs:
                    if q.hav: out.append(X.Cand(f'{what} among the first {nm} {q!r}', lambda vw, q=q, g=g, size=size: None if not is_int(g(vw)) else conc(simp(zint(length(q.get(vw))) == size(zint(g(vw)))))))
                for r in ctx.ints:
                    if r.hav and r.kind in 'mc' and repr(r) != nm: out.append(X.Cand(f'{what} counted {nm} {r!r}', lambda vw, r=r, g=g, size=size: None if not is_int(g(vw)) or not is_int(r.get(vw)) else zint(r.get(vw)) == size(zint(g(vw)))))
        for q in ctx.seqs:
            z = q.get(ctx.shape.head)
            if not q.hav or not isinstance(z, SeqZ): continue
            for what, img in (('the sign', lambda j: m), ('the digits', lambda j: z3.Select(CHARS(x), zint(simp(j + 1)))), ('the text', lambda j: z3.Select(CHARS(x), j))):
                def f(vw, q=q, img=img):
                    z = q.get(vw); z = seq_to_z(z) if isinstance(z, SeqC) else z; j = fresh('j')
                    return FA(j, z3.Implies(z3.And(0 <= j, j < zint(z.len)), z3.Select(z.arr, zint(simp(zint(z.off) + j))) == img(j)), 'characters')
                out.append(X.Cand(f'{what} {q!r}', f))
        return out
in_out = InOut()
class Session(Build):
    def start(s, ex, fn, args, env): in_out.x = txt(env)
def io_pre(ex, st, e):
    x = txt(e); d = TAIL(x); nb = NUMBERED(x); m = z3.Select(CHARS(x), 0); j = fresh('j'); c = lambda k: z3.Select(CHARS(x), k)
    return [('a sign first', And(STRLEN(x) >= 1, STRLEN(x) <= (1 << 58), Or(*[m == q for q in SIGNS.values()]))), ('signs only, or a numeral', z3.If(nb, z3.And(STRLEN(x) == 1 + STRLEN(d), STRLEN(d) >= 1, NUMERAL(d, 10), z3.Select(CHARS(d), 0) != ord('_')), STRLEN(d) == 0)),
            ('its characters', FA(j, z3.Implies(z3.And(0 <= j, j < STRLEN(x)), z3.If(z3.And(nb, j >= 1), z3.And(c(j) == z3.Select(CHARS(d), zint(simp(j - 1))), c(j) >= 48, c(j) <= 57), c(j) == m)), 'signs')),
            ('the numeral', FA(j, z3.Implies(z3.And(nb, 0 <= j, j < STRLEN(d)), z3.Select(CHARS(d), j) == c(zint(simp(j + 1)))), 'numeral'))]
def io_post(ex, t, r, e):
    x = txt(e); m = z3.Select(CHARS(x), 0); g = is_a(ex, t, r, 'Function'); out = [('a call', g)]
    if g is False: return out
    s = part(ex, t, r, 'Function', 0); ps = part(ex, t, r, 'Function', 1); nm = part(ex, t, s, None, 'name')
    out.append(('input or output', And(names(ex, t, part(ex, t, s, None, 'name_space'), ('std', 'repl')), *[Implies(m == q, text_is(nm, k)) for k, q in SIGNS.items()])))
    one = conc(simp(zint(length(ps)) == 1)); out.append(('one argument list', one))
    if one is False: return out
    p0 = item(ex, t, ps, 0); out.append(('no options', no_options(ex, t, part(ex, t, p0, None, 'options')))); args = part(ex, t, p0, None, 'arguments')
    n = conc(simp(zint(length(args)) == 1)); out.append(('one argument', n))
    if n is False: return out
    a = item(ex, t, args, 0); g = is_a(ex, t, a, 'Integer'); out.append(('a number', g))
    if g is not False: out.append(('which input or output', conc(simp(zint(part(ex, t, a, 'Integer')) == z3.If(NUMBERED(x), NUMVAL(TAIL(x), 10), -STRLEN(x))))))
    return out
parse_in_out = Session('parse_in_out', io_post, io_pre, ((),), (in_out, theory.texts))

# ------------------------------------------------------------------ C26: elements in order
NOTE = 'MultiLineComment'
def T_ast_symbol(ex, st, v): st.add(zbool(is_a(ex, st, v, 'Symbol')))
class Callee(Ast):
    def __init__(s, c, app): Ast.__init__(s, c.fname, c.rx, c.params, None, None, (), app)
NAMET = z3.Function('name_of', I, I)
def name_apply(ex, st, args):
    v = adt.strip(ex, st, args[0])
    if not is_text(v): raise Unsupported('name')
    w = tree(ex, NAMET(zint(scode(v)))); T_ast_symbol(ex, st, w); return [(st, w)]
ast_symbol = Callee(Ast('symbol', r'<impl sm_ast::ast::AST>::symbol(::<&str>)?$', ['name'], None), name_apply)
TREE = z3.Function('tree_of', I, I); INDEX = z3.Function('index_of', I, I); LISTC = z3.Function('arguments_of', I, I)     # node -> what the builder makes of it
KEYT = z3.Function('option_name', I, I); VALT = z3.Function('option_value', I, I)
CNT = z3.Function('kept_before', I, I, I); NTH = z3.Function('kept', I, I, I)      # how many of the first k children are elements; the j-th of them
OPTD = z3.Function('option_names', I, I, AB); OPTV = z3.Function('option_values', I, I, A)
NAMED = lambda ex, st, q: rule(ex, st, kid(q, 0), 'SYMBOL')
def pos_of(ex, st, e): pass
class Building(theory.Theory):
    """the elements among the children of a node, in order"""
    name = 'building'; p = None; keep = None; image = None; opts = None; ex = None; ety = None; dense = None
    def setup(s, ex, p, keep, image, ety, opts=False): s.ex = ex; s.p = p; s.keep = keep; s.image = image; s.ety = ety; s.opts = opts
    def lemmas(s, A_, facts, goal):
        if s.p is None: return
        st = State(); ex = s.ex
        def out(nm, g):
            fs = [f for f in st.facts if not isinstance(f, FA)]; st.facts.clear()
            return nm, z3.And(g, *fs)
        for q, k in theory.args_of(A_, 'kept_before'):
            if not q.eq(s.p): continue
            j = zint(simp(k - 1)); c = kid(s.p, j)
            yield out('kept_before_0', z3.Implies(k == 0, CNT(s.p, k) == 0))
            yield out('kept_before_bounds', z3.Implies(k >= 0, z3.And(CNT(s.p, k) >= 0, CNT(s.p, k) <= k)))
            g = zbool(s.keep(ex, st, c))
            yield out('kept_before_step', z3.Implies(k >= 1, CNT(s.p, k) == CNT(s.p, j) + z3.If(g, 1, 0)))
            h = kid(s.p, k)
            if s.dense is not None:     # every child from the dense-th on is an element, none before (a precondition): by induction on k
                d = s.dense; yield out('kept_dense', z3.And(z3.Implies(z3.And(k >= d, k <= PKIDN(s.p)), CNT(s.p, k) == k - d), z3.Implies(z3.And(k >= d, k < PKIDN(s.p)), NTH(s.p, zint(simp(k - d))) == h)))
            yield out('kept_here', z3.Implies(z3.And(k >= 0, zbool(s.keep(ex, st, h))), NTH(s.p, CNT(s.p, k)) == h))
        if s.dense is not None:
            for q, j in theory.args_of(A_, 'kept'):
                if q.eq(s.p): yield out('kept_dense_at', z3.Implies(z3.And(j >= 0, j + s.dense < PKIDN(s.p)), NTH(s.p, j) == kid(s.p, j + s.dense)))
        if s.opts:
            for q, k in theory.args_of(A_, 'option_names'):
                if not q.eq(s.p): continue
                j = zint(simp(k - 1)); c = kid(s.p, j); g = z3.And(zbool(rule(ex, st, c, 'apply_kv')), zbool(NAMED(ex, st, c)))
                for f, z, x in ((OPTD, z3.K(I, False), True), (OPTV, None, VALT(c))):
                    if z is not None: yield out('options_0', z3.Implies(k == 0, f(s.p, k) == z))
                    yield out('options_step', z3.Implies(k >= 1, f(s.p, k) == z3.If(g, z3.Store(f(s.p, j), KEYT(c), x), f(s.p, j))))
    def candidates(s, ctx):
        import exec as X
        out = []
        if s.p is None: return out
        p = s.p; img = s.image; cnt = [(repr(r), r.get) for r in ctx.ints if r.kind in 'mcu' and r.hav]
        for q in ctx.seqs:
            z = q.get(ctx.shape.head)
            if not q.hav or z.ety != s.ety: continue
            def f(vw, q=q):
                z = q.get(vw); z = seq_to_z(z) if isinstance(z, SeqC) else z; j = fresh('j')
                return FA(j, z3.Implies(z3.And(0 <= j, j < zint(z.len)), z3.Select(z.arr, zint(simp(zint(z.off) + j))) == img(NTH(p, j))), 'elements')
            out.append(X.Cand(f'elements {q!r}', f))
            for nm, g in cnt: out.append(X.Cand(f'as many elements as among the first {nm} children {q!r}', lambda vw, q=q, g=g: conc(simp(zint(length(q.get(vw))) == CNT(p, zint(g(vw)))))))
        if s.opts:
            for q in ctx.maps:
                if not q.hav: continue
                for nm, g in cnt:
                    def f(vw, q=q, g=g):
                        z = q.get(vw); z = map_to_z(z) if isinstance(z, MapC) else z
                        return z.dom == OPTD(p, zint(g(vw)))
                    def f2(vw, q=q, g=g):
                        z = q.get(vw); z = map_to_z(z) if isinstance(z, MapC) else z; k = fresh('k')
                        return FA(k, z3.Implies(z3.Select(OPTD(p, zint(g(vw))), k), z3.Select(z.val, k) == z3.Select(OPTV(p, zint(g(vw))), k)), 'options')
                    out += [X.Cand(f'option names {q!r} {nm}', f), X.Cand(f'option values {q!r} {nm}', f2)]
        return out
building = Building()
def tree(ex, e): return ObjV(e, T_AST(ex))
def made(fun, ty=T_AST):
    """contract at call sites: some function of the settings (fixed here) and the node"""
    def app(ex, st, args):
        p = pairs.node(ex, st, args[1]); return [(st, ObjV(fun(zint(p.e)), ty(ex)))]
    return app
def T_param(ex): return AC.ty_of(ex, 'sm_ast::ast::Parameter')
parse_expr = Build('parse_expr', None, apply=made(TREE))
class Elements(Build):
    def __init__(s, nm, post, keep, image, ety=T_AST, only=None, opts=False, apply=None, pre=None):
        Build.__init__(s, nm, post, lambda ex, st, e: s.kinds(ex, st, e) + (pre(ex, st, e) if pre else []), (None,), (building, theory.texts), apply); s.keep = keep; s.image = image; s.et = ety; s.only = only; s.opts = opts; s.dense = {'parse_apply_call': 1, 'parse_space_call': 0}.get(nm)
    def start(s, ex, fn, args, env): building.setup(ex, P(env), s.keep, s.image, s.et(ex), s.opts); building.dense = s.dense
    def kinds(s, ex, st, e):
        k = fresh('k'); u = State(); g = zbool(rule(ex, u, kid(P(e), k), *s.only)); lo = 1 if s.fname == 'parse_apply_call' else 0; n = PKIDN(P(e)); fs = [f for f in u.facts if not isinstance(f, FA)]
        return [('children', And(n >= 0, n <= (1 << 58))), ('only elements and separators among the children', FA(k, z3.Implies(z3.And(lo <= k, k < n), z3.And(g, *fs)), 'kinds'))]
def in_order(ex, t, v, e, img):
    p = P(e); n = PKIDN(p); k = fresh('k'); u = t.copy(); u.add(k >= 0, k < CNT(p, n)); z = seq_to_z(v) if isinstance(v, SeqC) and all(scode(adt.strip(ex, t, x)) is not None for x in v.xs) else v
    if not isinstance(z, SeqZ): z = SeqC([zint(adt.code(ex, t, x)) for x in v.xs], v.ety); z = seq_to_z(z)
    return [('every element, once', conc(simp(zint(length(v)) == CNT(p, n)))), ('in the written order', z3.Select(z.arr, zint(simp(zint(z.off) + k))) == img(NTH(p, k)), u)]
def list_post(ex, t, r, e):
    out, args = call_of(ex, t, r, ('std', 'containers'), 'List')
    return out + (in_order(ex, t, args, e, TREE) if args is not None else [])
is_rule = lambda *nms: lambda ex, st, q: rule(ex, st, q, *nms)
parse_list = Elements('parse_list', list_post, is_rule('expr'), TREE, only=('expr', 'Comma', NOTE))
def slice_apply(ex, st, args):
    fn = parse_slice.lookup(ex.prog); p = zint(pairs.node(ex, st, args[1]).e)
    return [(st, adt.mk_seq(st, z3.Function('slice_of', I, I)(p), T_AST(ex)))]
parse_slice = Elements('parse_slice', lambda ex, t, r, e: in_order(ex, t, r, e, INDEX), is_rule('index'), INDEX, only=('index', 'Comma', NOTE), apply=slice_apply)
# indices: an expression, or start : end : step with the missing ones replaced; block comments anywhere between
SET = {r: z3.Int(f'place_of_{r}') for r in ('Start', 'End', 'Step', 'expr', 'SYMBOL', 'eos')}     # -1: not there
def there(r): return SET[r] >= 0
def places(p, *rs): return [(f'where {r} is', And(SET[r] >= -1, SET[r] < PKIDN(p))) for r in rs]
def part_of(p, r): return TREE(kid(kid(p, SET[r]), 0))
def index_pre(ex, st, e):
    p = P(e); k = fresh('k'); u = State(); q = kid(p, k); g = z3.Implies(zbool(rule(ex, u, q, 'Start', 'End', 'Step')), z3.And(PKIDN(q) >= 1, zbool(rule(ex, u, kid(q, 0), 'expr')))); fs = [f for f in u.facts if not isinstance(f, FA)]
    rs = ('Start', 'End', 'Step', 'expr')
    return only_at(ex, p, rs + ('Colon', NOTE), {r: SET[r] for r in rs}) + places(p, *rs) + [('an expression, or a span', z3.Implies(there('expr'), z3.Not(z3.Or(*map(there, rs[:3]))))), ('the parts hold expressions', FA(k, z3.Implies(z3.And(0 <= k, k < PKIDN(p)), z3.And(g, *fs)), 'parts'))]
def index_post(ex, t, r, e):
    p = P(e); c = zint(adt.code(ex, t, r)); out = [('an expression is the index itself', z3.Implies(there('expr'), c == TREE(kid(p, SET['expr']))))]
    u = t.copy(); u.add(z3.Not(there('expr')))
    if not ex.feasible(u, True): return out
    o, args = call_of(ex, u, r, ('std', 'core'), 'Span'); out += [q if len(q) > 2 else (*q, u) for q in o]
    if args is None: return out
    n = conc(simp(zint(length(args)) == 3)); out.append(('start, end and step', n, u))
    if n is False: return out
    for i, nm in enumerate(('Start', 'End', 'Step')):
        a = item(ex, u, args, i); w = u.copy(); w.add(there(nm)); out.append((f'{nm} as written', conc(simp(zint(adt.code(ex, w, a)) == part_of(p, nm))), w))
        w = u.copy(); w.add(z3.Not(there(nm)))
        if nm == 'End': out.append(('a missing end is All', And(is_a(ex, w, a, 'Symbol'), conc(simp(zint(adt.code(ex, w, a)) == NAMET(lit_code('std::core::All'))))), w))
        else: out.append((f'a missing {nm.lower()} is 1', And(is_a(ex, w, a, 'Integer'), conc(simp(zint(part(ex, w, a, 'Integer')) == 1))), w))
    return out
parse_index = Placed('parse_index', index_post, index_pre, lambda e: [(P(e), SET[r], part_of(P(e), r), 'tree') for r in ('Start', 'End', 'Step')] + [(P(e), SET['expr'], None, 'never')], made(INDEX))
# arguments and options
def kv_facts(ex, st, q):
    q = zint(q); n = NAMED(ex, st, q); k = tree(ex, KEYT(q))
    st.add(z3.Implies(zbool(n), zbool(is_a(ex, st, k, 'Symbol'))), z3.Implies(z3.Not(zbool(n)), zbool(is_a(ex, st, k, 'EmptyStatement'))))
def kv_apply(ex, st, args):
    fn = parse_apply_kv.lookup(ex.prog); q = zint(pairs.node(ex, st, args[1]).e); kv_facts(ex, st, q)
    return [(st, Agg(fn.locals[0], 0, (tree(ex, KEYT(q)), tree(ex, VALT(q)))))]
def kv_pre(ex, st, e):
    p = P(e); T_ast_symbol(ex, st, tree(ex, NAMET(PTEXT(kid(p, 0))))); rs = ('SYMBOL', 'expr')
    return only_at(ex, p, rs + ('Colon', NOTE), {r: SET[r] for r in rs}) + places(p, *rs) + [('a value', there('expr')), ('a name comes first', SET['SYMBOL'] <= 0), ('a name or an expression first', rule(ex, st, kid(p, 0), *rs)), ('which', conc(simp(zbool(NAMED(ex, st, p)) == there('SYMBOL'))))]
def kv_post(ex, t, r, e):
    p = P(e); k, v = adt.strip(ex, t, r.fs[0]), adt.strip(ex, t, r.fs[1]); c = zint(adt.code(ex, t, k)); n = NAMED(ex, t, p)
    return [('the value as written', conc(simp(zint(adt.code(ex, t, v)) == TREE(kid(p, SET['expr']))))), ('no name', Implies(Not(n), is_a(ex, t, k, 'EmptyStatement'))), ('its name', Implies(n, is_a(ex, t, k, 'Symbol'))), ('the name as written', Implies(n, conc(simp(c == NAMET(PTEXT(kid(p, 0)))))))]
parse_apply_kv = Placed('parse_apply_kv', kv_post, kv_pre, lambda e: [(P(e), SET['SYMBOL'], NAMET(PTEXT(kid(P(e), 0))), 'tree'), (P(e), SET['expr'], TREE(kid(P(e), SET['expr'])), 'tree')], kv_apply)
def apply_post(ex, t, r, e):
    p = P(e); n = PKIDN(p); m = adt.strip(ex, t, part(ex, t, r, None, 'options')); k = fresh('k'); u = t.copy(); m = map_to_z(m) if isinstance(m, MapC) else m
    if not isinstance(m, MapZ): raise Unsupported('options')
    u.add(z3.Select(OPTD(p, n), k))
    return in_order(ex, t, part(ex, t, r, None, 'arguments'), e, VALT) + [('every named argument is an option, and nothing else', m.dom == OPTD(p, n)), ('with the value last written', z3.Select(m.val, k) == z3.Select(OPTV(p, n), k), u)]
positional = lambda ex, st, q: And(rule(ex, st, q, 'apply_kv'), Not(NAMED(ex, st, q)))
parse_apply = Elements('parse_apply', apply_post, positional, VALT, only=('apply_kv', 'Comma', NOTE), opts=True, apply=made(LISTC, T_param))
def acall_pre(ex, st, e):
    return [('a name, then argument lists', And(PKIDN(P(e)) >= 1, rule(ex, st, kid(P(e), 0), 'Symbol')))]
def acall_post(ex, t, r, e):
    g = is_a(ex, t, r, 'Function'); out = [('a call', g)]
    if g is False: return out
    s = part(ex, t, r, 'Function', 0); a, n = text.split_facts(t, lit_code('::'), PTEXT(kid(P(e), 0)))
    out.append(('of the written name', conc(simp(zint(scode(part(ex, t, s, None, 'name'))) == z3.Select(a, n - 1)))))
    return out + in_order(ex, t, part(ex, t, r, 'Function', 1), e, LISTC)
parse_apply_call = Elements('parse_apply_call', acall_post, is_rule('apply'), LISTC, T_param, only=('apply',), pre=acall_pre)
# dot calls: the left side becomes the first argument
def dot_pre(ex, st, e):
    r = e['rhs']; ps = part(ex, st, r, 'Function', 1)
    return [('a name, a call or an index on the right', Or(is_a(ex, st, r, 'Symbol', 'Integer'), And(is_a(ex, st, r, 'Function'), conc(simp(zint(length(ps)) >= 1)))))]
def dot_post(ex, t, r, e):
    l, x = e['lhs'], e['rhs']; g = is_a(ex, t, r, 'Function'); out = [('a call', g)]
    if g is False: return out
    s, ps = part(ex, t, r, 'Function', 0), part(ex, t, r, 'Function', 1); p0 = item(ex, t, ps, 0); args = part(ex, t, p0, None, 'arguments'); a0 = item(ex, t, args, 0)
    out.append(('the left side is the first argument', And(conc(simp(zint(length(args)) >= 1)), adt.eqv(ex, t, a0, l))))
    sy, fu, ix = (is_a(ex, t, x, q) for q in ('Symbol', 'Function', 'Integer'))
    one = And(conc(simp(zint(length(ps)) == 1)), no_options(ex, t, part(ex, t, p0, None, 'options')) if fu is not True and isinstance(part(ex, t, p0, None, 'options'), (MapC, ObjV)) else True)
    out.append(('a name: a call of it with that argument', Implies(sy, And(adt.eqv(ex, t, s, part(ex, t, x, 'Symbol')), conc(simp(zint(length(args)) == 1)), conc(simp(zint(length(ps)) == 1))))))
    out.append(('an index', Implies(ix, And(text_is(part(ex, t, s, None, 'name'), 'index'), conc(simp(zint(length(args)) == 2)), adt.eqv(ex, t, item(ex, t, args, 1), x) if length(args) == 2 else False, conc(simp(zint(length(ps)) == 1))))))
    qs = part(ex, t, x, 'Function', 1); q0 = item(ex, t, qs, 0); old = part(ex, t, q0, None, 'arguments'); k = fresh('k')
    za = seq_to_z(SeqC([zint(adt.code(ex, t, y)) for y in args.xs], args.ety)) if isinstance(args, SeqC) else args
    zp = seq_to_z(SeqC([zint(adt.code(ex, t, y)) for y in ps.xs], ps.ety)) if isinstance(ps, SeqC) else ps
    out.append(('a call: of the same name, with as many lists', Implies(fu, And(adt.eqv(ex, t, s, part(ex, t, x, 'Function', 0)), conc(simp(zint(length(ps)) == zint(length(qs))))))))
    out.append(('a call: one more argument in the first list', Implies(fu, conc(simp(zint(length(args)) == zint(length(old)) + 1)))))
    out.append(('a call: the other arguments after it, in order', Implies(fu, z3.Implies(z3.And(0 <= k, k < zint(length(old))), z3.Select(za.arr, zint(simp(zint(za.off) + k + 1))) == z3.Select(old.arr, zint(simp(zint(old.off) + k)))))))
    out.append(('a call: its options', Implies(fu, adt.eqv(ex, t, part(ex, t, p0, None, 'options'), part(ex, t, q0, None, 'options')))))
    out.append(('a call: the other lists', Implies(fu, z3.Implies(z3.And(1 <= k, k < zint(length(qs))), z3.Select(zp.arr, zint(simp(zint(zp.off) + k))) == z3.Select(qs.arr, zint(simp(zint(qs.off) + k)))))))
    return out
parse_dot_call = Build('parse_dot_call', dot_post, dot_pre, params=('self', 'lhs', 'rhs', 'position'))
INTT = z3.Function('integer_of', I, I)
def int_apply(ex, st, args):
    q = zint(pairs.node(ex, st, args[1]).e); return [(st, tree(ex, INTT(q)))]
NODE = z3.Function('node_of', I, I)
parse_node = Build('parse_node', None, apply=made(NODE))
PSYM = z3.Function('prefix_operator', I, I); SSYM = z3.Function('suffix_operator', I, I); ISYM = z3.Function('infix_operator', I, I)
def op_apply(fun):
    def app(ex, st, args):
        v = adt.strip(ex, st, args[0])
        if not is_text(v): raise Unsupported('operator')
        return [(st, ObjV(fun(zint(scode(v))), AC.ty_of(ex, 'sm_ast::ast::Symbol')))]
    return app
ops_contracts = [Callee(AC.prefix_map, op_apply(PSYM)), Callee(AC.suffix_map, op_apply(SSYM)), Callee(AC.infix_map, op_apply(ISYM))]

# a term: prefixes, a node, suffixes and indices; suffixes and indices bind first, each to what is on its left, then the prefixes from the inside out
BUILT = z3.Function('built', I, I, I, B)       # built(p, k, c): c is what the first k children of p make of the node (least relation with the rules below)
PREF = z3.Function('prefixed', I, I, I, B)     # prefixed(p, j, c): c is that with the prefixes from the j-th on applied
SLICEC = z3.Function('slice_of', I, I); DIFFP = z3.Function('differs_in', I, I, I)
class TermTheory(Building):
    name = 'terms'
    def call(s, st, c):
        """(shape of a call with one list without options, symbol, arguments)"""
        ex = s.ex; v = tree(ex, c); ps = part(ex, st, v, 'Function', 1); p0 = item(ex, st, ps, 0); m = adt.strip(ex, st, part(ex, st, p0, None, 'options'))
        o = zint(m.e) == zint(adt.code(ex, st, MapC({}, *[ex.T[m.ty]['args'][i] for i in (0, 1)])))
        return z3.And(zbool(is_a(ex, st, v, 'Function')), zint(ps.len) == 1, o), part(ex, st, v, 'Function', 0), part(ex, st, p0, None, 'arguments')
    def lemmas(s, A_, facts, goal):
        yield from Building.lemmas(s, A_, facts, goal)
        if s.p is None or not s.terms: return
        st = State(); ex = s.ex; p = s.p
        def out(nm, g):
            fs = [f for f in st.facts if not isinstance(f, FA)]; st.facts.clear()
            return nm, z3.And(g, *fs)
        for q, k, c in theory.args_of(A_, 'built'):
            if not q.eq(p): continue
            j = zint(simp(k - 1)); d = kid(p, j); R = lambda *n: zbool(rule(ex, st, d, *n)); f, sy, args = s.call(st, c); b = zint(simp(z3.Select(args.arr, zint(args.off)))); pos = k >= 1
            yield out('built_0', z3.Implies(z3.And(k == 0, zbool(is_a(ex, st, tree(ex, c), 'EmptyStatement'))), BUILT(p, k, c)))
            yield out('built_node', z3.Implies(z3.And(pos, R('node'), c == NODE(d)), BUILT(p, k, c)))
            yield out('built_prefix', z3.Implies(z3.And(pos, R('Prefix'), BUILT(p, j, c)), BUILT(p, k, c)))
            yield out('built_suffix', z3.Implies(z3.And(pos, R('Suffix'), f, zint(sy.e) == SSYM(PTEXT(d)), zint(args.len) == 1, BUILT(p, j, b)), BUILT(p, k, c)))
            w = SLICEC(d); x = DIFFP(c, w); nm = And(text_is(part(ex, st, sy, None, 'name'), 'Index'))
            same_ = z3.Implies(z3.And(0 <= x, x < SEQN(w)), z3.Select(args.arr, zint(simp(zint(args.off) + x + 1))) == z3.Select(SEQA(w), x))
            yield out('built_index', z3.Implies(z3.And(pos, R('slice'), f, zbool(nm), zint(args.len) == SEQN(w) + 1, same_, BUILT(p, j, b)), BUILT(p, k, c)))
        for q, k, c in theory.args_of(A_, 'prefixed'):
            if not q.eq(p): continue
            n = PKIDN(p); f, sy, args = s.call(st, c); b = zint(simp(z3.Select(args.arr, zint(args.off))))
            yield out('prefixed_all', z3.Implies(z3.And(k == CNT(p, n), BUILT(p, n, c)), PREF(p, k, c)))
            yield out('prefixed_step', z3.Implies(z3.And(k >= 0, k < CNT(p, n), f, zint(sy.e) == PSYM(PTEXT(NTH(p, k))), zint(args.len) == 1, PREF(p, zint(simp(k + 1)), b)), PREF(p, k, c)))
    def candidates(s, ctx):
        import exec as X
        out = Building.candidates(s, ctx)
        if s.p is None or not s.terms: return out
        p = s.p; ex = ctx.ex; aty = T_AST(ex); n = PKIDN(p); cnt = [(repr(r), r.get) for r in ctx.ints if r.kind in 'mcu' and r.hav]
        for r, val in ctx.shape.head.items():
            for p_, x_, ty in ctx.loop.walk(val, ex.root_ty(ctx.loop.st0, r) if r[0] == 'L' else None):
                if not (isinstance(x_, ObjV) and x_.ty == aty and any(rr == r and pp[:len(p_)] == p_ for rr, pp in ctx.shape.hav)): continue
                def get(vw, r=r, p_=p_):
                    q = vw[r]
                    for i_ in p_: q = q.kids()[i_]
                    return zint(q.e) if isinstance(q, ObjV) else None
                for nm, g in cnt:
                    def f(vw, get=get, g=g): return None if get(vw) is None or not is_int(g(vw)) else BUILT(p, zint(g(vw)), get(vw))
                    def f2(vw, get=get, g=g): return None if get(vw) is None or not is_int(g(vw)) else PREF(p, zint(g(vw)), get(vw))
                    def f3(vw, get=get, g=g): return None if get(vw) is None or not is_int(g(vw)) else PREF(p, zint(simp(CNT(p, n) - zint(g(vw)))), get(vw))
                    out += [X.Cand(f'built from the first {nm} children {r[-1]}{p_}', f), X.Cand(f'prefixes from {nm} on applied {r[-1]}{p_}', f2), X.Cand(f'the last {nm} prefixes applied {r[-1]}{p_}', f3)]
        return out
    terms = True
term_theory = TermTheory()
class Term(Elements):
    def start(s, ex, fn, args, env): term_theory.setup(ex, P(env), s.keep, s.image, s.et(ex))
    def verify(s, ex):
        more = {'sm_ast::ast::AST', 'sm_ast::ast::Position'}; adt.CODED.update(more)
        try: return Elements.verify(s, ex)
        finally: adt.CODED.difference_update(more)
def T_String(ex): return text.find_ty(ex, lambda t: t['k'] == 'adt' and t.get('def') == 'std::string::String')
def term_post(ex, t, r, e): return [('suffixes and indices in order around the node, then the prefixes from the inside out', PREF(P(e), 0, zint(adt.code(ex, t, r))))]
parse_term = Term('parse_term', term_post, is_rule('Prefix'), PTEXT, T_String, only=('Prefix', 'node', 'Suffix', 'slice'))
parse_term.theories = [term_theory, theory.texts]
# dispatch: what a node, a datum and an expression are made of
TERM = z3.Function('term_of', I, I); CALLN = z3.Function('call_of', I, I); SPACE = z3.Function('product_of', I, I); DATA = z3.Function('datum_of', I, I)
LISTN = z3.Function('list_of', I, I); LEAF = {k: z3.Function(f'leaf_{k}', I, I) for k in ('String', 'Decimal', 'Integer', 'Byte', 'Special', 'REPL', 'Slot')}
CLIMBED = z3.Function('climbed', I, I); DOT = z3.Function('dot_call', I, I, I)
def same_as(e_of):
    def post(ex, t, r, e): return [('what its child makes', conc(simp(zint(adt.code(ex, t, r)) == e_of(e))))]
    return post
parse_node = Build('parse_node', same_as(lambda e: {'expr': TREE, 'data': DATA, 'apply_call': CALLN, 'space_call': SPACE}[e['shape'][0]](kid(P(e), 0))), None, tuple((k,) for k in ('expr', 'data', 'apply_call', 'space_call')), apply=made(NODE))
def data_post(ex, t, r, e):
    k = e['shape'][0]; q = kid(P(e), 0)
    if k != 'Symbol': return [(f'what its child makes ({k})', conc(simp(zint(adt.code(ex, t, r)) == (LISTN if k == 'list' else LEAF[k])(q))))]
    g = is_a(ex, t, r, 'Symbol'); out = [('a name', g)]
    if g is not False:
        a, n = text.split_facts(t, lit_code('::'), PTEXT(q)); out.append(('as written', conc(simp(zint(scode(part(ex, t, part(ex, t, r, 'Symbol'), None, 'name'))) == z3.Select(a, n - 1)))))
    return out
parse_data = Build('parse_data', data_post, None, tuple((k,) for k in ('list', 'Symbol') + tuple(LEAF)), apply=made(DATA))
def tied(c, fun):
    """a contract already stated, with the function of the node its callers see"""
    return Callee(c, made(fun))
def dot_apply(ex, st, args):
    a, b = (zint(adt.code(ex, st, adt.strip(ex, st, x))) for x in args[1:3]); return [(st, tree(ex, DOT(a, b)))]
OPS = ('Plus', 'Minus', 'Multiply', 'Divide', 'Power', 'Map', 'Dot')
@h('sm_parser::PrecClimber::climb', 'pest::prec_climber::PrecClimber::climb')
def _climb(ex, st, c):
    """precedence climbing: the primary closure is owed its contract on every operand, the infix closure on every operator and both sides of it"""
    it = c.args[1] if isinstance(c.args[1], It) else adt.strip(ex, st, c.args[1])
    if isinstance(it, It) and it.kind == 'filter':
        s = it.subs[0].subs[0] if isinstance(it.subs[0], It) and it.subs[0].kind == 'seq' else None
        if not isinstance(s, SeqZ): raise Unsupported('operands')
        t = st.copy(); q = ObjV(fresh('child'), s.ety)
        for u, v, c2 in intr.call_clo(ex, t, it.subs[1], [Ref(q)]):
            if not intr.same(c2, it.subs[1]): raise Unsupported('stateful closure')
            ex.oblige_post(u, conc(simp(zbool(v) == z3.Not(zbool(rule(ex, u, q.e, NOTE))))), 'everything but block comments takes part', c.where)
        it = it.subs[0]
    elif isinstance(it, It): ex.oblige_post(st, False, 'block comments take no part', c.where)
    if not isinstance(it, It) or it.kind != 'seq' or len(it.subs) != 1: raise Unsupported('operands')
    s = it.subs[0]
    if not isinstance(s, SeqZ) or not z3.is_app(s.arr) or s.arr.decl().name() != 'kids': raise Unsupported('operands')
    p = s.arr.arg(0); pty = s.ety
    if not ex.oblige(st, And(conc(simp(zint(it.ints[0]) == 0)), conc(simp(zint(it.ints[1]) == PKIDN(p))), conc(simp(zint(s.off) == 0))), 'all children of the expression take part', c.where): return []
    t = st.copy(); q = ObjV(fresh('operand'), pty); e = zint(q.e)
    t.add(zbool(rule(ex, t, e, 'expr', 'term')))
    for u, v, c2 in intr.call_clo(ex, t, c.args[2], [q]):
        if not intr.same(c2, c.args[2]): raise Unsupported('stateful closure')
        ex.oblige_post(u, conc(simp(zint(adt.code(ex, u, v)) == z3.If(zbool(rule(ex, u, e, 'expr')), TREE(e), TERM(e)))), 'an operand is what its node makes', c.where)
    t = st.copy(); a, b = fresh('lhs'), fresh('rhs'); q = ObjV(fresh('operator'), pty); e = zint(q.e)
    t.add(zbool(rule(ex, t, e, *OPS)))
    for u, v, c2 in intr.call_clo(ex, t, c.args[3], [tree(ex, a), q, tree(ex, b)]):
        if not intr.same(c2, c.args[3]): raise Unsupported('stateful closure')
        dot = zbool(rule(ex, u, e, 'Dot')); v = adt.strip(ex, u, v)
        ex.oblige_post(u, Implies(dot, conc(simp(zint(adt.code(ex, u, v)) == DOT(a, b)))), 'a dot puts its left side into the right', c.where)
        f = is_a(ex, u, v, 'Function'); w = u.copy(); w.add(z3.Not(dot))
        if not ex.feasible(w, True): continue
        ex.oblige_post(w, f, 'an operator is a call', c.where)
        if f is False: continue
        sy = part(ex, w, v, 'Function', 0); ls = part(ex, w, v, 'Function', 1)
        ex.oblige_post(w, conc(simp(zint(adt.code(ex, w, sy)) == ISYM(PTEXT(e)))), 'of that operator', c.where)
        one = conc(simp(zint(length(ls)) == 1)); ex.oblige_post(w, one, 'with one argument list', c.where)
        if one is False: continue
        p0 = item(ex, w, ls, 0); args = part(ex, w, p0, None, 'arguments'); two = conc(simp(zint(length(args)) == 2))
        ex.oblige_post(w, no_options(ex, w, part(ex, w, p0, None, 'options')), 'without options', c.where)
        ex.oblige_post(w, two, 'with two arguments', c.where)
        if two is not False: ex.oblige_post(w, And(adt.eqv(ex, w, item(ex, w, args, 0), tree(ex, a)), adt.eqv(ex, w, item(ex, w, args, 1), tree(ex, b))), 'the left side, then the right side', c.where)
    return [(st, tree(ex, CLIMBED(p)))]
parse_expr = Build('parse_expr', same_as(lambda e: CLIMBED(P(e))), apply=made(TREE))
def stmt_pre(ex, st, e):
    p = P(e); rs = ('expr', 'eos'); return only_at(ex, p, rs + (NOTE,), {r: SET[r] for r in rs}) + places(p, *rs) + [('an expression', there('expr'))]
def stmt_post(ex, t, r, e):
    v, s = adt.strip(ex, t, r.fs[0]), r.fs[1]
    return [('the tree of its expression', conc(simp(zint(adt.code(ex, t, v)) == TREE(kid(P(e), SET['expr']))))), ('whether it ends with a semicolon', conc(simp(zbool(s) == there('eos'))))]
parse_expression = Placed('parse_expression', stmt_post, stmt_pre, lambda e: [(P(e), SET['expr'], TREE(kid(P(e), SET['expr'])), 'tree'), (P(e), SET['eos'], z3.BoolVal(True), 'flag')])
# names and numbers side by side: their product
class Space(Elements):
    def verify(s, ex):
        """AST::symbol is some function of the text here (C15 says which)"""
        f = ast_symbol.lookup(ex.prog)
        if f is None: raise Unsupported('AST::symbol not found')
        ex.contracts = dict(ex.contracts or {}); ex.contracts[short(f.id)] = ast_symbol
        return Elements.verify(s, ex)
SIDE = {'Symbol': lambda q: NAMET(PTEXT(q)), 'Integer': LEAF['Integer'], 'Decimal': LEAF['Decimal'], 'Byte': LEAF['Byte'], 'apply_call': CALLN}
def space_image(q):
    v = CALLN(q)
    for k in ('Byte', 'Decimal', 'Integer', 'Symbol'): v = z3.If(zbool(rule(building.ex, State(), q, k)), SIDE[k](q), v)
    return v
def space_post(ex, t, r, e):
    g = is_a(ex, t, r, 'Function'); out = [('a call', g)]
    if g is False: return out
    sy = part(ex, t, r, 'Function', 0); ps = part(ex, t, r, 'Function', 1); out.append(('of the multiplication', conc(simp(zint(adt.code(ex, t, sy)) == ISYM(lit_code('*'))))))
    one = conc(simp(zint(length(ps)) == 1)); out.append(('one argument list', one))
    if one is False: return out
    p0 = item(ex, t, ps, 0); out.append(('no options', no_options(ex, t, part(ex, t, p0, None, 'options'))))
    return out + in_order(ex, t, part(ex, t, p0, None, 'arguments'), e, space_image)
parse_space_call = Space('parse_space_call', space_post, is_rule(*SIDE), space_image, only=tuple(SIDE))
def sym_post(ex, t, r, e):
    g = is_a(ex, t, r, 'Symbol'); out = [('a name', g)]
    if g is False: return out
    a, n = text.split_facts(t, lit_code('::'), zint(scode(e['name']))); return out + [('the last part of the text', conc(simp(zint(scode(part(ex, t, part(ex, t, r, 'Symbol'), None, 'name'))) == z3.Select(a, n - 1))))]
ast_symbol_ = Ast('symbol', r'<impl sm_ast::ast::AST>::symbol(::<&str>)?$', ['name'], sym_post, None, (theory.texts,))
# a program of one expression: what the expression makes
PROGRAM = z3.Function('program_of', I, I); ACCEPTED = z3.Function('accepted', I, B); STMT = z3.Function('statement_of', I, I); FIRST = z3.Int('place_of_the_first_expression')
@h('sm_parser::Parser::parse')
def _pest(ex, st, c):
    """the generated parser: a sequence of nodes, or an error"""
    v = adt.strip(ex, st, c.args[1])
    if not is_text(v): raise Unsupported('text')
    x = zint(scode(v)); ok, err = ex.branch(st, ACCEPTED(x)); out = []; nty = building.node_ty(ex)
    if ok is not None:
        n = PKIDN(PROGRAM(x)); ok.add(n >= 0, n <= (1 << 58)); out.append((ok, Agg(c.destty, 0, (It('seq', (0, n), (SeqZ(PKIDS(PROGRAM(x)), 0, n, nty),), 'val'),))))
    if err is not None: out.append((err, Agg(c.destty, 1, (ObjV(z3.Function('rejected', I, I)(x), ex.T[c.destty]['args'][1]),))))
    return out
def stmt_apply(ex, st, args):
    fn = parse_expression.lookup(ex.prog); q = zint(pairs.node(ex, st, args[1]).e); return [(st, Agg(fn.locals[0], 0, (tree(ex, STMT(q)), z3.Function('statement_ends', I, B)(q))))]
class Program(Placed):
    def start(s, ex, fn, args, env):
        f = parse_expression.lookup(ex.prog); building.node_ty = lambda e: f.locals[2]
        roles.setup(ex, s.at(env)); ex.converts = True
def program_pre(ex, st, e):
    p = PROGRAM(zint(scode(e['text']))); k = fresh('k'); u = State(); g = zbool(rule(ex, u, kid(p, k), 'EOI', 'COMMENT', NOTE, 'expression')); x = zbool(rule(ex, u, kid(p, k), 'expression'))
    fs = [q for q in u.facts if not isinstance(q, FA)]; n = PKIDN(p)
    return [('statements', And(n >= 0, n <= (1 << 58))), ('the expression, if any', And(FIRST >= -1, FIRST < n)), ('which it is', z3.Implies(FIRST >= 0, zbool(rule(ex, st, kid(p, FIRST), 'expression')))),
            ('one expression, and comments', FA(k, z3.Implies(z3.And(0 <= k, k < n), z3.And(g, x == (k == FIRST), *fs)), 'program'))]
def program_post(ex, t, r, e):
    x = zint(scode(e['text'])); p = PROGRAM(x); good = AC.ok(ex, t, r); out = [('an error exactly when the grammar rejects the text', zbool(good) == ACCEPTED(x))]
    if good is not True: return out
    v = adt.strip(ex, t, part(ex, t, r, 'Ok')); return out + [('the tree of its expression', Implies(FIRST >= 0, conc(simp(zint(adt.code(ex, t, v)) == STMT(kid(p, FIRST)))))), ('nothing to parse', Implies(Not(FIRST >= 0), is_a(ex, t, v, 'EmptyStatement')))]
parse_program = Program('parse', program_post, program_pre, lambda e: [(PROGRAM(zint(scode(e['text']))), FIRST, None, 'never'), (PROGRAM(zint(scode(e['text']))), FIRST, STMT(kid(PROGRAM(zint(scode(e['text']))), FIRST)), 'tree')])
parse_program.params = ['self', 'text']
ENTRY = {'C25': [parse_integer, parse_byte, parse_decimal, parse_special, parse_string, parse_slot, parse_in_out],
         'C26': [ast_symbol_, parse_program, parse_expression, parse_expr, parse_term, parse_node, parse_data, parse_list, parse_slice, parse_index, parse_apply_kv, parse_apply, parse_apply_call, parse_dot_call, parse_space_call]}
OTHERS = [tied(parse_list, LISTN), tied(parse_apply_call, CALLN), tied(parse_term, TERM), tied(parse_space_call, SPACE), Callee(parse_dot_call, dot_apply)] + [tied(parse_in_out, LEAF['REPL'])] + \
    [tied(c, LEAF[k]) for c, k in ((parse_string, 'String'), (parse_decimal, 'Decimal'), (parse_integer, 'Integer'), (parse_byte, 'Byte'), (parse_special, 'Special'), (parse_slot, 'Slot'))]
CALLEES = {'C25': [], 'C26': [Callee(parse_expression, stmt_apply), parse_expr, parse_index, parse_apply, parse_apply_kv, parse_node, parse_slice, parse_data] + OTHERS + ops_contracts}
