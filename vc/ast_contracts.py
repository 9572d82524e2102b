"""The contracts of sm-ast: the postconditions are the property statements C14..C21."""
import re
import z3
from vals import *
from uf import *
from exec import State, short
import adt, text, theory

U64 = (1 << 64) - 1; UMAX = (1 << 64) - 1

# ------------------------------------------------------------------ vocabulary
def ty_of(ex, name):
    for i, t in enumerate(ex.T):
        if t['k'] == 'adt' and t.get('def') == name: return i
    raise Unsupported(f'type {name} not in the program')
def T_AST(ex): return ty_of(ex, 'sm_ast::ast::AST')
def vix(ex, ty, nm):
    for i, v in enumerate(ex.T[ty]['variants']):
        if v['name'] == nm: return i
    raise Unsupported(f'no variant {nm}')
def fix(ex, ty, nm, k=0):
    for i, f in enumerate(ex.T[ty]['variants'][k]['fields']):
        if f[0] == nm: return i
    raise Unsupported(f'no field {nm}')
def is_a(ex, st, v, *nms):
    """condition: v is one of the named variants"""
    v = adt.strip(ex, st, v)
    if isinstance(v, Agg): return v.ty is not None and ex.T[v.ty]['variants'][v.var]['name'] in nms
    if isinstance(v, ObjV):
        k = adt.kind(ex, st, v)
        return Or(*[zint(k) == vix(ex, v.ty, n) for n in nms])
    raise Unsupported(f'kind of {type(v).__name__}')
def part(ex, st, v, nm, i=0):
    """field i of v seen as variant nm (None: the only variant); i may be a field name"""
    v = adt.strip(ex, st, v)
    if isinstance(v, Agg):
        k = 0 if nm is None else vix(ex, v.ty, nm)
        if isinstance(i, str): i = fix(ex, v.ty, i, k)
        if v.var != k: raise Unsupported(f'{nm} part of another variant')
        return adt.strip(ex, st, v.fs[i])
    if isinstance(v, ObjV):
        k = 0 if nm is None else vix(ex, v.ty, nm)
        if isinstance(i, str): i = fix(ex, v.ty, i, k)
        return adt.strip(ex, st, adt.field(ex, st, v, k, i))
    raise Unsupported(f'part of {type(v).__name__}')
def length(v): return len(v.xs) if isinstance(v, SeqC) else v.len
def text_is(v, *ls): return Or(*[conc(simp(zint(scode(v)) == lit_code(l))) for l in ls])
def item(ex, st, s, i): return adt.strip(ex, st, ex.select(st, s, i))
def ok(ex, t, r):
    """True for Ok, False for Err"""
    if not isinstance(r, Agg) or r.ty is None: raise Unsupported('result')
    return ex.T[r.ty]['variants'][r.var]['name'] == 'Ok'
def iseq(goal): return goal if goal is not None else False
def mentions(x, names, seen=None):
    seen = set() if seen is None else seen
    for _, l in leaves(x):
        st = [l] if isinstance(l, z3.ExprRef) else []
        while st:
            e = st.pop()
            if e.get_id() in seen: continue
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().name() in names: return True
            st += e.children()
    return False

class Ast:
    """a contract on a function of sm-ast: pre(ex, st, env) -> [(name, goal)], post(ex, t, result, env) -> [(name, goal)] per outcome"""
    def __init__(s, fname, rx, params, post, pre=None, theories=(theory.texts,), apply=None, starts=None):
        s.fname = fname; s.rx = rx; s.params = params; s.post = post; s.pre = pre or (lambda ex, st, e: []); s.theories = list(theories); s.app = apply
    def lookup(s, prog):
        c = [f for f in prog.fns.values() if f.local and f.blocks and re.search(s.rx, f.id)]
        return c[0] if len(c) == 1 else None
    def apply(s, ex, st, args): return s.app(ex, st, args)
    def begin(s, ex, st, fn):
        args = []; env = {}
        for l, nm in zip(range(1, fn.argc + 1), s.params):
            ty = fn.locals[l]; t = ex.T[ty]; e = z3.Int(nm)
            if t['k'] == 'ref':
                v = adt.lift(ex, st, e, t['elem'])
                a = ex.alloc(st, v) if t.get('mut') else Ref(v)
            else: a = v = adt.lift(ex, st, e, ty)
            args.append(a); env[nm] = v; env[nm + '&'] = a
        return args, env
    def verify(s, ex):
        fn = s.lookup(ex.prog)
        if fn is None: raise Unsupported(f'function {s.fname} not found')
        if fn.argc != len(s.params): raise Unsupported(f'signature of {s.fname} changed')
        st = State(); args, env = s.begin(ex, st, fn)
        ex.env = {}
        for th in s.theories: th.env = {}
        for nm, g in s.pre(ex, st, env): st.add(g)
        s.entry_facts = list(st.facts)
        ex.verifying_entry = fn.id
        ex.pins = [a for a in args if isinstance(a, Mut)]
        ex.push(st, fn, args, None, None)
        outs = ex.explore([st], 1, None)
        for t in outs:
            for q in s.post(ex, t, t.ret, env):
                u = q[2] if len(q) > 2 else t
                ex.oblige_post(u, q[1], q[0], s.fname)
        ex.verifying_entry = None
        s.outs = outs; s.envv = env; s.args = args
        return len(outs)

# ------------------------------------------------------------------ C14: operator spellings
PREFIX = {'+': 'plus', '-': 'minus', '*': 'unpack', '!': 'not'}
SUFFIX = {'!': 'factorial', '!!': 'factorial2'}
INFIX = {'+': ('add', 80), '-': ('subtract', 80), '*': ('times', 140), '/': ('divide', 140), '//': ('quotient', 140), '^': ('power', 150)}
def op_post(space, fixity, names, prec=None):
    def post(ex, t, r, e):
        x = e['text']; nm = part(ex, t, r, None, 'name'); ns = part(ex, t, r, None, 'name_space'); k = part(ex, t, r, None, 'kind')
        other = zint(scode(x))
        for l, n in names.items(): other = If(text_is(x, l), lit_code(n), other)
        good = is_a(ex, t, k, fixity)
        out = [('documented function name', conc(simp(zint(scode(nm)) == other))),
               ('standard name space', And(conc(simp(zint(length(ns)) == 2)), text_is(item(ex, t, ns, 0), 'std') if length(ns) == 2 else False, text_is(item(ex, t, ns, 1), space) if length(ns) == 2 else False)),
               ('fixity', good)]
        if good is False: return out
        out.append(('carries its spelling', adt.eqv(ex, t, part(ex, t, k, fixity, 0), x)))
        if prec:
            p = 170
            for l, q in prec.items(): p = If(text_is(x, l), q, p)
            out.append(('printing precedence', conc(simp(zint(part(ex, t, k, fixity, 1)) == p))))
        return out
    return post
def one_of(names): return lambda ex, st, e: [('a spelling of this fixity', text_is(e['text'], *names))]
prefix_map = Ast('prefix_map', r'parser::ops::prefix_map$', ['text'], op_post('prefix', 'Prefix', PREFIX), one_of(PREFIX))
suffix_map = Ast('suffix_map', r'parser::ops::suffix_map$', ['text'], op_post('suffix', 'Suffix', SUFFIX), one_of(SUFFIX))
infix_map = Ast('infix_map', r'parser::ops::infix_map$', ['text'], op_post('infix', 'Infix', {k: v[0] for k, v in INFIX.items()}, {k: v[1] for k, v in INFIX.items()}))
class Operators:
    """the parser's precedence table (a constant of the crate): + - below * / below ^"""
    fname = 'OPERATORS'; theories = (); params = []; constant = True
    def lookup(s, prog): return None
    def verify(s, ex):
        c = ex.prog.consts.get('sm_ast::parser::OPERATORS')
        if c is None: raise Unsupported('constant OPERATORS not found')
        v = adt.strip(ex, State(), ex.const(c)); st = State(); pr = {}
        if not isinstance(v, SeqC): raise Unsupported('OPERATORS is not a literal table')
        for x in v.xs:
            x = adt.strip(ex, st, x)
            nm = ex.T[x.fs[0].ty]['variants'][x.fs[0].var]['name']
            if nm in pr and pr[nm] != x.fs[1]: pr[nm] = None
            else: pr[nm] = x.fs[1]
        def g(name, ns, f):
            ex.oblige_post(st, bool(all(pr.get(n) is not None for n in ns) and f(*[pr[n] for n in ns])), name, s.fname)
        g('Plus and Minus bind alike', ('Plus', 'Minus'), lambda a, b: a == b)
        for lo in ('Plus', 'Minus'):
            for hi in ('Multiply', 'Divide', 'Power'): g(f'{lo} binds below {hi}', (lo, hi), lambda a, b: a < b)
        for lo in ('Multiply', 'Divide'): g(f'{lo} binds below Power', (lo, 'Power'), lambda a, b: a < b)
        s.outs = [st]; s.entry_facts = []
        return 1
operators = Operators()

# ------------------------------------------------------------------ evaluation: the shape of a call
FWD = r'evaluate::forward::<impl .*ast::AST>::forward$'
def call(ex, st, e):
    """(is a call, is one with exactly one argument list, name, arguments, number of lists, symbol) of the tree e['tree']"""
    v = e['tree']; s = part(ex, st, v, 'Function', 0); ps = part(ex, st, v, 'Function', 1)
    f = is_a(ex, st, v, 'Function'); n = length(ps)
    args = part(ex, st, item(ex, st, ps, 0), None, 'arguments')
    return f, conc(simp(zint(n) == 1)), part(ex, st, s, None, 'name'), args, n, s
def pair(ex, st, args):
    """condition `exactly two integers` and the two numbers"""
    a, b = item(ex, st, args, 0), item(ex, st, args, 1)
    return And(conc(simp(zint(length(args)) == 2)), is_a(ex, st, a, 'Integer'), is_a(ex, st, b, 'Integer')), part(ex, st, a, 'Integer'), part(ex, st, b, 'Integer')
def frame(ex, t, e):
    now = ex.mut_get(t, e['ctx&'])
    return [('the session context is unchanged', adt.eqv(ex, t, e['ctx'], now))]
ARITH = ('add', 'plus', 'times', 'power'); STRS = ('first', 'last', 'length'); NUMS = ('factorial', 'fibonacci'); KNOWN = ARITH + STRS + NUMS

def arith_pre(ex, st, e):
    f, one, nm, args, n, s = call(ex, st, e)
    return [('a call', f), ('with one argument list', one), ('of an arithmetic function', text_is(nm, *ARITH))]
def arith_post(ex, t, r, e):
    f, one, nm, args, n, s = call(ex, t, e); shape, x, y = pair(ex, t, args); pw = text_is(nm, 'power'); big = And(pw, Or(zint(y) < 0, zint(y) > U64))
    if not ok(ex, t, r): return [('an error only for other operands, or exponents that are negative or beyond a machine word', Or(Not(shape), big))] + frame(ex, t, e)
    v = part(ex, t, r, 'Ok'); i = is_a(ex, t, v, 'Integer')
    out = [('two integer operands', shape), ('an integer', i), ('exponent of a machine word', Not(big))]
    if i is not False: out.append(('exact value', zint(part(ex, t, v, 'Integer')) == If(text_is(nm, 'add', 'plus'), zint(x) + y, If(text_is(nm, 'times'), zint(x) * y, app(IPOW, x, y)))))
    return out + frame(ex, t, e)
def fwd(name, pre, post, theories=()): return Ast(name, FWD, ['tree', 'ctx'], post, pre, theories)
forward_arith = fwd('AST::forward (arithmetic calls)', arith_pre, arith_post, [theory.Pow()])

# ------------------------------------------------------------------ C16: texts
def str_case(ex, t, r, s, nm):
    """nm in first/last/length of the text s"""
    n = text.text_len(t, s); empty = conc(simp(zint(n) == 0))
    if not ok(ex, t, r): return [('an error only for first and last of the empty string', And(Not(text_is(nm, 'length')), empty)), ('an empty-container error', is_a(ex, t, part(ex, t, r, 'Err'), 'EmptyContainer'))]
    v = part(ex, t, r, 'Ok'); a = z3.Select(CHARS(zint(scode(s))), 0); b = z3.Select(CHARS(zint(scode(s))), zint(n) - 1)
    out = [('a value only for a non-empty string, or its length', Or(text_is(nm, 'length'), Not(empty)))]
    isstr = is_a(ex, t, v, 'String'); isint = is_a(ex, t, v, 'Integer')
    out.append(('a string for first and last, an integer for length', And(Implies(text_is(nm, 'first', 'last'), isstr), Implies(text_is(nm, 'length'), isint))))
    if isstr is True:
        w = zint(scode(part(ex, t, v, 'String')))
        out.append(('exactly the first or last character', And(Implies(text_is(nm, 'first'), w == STR1(a)), Implies(text_is(nm, 'last'), w == STR1(b)))))
    if isint is True: out.append(('the number of characters', Implies(text_is(nm, 'length'), zint(part(ex, t, v, 'Integer')) == n)))
    return out
def str_fn(nm):
    return Ast(nm, rf'internal::list_like::{nm}$', ['expr'], lambda ex, t, r, e: str_case(ex, t, r, part(ex, t, e['expr'], 'String'), nm),
               lambda ex, st, e: [('a string', is_a(ex, st, e['expr'], 'String'))])
first, last, length_ = str_fn('first'), str_fn('last'), str_fn('length')
def one_arg(ex, st, e, kind, names):
    f, one, nm, args, n, s = call(ex, st, e)
    return [('a call', f), ('with one argument list', one), ('of a listed function', text_is(nm, *names)), ('one argument', conc(simp(zint(length(args)) == 1))), (f'of kind {kind}', is_a(ex, st, item(ex, st, args, 0), kind))]
def arg0(ex, t, e, kind):
    f, one, nm, args, n, s = call(ex, t, e); return nm, part(ex, t, item(ex, t, args, 0), kind)
def fstr_post(ex, t, r, e):
    nm, s = arg0(ex, t, e, 'String'); return str_case(ex, t, r, s, nm) + frame(ex, t, e)
forward_str = fwd('AST::forward (first, last, length of a string)', lambda ex, st, e: one_arg(ex, st, e, 'String', STRS), fstr_post)

# ------------------------------------------------------------------ C17: totality
ATOMS = ('EmptyStatement', 'Boolean', 'Integer', 'Decimal', 'Symbol', 'String')
def total_post(ex, t, r, e):
    v = e['tree']; atom = is_a(ex, t, v, *ATOMS); f, one, nm, args, n, s = call(ex, t, e); none = And(f, conc(simp(zint(n) == 0)))
    out = frame(ex, t, e)
    good = Or(atom, none)
    shape, x, y = pair(ex, t, args); a = item(ex, t, args, 0); some = conc(simp(zint(length(args)) >= 1))
    fine = And(f, one, Or(And(text_is(nm, *ARITH), shape), And(text_is(nm, *STRS), some, is_a(ex, t, a, 'String')), And(text_is(nm, *NUMS), some, is_a(ex, t, a, 'Integer', 'Decimal'))))
    if not ok(ex, t, r): return out + [('no error for an atom or a bare name', Not(good))]
    w = part(ex, t, r, 'Ok')
    out.append(('a value only for an atom, a bare name, or a supported call', Or(good, fine)))
    out.append(('an atom evaluates to itself', Implies(atom, adt.eqv(ex, t, w, v))))
    isy = is_a(ex, t, w, 'Symbol')
    out.append(('a bare name evaluates to itself', Implies(none, And(isy, adt.eqv(ex, t, part(ex, t, w, 'Symbol'), s) if isy is not False else False))))
    out.append(('the value is never a program or a call', Not(is_a(ex, t, w, 'Program', 'Function'))))
    out.append(('the value depends on the tree only', not mentions(r, {'ctx'})))
    return out
def eval_fns(): return z3.Function('eval_ok', I, B), z3.Function('eval_value', I, I)
def fwd_apply(ex, st, args):
    """contract of AST::forward at call sites: a function of the tree, the context unchanged, no program and no call among the values"""
    fn = forward_total.lookup(ex.prog); rt = fn.locals[0]; okf, val = eval_fns()
    tree = adt.strip(ex, st, args[0]); ty = ex.T[fn.locals[1]]['elem']; c = zint(adt.code(ex, st, tree)); out = []
    a, b = ex.branch(st, okf(c))
    if a is not None:
        w = ObjV(val(c), ty); a.add(Not(is_a(ex, a, w, 'Program', 'Function'))); out.append((a, Agg(rt, vix(ex, rt, 'Ok'), (w,))))
    if b is not None: out.append((b, Agg(rt, vix(ex, rt, 'Err'), (ObjV(fresh('err'), ex.T[rt]['args'][1]),))))
    return out
forward_total = Ast('AST::forward', FWD, ['tree', 'ctx'], total_post, None, [theory.Pow()], fwd_apply)

# ------------------------------------------------------------------ C19: errors of the algorithms
KINDS = {'OverFlow': 'Overflow', 'ComplexInfinity': 'ComplexInfinity', 'IOError': 'IOError', 'Unimplemented': 'Unimplemented'}
def conv(ex, t, a, b):
    """goals: SMError b is what sm_algorithm::Error a becomes"""
    a, b = adt.strip(ex, t, a), adt.strip(ex, t, b); aty = a.ty; out = []
    for v in ex.T[aty]['variants']:
        src = v['name']; c = is_a(ex, t, a, src); d = is_a(ex, t, b, KINDS.get(src, 'Unknown'))
        if c is False: continue
        g = d
        if src == 'IOError' and d is not False: g = And(d, adt.eqv(ex, t, part(ex, t, a, src), part(ex, t, b, 'IOError')))
        out.append((f'{src} arrives as {KINDS.get(src, "Unknown")}', Implies(c, g)))
    return out
from_algorithm = Ast('From<sm_algorithm::Error> for SMError', r'error::traits::<impl std::convert::From<sm_algorithm::.*Error> for .*SMError>::from$', ['e'], lambda ex, t, r, e: conv(ex, t, e['e'], r))
def alg_case(ex, t, r, n, nms):
    """nms: [(condition, algorithm)]"""
    out = []
    for c, nm in nms:
        if c is False: continue
        okf, val, err = text.alg(nm)
        if ok(ex, t, r):
            v = part(ex, t, r, 'Ok'); i = is_a(ex, t, v, 'Integer')
            out.append((f'a value only when {nm} returns one', Implies(c, okf(zint(n))))); out.append(('an integer', i))
            if i is not False: out.append((f'exactly the value of {nm}', Implies(c, zint(part(ex, t, v, 'Integer')) == val(zint(n)))))
        else:
            out.append((f'an error only when {nm} returns one', Implies(c, Not(okf(zint(n))))))
            for q, g in conv(ex, t, ObjV(err(zint(n)), ty_of(ex, 'sm_algorithm::Error') if any(x.get('def') == 'sm_algorithm::Error' for x in ex.T) else aerr(ex)), part(ex, t, r, 'Err')): out.append((q, Implies(c, g)))
    return out
def aerr(ex):
    for i, t in enumerate(ex.T):
        if t['k'] == 'adt' and re.match(r'sm_algorithm::.*Error$', t.get('def', '')): return i
    raise Unsupported('sm_algorithm::Error not in the program')
def num_fn(nm, mod, al):
    return Ast(nm, rf'internal::{mod}::{nm}$', ['expr'], lambda ex, t, r, e: alg_case(ex, t, r, part(ex, t, e['expr'], 'Integer'), [(True, al)]), lambda ex, st, e: [('an integer', is_a(ex, st, e['expr'], 'Integer'))])
ast_factorial = num_fn('factorial', 'elementary', 'factorial_i'); ast_fibonacci = num_fn('fibonacci', 'elementary', 'fibonacci_i'); ast_prime_sum = num_fn('prime_sum', 'number_theory', 'prime_sum_i')
def fnum_post(ex, t, r, e):
    nm, n = arg0(ex, t, e, 'Integer')
    return alg_case(ex, t, r, n, [(text_is(nm, k), k + '_i') for k in NUMS]) + frame(ex, t, e)
forward_num = fwd('AST::forward (factorial, fibonacci of an integer)', lambda ex, st, e: one_arg(ex, st, e, 'Integer', NUMS), fnum_post)

# ------------------------------------------------------------------ C20: qualified names
def sym_post(ex, t, r, e):
    s = e['s']; a, n = text.split_facts(t, lit_code('::'), zint(scode(s))); nm = part(ex, t, r, None, 'name'); ns = part(ex, t, r, None, 'name_space')
    out = [('the name is the last part', conc(simp(zint(scode(nm)) == z3.Select(a, zint(n) - 1)))),
           ('as many parts in the name space as come before it', conc(simp(zint(length(ns)) == zint(n) - 1)))]
    k = fresh('k'); u = t.copy(); u.add(k >= 0, k < zint(n) - 1)
    z = seq_to_z(ns) if isinstance(ns, SeqC) else ns
    out.append(('the name space is the parts before it, in order', z3.Select(z.arr, zint(simp(zint(z.off) + k))) == z3.Select(a, k), u))
    for w, x in text.display(ex, t, r, ty_of(ex, 'sm_ast::ast::Symbol')): out.append(('printing gives the text back', adt.eqv(ex, w, x, s), w))
    return out
SYM = r'ast::traits::<impl std::convert::From<%s> for .*Symbol>::from$'
symbol_from = Ast('Symbol::from(&str)', SYM % '&str', ['s'], sym_post)
symbol_from_string = Ast('Symbol::from(String)', SYM % r'(std::string::)?String', ['s'], sym_post)

# ------------------------------------------------------------------ C18: sessions
RUN = r'evaluate::traits::<impl .*Runner>::%s$'
def ctx_of(ex, st, runner):
    c = part(ex, st, runner, None, 'ctx')
    g = lambda n: part(ex, st, c, None, n)
    m = lambda n: map_to_z(g(n)) if isinstance(g(n), MapC) else g(n)
    return g('index'), m('inputs'), m('outputs'), part(ex, st, runner, None, 'parser')
def keys_below(ix, m, nm):
    k = fresh('k'); return FA(k, z3.Implies(z3.Select(m.dom, k), z3.And(k >= 0, k <= zint(ix))), f'keys of {nm}')
def session_inv(ex, st, r):
    ix, ins, outs, _ = ctx_of(ex, st, r)
    return [('index in range', And(zint(ix) >= 0, zint(ix) <= UMAX)), ('keys of inputs', keys_below(ix, ins, 'inputs')), ('keys of outputs', keys_below(ix, outs, 'outputs'))]
def session_pre(ex, st, e):
    ix, ins, outs, _ = ctx_of(ex, st, e['self'])
    return session_inv(ex, st, e['self']) + [('fewer than 2^64-1 evaluations so far', zint(ix) < UMAX)]
def parse_fns(): return z3.Function('parse_ok', I, I, B), z3.Function('parse_value', I, I, I)
def parse_apply(ex, st, args):
    """assumed contract of ParserSettings::parse: some function of the settings and the text"""
    fn = parse.lookup(ex.prog); rt = fn.locals[0]; okf, val = parse_fns(); c = zint(adt.code(ex, st, args[0])); x = zint(adt.code(ex, st, args[1])); out = []
    a, b = ex.branch(st, okf(c, x))
    if a is not None: out.append((a, Agg(rt, vix(ex, rt, 'Ok'), (ObjV(val(c, x), ex.T[rt]['args'][0]),))))
    if b is not None: out.append((b, Agg(rt, vix(ex, rt, 'Err'), (ObjV(fresh('err'), ex.T[rt]['args'][1]),))))
    return out
parse = Ast('ParserSettings::parse', r'parser::parse::<impl .*ParserSettings>::parse$', ['self', 'text'], None, None, (), parse_apply)
DISPA = z3.Function('printed', I, I)
def disp_apply(ex, st, args):
    """contract of Display for AST: `printed` names the text it writes, a function of the tree"""
    v = adt.strip(ex, st, args[0])
    ex.oblige_pre(st, Not(is_a(ex, st, v, 'Program', 'Function')), 'precondition of Display for AST: not a program or a call', ex.where(st))
    text.emit(ex, st, args[1], adt.mk_text(st, DISPA(zint(adt.code(ex, st, v)))))
    fn = display_ast.lookup(ex.prog)
    return [(st, Agg(fn.locals[0], 0, (UNIT,)))]
class Display(Ast):
    def begin(s, ex, st, fn):
        v = ObjV(z3.Int('tree'), ex.T[fn.locals[1]]['elem']); m = ex.alloc(st, It('formatter', (), ('',)))
        return [Ref(v), m], {'tree': v, 'f&': m}
display_ast = Display('Display for AST', r'ast::traits::<impl std::fmt::Display for .*ast::AST>::fmt$', ['tree', 'f'], lambda ex, t, r, e: [('printing succeeds', ok(ex, t, r))],
                      lambda ex, st, e: [('not a program or a call', Not(is_a(ex, st, e['tree'], 'Program', 'Function')))], (theory.texts,), disp_apply)
def eval_post(ex, t, r, e):
    x = zint(scode(e['input'])); ix, ins, outs, ps = ctx_of(ex, t, e['self']); now = ex.mut_get(t, e['self&']); jx, jns, jouts, qs = ctx_of(ex, t, now)
    pok, pv = parse_fns(); eok, ev = eval_fns(); c = zint(adt.code(ex, t, ps)); tree = pv(c, x); good = z3.And(pok(c, x), eok(tree)); nx = zint(ix) + 1
    out = [('the index grows by one', conc(simp(zint(jx) == nx))), ('the parser settings are unchanged', adt.eqv(ex, t, ps, qs))]
    def m(nm, a, b, key, val):
        k = fresh('k')
        out.append((f'{nm}: the same keys' + (' and the new one' if key is not None else ''), z3.Select(b.dom, k) == (z3.Or(z3.Select(a.dom, k), k == key) if key is not None else z3.Select(a.dom, k))))
        out.append((f'{nm}: earlier records unchanged', z3.Implies(z3.And(z3.Select(a.dom, k), k != nx), z3.Select(b.val, k) == z3.Select(a.val, k))))
        if key is not None: out.append((f'{nm}: the new record', z3.Select(b.val, key) == val))
    m('inputs', ins, jns, nx, x)
    out.append(('succeeds exactly when parsing and evaluation do', good if ok(ex, t, r) else Not(good)))
    if ok(ex, t, r):
        m('outputs', outs, jouts, nx, ev(tree)); out.append(('the answer is the printed output', zint(scode(part(ex, t, r, 'Ok'))) == DISPA(ev(tree))))
    else: m('outputs', outs, jouts, None, None)
    return out
evaluate = Ast('Runner::evaluate', RUN % 'evaluate', ['self', 'input'], eval_post, session_pre)
def last_post(ex, t, r, e):
    ix, ins, outs, _ = ctx_of(ex, t, e['self']); has = z3.Select(outs.dom, zint(ix))
    if not ok(ex, t, r): return [('an error only when the last evaluation produced no output', Not(has))]
    return [('a value only when the last evaluation produced one', has), ('exactly that output', adt.eqv(ex, t, part(ex, t, r, 'Ok'), ObjV(z3.Select(outs.val, zint(ix)), outs.vty)))]
runner_last = Ast('Runner::last', RUN % 'last', ['self'], last_post, lambda ex, st, e: session_inv(ex, st, e['self']))
def default_post(ex, t, r, e):
    ix, ins, outs, _ = ctx_of(ex, t, r); k = fresh('k')
    return [('index 0', conc(simp(zint(ix) == 0))), ('no inputs', Not(z3.Select(ins.dom, k))), ('no outputs', Not(z3.Select(outs.dom, k)))]
runner_default = Ast('Runner::default', r'evaluate::traits::<impl std::default::Default for .*Runner>::default$', [], default_post)

# ------------------------------------------------------------------ C21: printing of operator calls
EXPR = z3.Function('expression', I, B)
GROUPS = {'+': 'Plus', '-': 'Minus', '*': 'Multiply', '/': 'Divide', '^': 'Power'}     # rules of the grammar by spelling
def parser_table(ex):
    """spelling -> (precedence, associativity) of the parser, from the constant OPERATORS of the current tree"""
    c = ex.prog.consts.get('sm_ast::parser::OPERATORS')
    if c is None: raise Unsupported('constant OPERATORS not found')
    v = adt.strip(ex, State(), ex.const(c)); out = {}
    if not isinstance(v, SeqC): raise Unsupported('OPERATORS is not a literal table')
    nm = lambda q: ex.T[q.ty]['variants'][q.var]['name']
    for x in v.xs:
        x = adt.strip(ex, State(), x)
        for sp, r in GROUPS.items():
            if r == nm(x.fs[0]): out.setdefault(sp, (x.fs[1], nm(x.fs[2])))
    if len(out) != len(GROUPS): raise Unsupported('OPERATORS does not list every operator')
    return out
def binds(tab, o, q, first, last):
    """an operand `.. q ..` of operator o, written without parentheses, is read back with the same value"""
    (po, ao), (pq, _) = tab[o], tab[q]
    if pq > po: return True
    if pq == po and (first if ao == 'Left' else last) is True: return True
    return (o, q) in (('+', '+'), ('+', '-'), ('*', '*')) and pq == po and ao == 'Left' or (o, q) == ('/', '*') and first is True and pq < po and tab['*'][1] == 'Left'
def node(ex, st, v):
    """(function?, kind, spelling by fixity, printing precedence, argument lists) of a tree"""
    s = part(ex, st, v, 'Function', 0); k = part(ex, st, s, None, 'kind')
    return is_a(ex, st, v, 'Function'), k, part(ex, st, v, 'Function', 1)
def shallow(ex, st, v):
    """the node itself is one of an expression: an integer, a symbol, or an operator call with the data of its operator"""
    f, k, ps = node(ex, st, v); p0 = item(ex, st, ps, 0); args = part(ex, st, p0, None, 'arguments'); n = zint(length(args)); opts = part(ex, st, p0, None, 'options')
    def sp(nm): return part(ex, st, k, nm, 0)
    ks = And(is_a(ex, st, k, 'Prefix'), text_is(sp('Prefix'), *PREFIX), conc(simp(n == 1)))
    ss = And(is_a(ex, st, k, 'Suffix'), text_is(sp('Suffix'), *SUFFIX), conc(simp(n == 1)))
    i = sp('Infix'); pr = part(ex, st, k, 'Infix', 1)
    ins = And(is_a(ex, st, k, 'Infix'), Or(*[And(text_is(i, o), conc(simp(zint(pr) == INFIX[o][1])), conc(simp(n >= 2)) if o in '+*' else conc(simp(n == 2))) for o in GROUPS]))
    return Or(is_a(ex, st, v, 'Integer', 'Symbol'), And(f, conc(simp(zint(length(ps)) == 1)), empty_map(ex, st, opts), Or(ks, ss, ins)))
def empty_map(ex, st, m):
    m = adt.strip(ex, st, m)
    if isinstance(m, ObjV): return conc(simp(adt.OBJLEN(zint(m.e)) == 0))
    raise Unsupported('options of a call')
def operands(ex, st, v):
    return part(ex, st, item(ex, st, part(ex, st, v, 'Function', 1), 0), None, 'arguments')
def expr_pre(ex, st, e):
    v = e['tree']; s = State(); args = operands(ex, s, v); k = fresh('k'); a = ObjV(z3.Select(args.arr, k), v.ty)
    return [('an expression', shallow(ex, s, v)), ('of expressions', FA(k, z3.Implies(z3.And(0 <= k, k < zint(args.len)), z3.And(zbool(shallow(ex, s, a)), EXPR(a.e))), 'operands'))]
def piece(ex, st, tab, v, o, k, n, x):
    """x is operand v of infix operator o at position k of n, in parentheses unless it need not have them"""
    f, kd, ps = node(ex, st, v); q = part(ex, st, kd, 'Infix', 0); d = DISPA(zint(v.e))
    first, last = simp(zint(k) == 0), simp(zint(k) == zint(n) - 1); alts = []
    for a in GROUPS:
        for b in GROUPS:
            for fi in (True, False):
                for la in (True, False):
                    if binds(tab, a, b, fi, la): alts.append(z3.And(zbool(text_is(o, a)), zbool(text_is(q, b)), zbool(first) == fi, zbool(last) == la))
    free = z3.Or(z3.Not(zbool(And(f, is_a(ex, st, kd, 'Infix')))), *alts)
    return z3.Or(z3.And(zint(x) == d, free), zint(x) == scode_of(st, paren(st, d)))
def paren(st, d): return text.cat(st, text.cat(st, '(', adt.mk_text(st, d)), ')')
def scode_of(st, v): return zint(scode(v))
def expr_post(ex, t, r, e):
    v = e['tree']; w = ex.mut_get(t, e['f&']); x = w.subs[0]; tab = parser_table(ex); f, kd, ps = node(ex, t, v); args = operands(ex, t, v); s = t.copy(); c = zint(scode(x))
    out = [('printing succeeds', ok(ex, t, r))]; isop = lambda nm: And(f, is_a(ex, t, kd, nm))
    out.append(('an integer in decimal', Implies(is_a(ex, t, v, 'Integer'), c == DEC(zint(part(ex, t, v, 'Integer'))))))
    a0 = ObjV(z3.Select(args.arr, 0), v.ty); d0 = adt.mk_text(t, DISPA(a0.e)); p0 = paren(t, DISPA(a0.e)); g, k0, _ = node(ex, t, a0)
    pre, suf, inf = (part(ex, t, kd, q, 0) for q in ('Prefix', 'Suffix', 'Infix'))
    bare = Or(is_a(ex, t, a0, 'Symbol'), And(is_a(ex, t, a0, 'Integer'), conc(simp(zint(part(ex, t, a0, 'Integer')) >= 0))), And(g, is_a(ex, t, k0, 'Suffix'), text_is(part(ex, t, k0, 'Suffix', 0), '!!')))
    txt = lambda *q: zint(scode(cats(t, *q)))
    out.append(('prefix operator before its operand, an infix call in parentheses', Implies(isop('Prefix'), z3.Or(z3.And(c == txt(pre, d0), z3.Not(zbool(And(g, is_a(ex, t, k0, 'Infix'))))), c == txt(pre, p0)))))
    out.append(('suffix operator after its operand, in parentheses unless it binds as tightly', Implies(isop('Suffix'), z3.Or(z3.And(c == txt(d0, suf), zbool(bare)), c == txt(p0, suf)))))
    c = as_join(ex, t, c, args, inf)
    if z3.is_app(c) and c.decl().name() == 'join':
        sep, arr, off, n = c.children(); k = fresh('k'); u = t.copy(); u.add(k >= 0, k < n); ak = ObjV(z3.Select(args.arr, k), v.ty)
        out += [('infix operator between its operands', Implies(isop('Infix'), sep == zint(scode(inf)))), ('every operand once', Implies(isop('Infix'), n == zint(args.len)))]
        out.append(('operands in order, in parentheses unless they bind the same way', Implies(isop('Infix'), piece(ex, u, tab, ak, inf, k, zint(args.len), z3.Select(arr, simp(off + k)))), u))
    else:
        a1 = ObjV(z3.Select(args.arr, 1), v.ty); d1 = adt.mk_text(t, DISPA(a1.e)); p1 = paren(t, DISPA(a1.e)); alts = []
        for y0 in (d0, p0):
            for y1 in (d1, p1):
                alts.append(z3.And(c == txt(y0, inf, y1), piece(ex, t, tab, a0, inf, 0, 2, zint(scode(y0))), piece(ex, t, tab, a1, inf, 1, 2, zint(scode(y1)))))
        out.append(('both operands around the infix operator, in parentheses unless they bind the same way', Implies(isop('Infix'), z3.And(zint(args.len) == 2, z3.Or(*alts)))))
    return out
def as_join(ex, t, c, args, inf):
    """the text c, or the join of all operands' pieces it is provably equal to (when a loop wrote it)"""
    if not z3.is_const(c) or z3.is_int_value(c): return c
    done = []
    for x in subterms([f for f in t.facts if not isinstance(f, FA)], 'join'):
        a, o = x.arg(1), x.arg(2)
        if any(a.eq(p) and o.eq(q) for p, q in done): continue
        done.append((a, o)); j = JOIN(zint(scode(inf)), a, o, zint(args.len))
        if len(done) < 9 and ex.prover.cand(t.facts, c == j, [theory.texts]): return j
    return c
def subterms(es, name=None):
    out = []; seen = set(); todo = list(es)
    while todo:
        e = todo.pop()
        if e.get_id() in seen or not z3.is_app(e): continue
        seen.add(e.get_id()); todo += e.children()
        if name is None or e.decl().name() == name: out.append(e)
    return out
def cats(st, *q):
    r = ''
    for x in q: r = text.cat(st, r, x)
    return r
def descends(e, root):
    """the code e is that of a proper part of the value `root`"""
    n = 0
    while not z3.is_const(e) or z3.is_int_value(e):
        if not z3.is_app(e) or e.num_args() == 0: return False
        d = e.decl().name()
        if d.startswith('fld_'): n += 1; e = e.arg(0)
        elif z3.is_select(e) and e.arg(0).num_args() == 1 and e.arg(0).decl().name() in ('seqa', 'mkeys', 'mvals'): n += 1; e = e.arg(0).arg(0)
        else: return False
    return n > 0 and e.eq(root)
def expr_apply(ex, st, args):
    """contract of Display for AST on expressions: `printed` names the text it writes"""
    v = adt.strip(ex, st, args[0]); c = adt.code(ex, st, v)
    if not descends(zint(c), zint(printing.tree.e)): raise Unsupported('printing of something that is not a part of the tree')
    ex.oblige_pre(st, EXPR(zint(c)), 'precondition of Display for AST: an expression', ex.where(st))
    text.emit(ex, st, args[1], adt.mk_text(st, DISPA(zint(c))))
    return [(st, Agg(display_expr.lookup(ex.prog).locals[0], 0, (UNIT,)))]
class Printing(theory.Theory):
    """invariant candidates of a loop that collects printed operands"""
    name = 'printing'
    def candidates(s, ctx):
        ex = ctx.ex; v = s.tree; out = []
        if v is None: return out
        sc = State(); args = operands(ex, sc, v); tab = parser_table(ex); inf = part(ex, sc, part(ex, sc, part(ex, sc, v, 'Function', 0), None, 'kind'), 'Infix', 0); k = fresh('k'); ak = ObjV(z3.Select(args.arr, k), v.ty)
        import exec as X
        cnt = [(repr(r), r.get) for r in ctx.ints if r.hav and r.kind in 'mcu']
        for q in ctx.seqs:
            z = q.get(ctx.shape.head)
            if not q.hav or z.ety is None or not adt.is_string(ex, ex.prog.strip_ref(z.ety)): continue
            def f(vw, q=q):
                z = q.get(vw)
                if isinstance(z, SeqC): z = seq_to_z(z)
                return FA(k, z3.Implies(z3.And(0 <= k, k < zint(z.len)), piece(ex, sc, tab, ak, inf, k, zint(args.len), z3.Select(z.arr, simp(zint(z.off) + k)))), 'printed operands')
            out.append(X.Cand(f'printed operands {q!r}', f))
            out.append(X.Cand(f'as many pieces as operands {q!r}', lambda vw, q=q: conc(simp(zint(length(q.get(vw))) <= zint(args.len)))))
            for nm, g in cnt: out.append(X.Cand(f'a piece per step {q!r} {nm}', lambda vw, q=q, g=g: conc(simp(zint(length(q.get(vw))) == zint(g(vw))))))
        return out
    tree = None
printing = Printing()
class DisplayExpr(Display):
    def begin(s, ex, st, fn):
        args, env = Display.begin(s, ex, st, fn); printing.tree = env['tree']; st.add(EXPR(env['tree'].e))
        return args, env
display_expr = DisplayExpr('Display for AST (operator calls)', r'ast::traits::<impl std::fmt::Display for .*ast::AST>::fmt$', ['tree', 'f'], expr_post, expr_pre, (printing, theory.texts), expr_apply)

# ------------------------------------------------------------------ C23: the Wolfram export
EXPORT = z3.Function('exported', I, I)          # tree -> its export
HEADW = z3.Function('exported_head', I, I, I)   # tree, k -> the export of the call with its first k argument lists
LISTW = z3.Function('exported_list', I, I, I)   # tree, k -> what argument list k contributes: its arguments in order, then a rule per option
ELEMW = z3.Function('exported_item', I, I, I, I); DIFFW = z3.Function('differs_at', I, I, I)
def T_WV(ex): return ty_of(ex, 'wolfram_wxf::WolframValue')
def exported_seq(ex, st, a, wty):
    if isinstance(a, SeqC): return SeqC([ObjV(EXPORT(zint(adt.code(ex, st, x))), wty) for x in a.xs], wty)
    r = fresh('exports', A); j = fresh('j')
    st.add(FA(j, z3.Implies(z3.And(0 <= j, j < zint(a.len)), z3.Select(r, j) == EXPORT(z3.Select(a.arr, zint(simp(zint(a.off) + j))))), 'exports'))
    return SeqZ(r, 0, a.len, wty)
def export_apply(ex, st, args):
    """contract of the export: a function of the tree, applied to parts of the tree (induction over trees)"""
    v = adt.strip(ex, st, args[0]); c = zint(adt.code(ex, st, v))
    if not descends(c, z3.Int('self')): raise Unsupported('export of something that is not a part of the tree')
    return [(st, ObjV(EXPORT(c), T_WV(ex)))]
def wv(ex, st, nm, *fs): return zint(adt.code(ex, st, Agg(T_WV(ex), vix(ex, T_WV(ex), nm), fs)))
def lists(ex, st, v): return part(ex, st, v, 'Function', 1)
def list_at(ex, st, v, k):
    ps = lists(ex, st, v); p = adt.lift(ex, st, z3.Select(ps.arr, zint(simp(zint(ps.off) + k))), ps.ety)
    return part(ex, st, p, None, 'arguments'), part(ex, st, p, None, 'options')
def call_head(ex, st, v):
    nm = part(ex, st, part(ex, st, v, 'Function', 0), None, 'name'); c = zint(scode(nm))
    return z3.If(c == lit_code('factor'), zint(lit_code('FactorInteger')), CAPF(c))
class Exporting(theory.Theory):
    """the export of a call, list by list; sequences with the same items have the same code"""
    name = 'exporting'; tree = None; ex = None
    def head0(s, st): return wv(s.ex, st, 'Symbol', BoxV(StrV(call_head(s.ex, st, s.tree))))
    def rule(s, st, k, x):
        ty = T_WV(s.ex)
        return wv(s.ex, st, 'Function', ObjV(wv(s.ex, st, 'Symbol', BoxV('Rule')), ty), SeqC([ObjV(EXPORT(k), ty), ObjV(EXPORT(x), ty)], ty))
    def size(s, st, k):
        a, o = list_at(s.ex, st, s.tree, k); return zint(a.len), adt.OBJLEN(zint(o.e))
    def lemmas(s, A_, facts, goal):
        if s.tree is None: return
        st = State(); t = zint(s.tree.e); n = zint(lists(s.ex, st, s.tree).len); ks = []
        def out(nm, g):
            fs = [f for f in st.facts if not isinstance(f, FA)]; st.facts.clear()
            return nm, z3.And(g, *fs)
        for tr, k in theory.args_of(A_, 'exported_head'):
            if not tr.eq(t): continue
            yield out('exported_head_0', z3.Implies(k == 0, HEADW(t, k) == s.head0(st)))
            j = zint(simp(k - 1)); ks.append(j); c = con_of(s.ex, 'Function')(HEADW(t, j), LISTW(t, j))
            yield out('exported_head_step', z3.Implies(z3.And(k >= 1, k <= n), HEADW(t, k) == c))
        for tr, k in theory.args_of(A_, 'exported_list'):
            if tr.eq(t) and all(not k.eq(q) for q in ks): ks.append(k)
        for k in ks:
            na, no = s.size(st, k)
            for a, o, m in theory.args_of(A_, 'cseq'):
                d = DIFFW(CSEQ(a, o, m), LISTW(t, k))
                yield out('exported_list_items', z3.Implies(z3.And(m == na + no, z3.Implies(z3.And(0 <= d, d < m), z3.Select(a, zint(simp(o + d))) == ELEMW(t, k, d))), CSEQ(a, o, m) == LISTW(t, k)))
        for tr, k, j in theory.args_of(A_, 'exported_item'):
            if not tr.eq(t): continue
            (a, o), (na, no) = list_at(s.ex, st, s.tree, k), s.size(st, k); i = zint(simp(j - na))
            yield out('exported_item', z3.And(z3.Implies(z3.And(0 <= j, j < na), ELEMW(t, k, j) == EXPORT(z3.Select(a.arr, zint(simp(zint(a.off) + j))))),
                                              z3.Implies(z3.And(na <= j, j < na + no), ELEMW(t, k, j) == s.rule(st, z3.Select(MKEYS(zint(o.e)), i), z3.Select(MVALS(zint(o.e)), i)))))
    def candidates(s, ctx):
        import exec as X
        out = []; ex = ctx.ex
        if s.tree is None: return out
        t = zint(s.tree.e); wty = T_WV(ex); sc = State()
        def index(r):          # a counter of this or of an enclosing loop, not a code or a length
            v = r.get(ctx.shape.head)
            return is_int(v) and not (isinstance(v, z3.ExprRef) and any(z3.is_app(q) and q.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) and q.num_args() for q in subterms([v])))
        cnt = [(repr(r), r.get) for r in ctx.ints if r.hav and r.kind in 'mcu']; cur = [(repr(r), r.get) for r in ctx.ints if r.kind in 'mcu' and index(r)]; acc = []
        for r, val in ctx.shape.head.items():
            for p_, x_, ty in ctx.loop.walk(val, ex.root_ty(ctx.loop.st0, r) if r[0] == 'L' else None):
                if isinstance(x_, ObjV) and x_.ty == wty and any(rr == r and pp[:len(p_)] == p_ for rr, pp in ctx.shape.hav): acc.append((r, p_))
        for r, p_ in acc:
            def get(vw, r=r, p_=p_):
                q = vw[r]
                for i_ in p_: q = q.kids()[i_]
                return zint(q.e) if isinstance(q, ObjV) else None
            for nm, g in cnt:
                def f(vw, get=get, g=g):
                    e, k = get(vw), g(vw)
                    return None if e is None or not is_int(k) else conc(e == HEADW(t, zint(k)))
                out.append(X.Cand(f'head of the first {nm} lists {r[-1]}{p_}', f))
        for q in ctx.seqs:
            z = q.get(ctx.shape.head)
            if not q.hav or z.ety != wty: continue
            for nm, g in cur:
                for dl in (0, -1):
                    def f(vw, q=q, g=g, dl=dl):
                        z = q.get(vw); z = seq_to_z(z) if isinstance(z, SeqC) else z; j = fresh('j'); k = zint(simp(zint(g(vw)) + dl))
                        return FA(j, z3.Implies(z3.And(0 <= j, j < zint(z.len)), z3.Select(z.arr, zint(simp(zint(z.off) + j))) == ELEMW(t, k, j)), 'exported items')
                    out.append(X.Cand(f'items of list {nm}{dl:+d} {q!r}', f))
                    def g2(vw, q=q, g=g, dl=dl):
                        k = zint(simp(zint(g(vw)) + dl)); na, no = s.size(sc, k)
                        return conc(simp(z3.And(zint(length(q.get(vw))) >= na, zint(length(q.get(vw))) <= na + no)))
                    out.append(X.Cand(f'size of list {nm}{dl:+d} {q!r}', g2))
            for nm, g in cnt:
                out.append(X.Cand(f'an item per step {q!r} {nm}', lambda vw, q=q, g=g: conc(simp(zint(length(q.get(vw))) == zint(g(vw))))))
                for nm2, g2_ in cur:
                    for dl in (0, -1):
                        def h(vw, q=q, g=g, g2_=g2_, dl=dl):
                            na, no = s.size(sc, zint(simp(zint(g2_(vw)) + dl)))
                            return conc(simp(zint(length(q.get(vw))) == na + zint(g(vw))))
                        out.append(X.Cand(f'an item per step after the arguments {q!r} {nm} {nm2}{dl:+d}', h))
        return out
exporting = Exporting()
def con_of(ex, nm):
    ty = T_WV(ex); k = vix(ex, ty, nm); return adt.con_f(ty, k, len(ex.T[ty]['variants'][k]['fields']))
class ExportC(Ast):
    def begin(s, ex, st, fn):
        args, env = Ast.begin(s, ex, st, fn); exporting.tree = env['self']; exporting.ex = ex
        return args, env
def export_post(ex, t, r, e):
    v = e['self']; r = ObjV(adt.code(ex, t, r), T_WV(ex)); out = []
    def case(nm, what, f):
        g = is_a(ex, t, v, nm)
        if g is False: return
        for w, q in f(): out.append((f'{what}{w}', Implies(g, q)))
    eq = lambda a, b: conc(simp(zint(scode(adt.strip(ex, t, a))) == zint(scode(adt.strip(ex, t, b)))))
    lit = lambda wk, x: [(': its kind', is_a(ex, t, r, wk)), (': its value', eq(part(ex, t, r, wk), x))]
    case('EmptyStatement', 'an empty statement is skipped', lambda: [('', is_a(ex, t, r, 'Skip'))])
    case('Boolean', 'a boolean', lambda: [(': its kind', is_a(ex, t, r, 'Symbol')), (': its value', Implies(part(ex, t, v, 'Boolean'), text_is(part(ex, t, r, 'Symbol'), 'True'))), (': its value, false', Or(part(ex, t, v, 'Boolean'), text_is(part(ex, t, r, 'Symbol'), 'False')))])
    case('Integer', 'an integer', lambda: [(': its kind', is_a(ex, t, r, 'BigInteger')), (': its value', conc(simp(zint(part(ex, t, r, 'BigInteger')) == zint(part(ex, t, v, 'Integer')))))])
    def dec():
        d = part(ex, t, v, 'Decimal'); (u, x), = text.display(ex, t, d, d.ty)
        return lit('BigDecimal', x)
    case('Decimal', 'a decimal', dec)
    case('Symbol', 'a symbol', lambda: lit('Symbol', part(ex, t, part(ex, t, v, 'Symbol'), None, 'name')))
    case('String', 'a string', lambda: lit('String', part(ex, t, v, 'String')))
    def prog():
        xs = part(ex, t, v, 'Program'); hd = part(ex, t, r, 'Function', 0); ys = part(ex, t, r, 'Function', 1); k = fresh('k')
        return [(': its kind', is_a(ex, t, r, 'Function')), (': its head', And(is_a(ex, t, hd, 'Symbol'), text_is(part(ex, t, hd, 'Symbol'), 'CompoundExpression'))), (': every statement', conc(simp(zint(ys.len) == zint(xs.len)))),
                (': the statements in order', z3.Implies(z3.And(0 <= k, k < zint(xs.len)), z3.Select(ys.arr, zint(simp(zint(ys.off) + k))) == EXPORT(z3.Select(xs.arr, zint(simp(zint(xs.off) + k))))))]
    case('Program', 'a program', prog)
    case('Function', 'a call: its head, then per list every argument in order and every option as a rule', lambda: [('', r.e == HEADW(zint(v.e), zint(lists(ex, t, v).len)))])
    return out
export = ExportC('ToWolfram for AST', r'traits::wolfram::<impl wolfram_wxf::ToWolfram for .*ast::AST>::to_wolfram$', ['self'], export_post, None, (exporting, theory.texts), export_apply)

ENTRY = {'C14': [prefix_map, suffix_map, infix_map, operators], 'C15': [forward_arith], 'C16': [first, last, length_, forward_str], 'C17': [forward_total],
         'C18': [runner_default, evaluate, runner_last, forward_total, display_ast], 'C19': [from_algorithm, ast_factorial, ast_fibonacci, ast_prime_sum, forward_num],
         'C20': [symbol_from, symbol_from_string], 'C21': [prefix_map, suffix_map, infix_map, display_expr], 'C23': [export]}
def callee_contracts(prog, prop):
    """contracts used in place of bodies at call sites, by function"""
    out = {}
    if prop in ('C18', 'C21', 'C23'):
        for c in (forward_total, parse, display_ast) if prop == 'C18' else (display_expr,) if prop == 'C21' else (export,):
            f = c.lookup(prog)
            if f is not None: out[short(f.id)] = c
    for c in parse_contracts.CALLEES.get(prop, ()):
        f = c.lookup(prog)
        if f is not None: out[short(f.id)] = c
    return out
import parse_contracts
ENTRY.update(parse_contracts.ENTRY)
