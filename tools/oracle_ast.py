"""Independent oracle and input generator for the compiled real functions of sm_ast (replay side; nothing is proved here)."""
import itertools, random, re, time
from oracle import Real, U64
import oracle

def hx(s): return s.encode().hex()
def un(h): return bytes.fromhex(h).decode()
PREFIX = {'+': 'plus', '-': 'minus', '*': 'unpack', '!': 'not'}
SUFFIX = {'!': 'factorial', '!!': 'factorial2'}
INFIX = {'+': ('add', 80), '-': ('subtract', 80), '*': ('times', 140), '/': ('divide', 140), '//': ('quotient', 140), '^': ('power', 150)}
ARITH = ('add', 'plus', 'times', 'power'); STRS = ('first', 'last', 'length'); NUMS = ('factorial', 'fibonacci'); KNOWN = ARITH + STRS + NUMS
ERR = {'OverFlow': 'Overflow', 'ComplexInfinity': 'ComplexInfinity', 'IOError': 'IOError', 'Unimplemented': 'Unimplemented', 'Indeterminate': 'Unknown', 'Undefined': 'Unknown'}

# ---------------------------------------------------------------- trees
def T(x):
    """literal of a tree given as nested tuples"""
    k = x[0]
    if k == 'e': return k
    if k == 'p': return 'p[' + ''.join(T(a) for a in (x[1] if len(x) > 1 else ())) + ']'
    if k == 'b': return f'b{x[1]}'
    if k in ('i', 'd'): return f'{k}{x[1]}.'
    if k in ('y', 's'): return f'{k}{hx(x[1])}.'
    return f"f{x[1]}{hx(x[2])}.(" + ''.join('[' + ''.join(T(a) for a in l) + ('{' + ''.join(T(a) for a in o) + '}' if o else '') + ']' for l, o in zip(x[3], options(x))) + ')'
def options(x):
    """the options of each argument list of a call: name, value, name, value, ..; x[4]: the same for every list, x[5]: list by list"""
    return x[5] if len(x) > 5 else [x[4] if len(x) > 4 else ()] * len(x[3])
def fn(name, *lists): return ('f', 'n', name, lists)
def printed(s):
    """Rust's Debug of a text made of ordinary characters"""
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\t', '\\t').replace('\r', '\\r') + '"'

def check_eval(t, o):
    if o.startswith('panic'): return 'evaluation crashed: ' + o[:200]
    if o.startswith(('crash', 'timeout')): return o
    kept, same, r = o.split(' ', 2)
    if kept != 'kept': return 'evaluation changed the session context'
    err = r.startswith('err'); k = t[0]
    if k in 'ebidys' and k != 'f': return None if r == 'ok ' + T(t) and same == 'same' else 'an atom does not evaluate to itself'
    if k == 'p': return None
    name, ls = t[2], t[3]
    if t[1] == 'i': name = 'std::infix::' + INFIX.get(name, (name,))[0]
    if t[1] == 'p': name = 'std::prefix::' + PREFIX[name]
    if t[1] == 's': name = 'std::suffix::' + SUFFIX[name]
    if len(ls) == 0: return None if r == 'ok ' + T(('y', name)) and same == 'same' else 'a bare name does not evaluate to itself'
    if len(ls) > 1: return None if err else 'a value for several argument lists'
    a = ls[0]; name = name.split('::')[-1]
    if name not in KNOWN: return None if err else 'a value for an unknown function'
    if not a: return None if err else 'a value for a call without arguments'
    if name in ARITH:
        if len(a) != 2 or any(q[0] != 'i' for q in a): return None if err else 'a value for operands that are not two integers'
        x, y = a[0][1], a[1][1]
        if name == 'power':
            if y < 0 or y > U64: return None if err else 'a value for an exponent that is negative or beyond a machine word'
            e = x ** y if abs(x) > 1 else (1 if y == 0 or x == 1 else 0 if x == 0 else (1 if y % 2 == 0 else -1))
        else: e = x * y if name == 'times' else x + y
        return None if r == f'ok i{e}.' else 'wrong value'
    if len(a) != 1: return None
    if name in STRS:
        if a[0][0] != 's': return None if err else 'a value for an operand that is not a string'
        return check_str(name, a[0][1], r)
    if a[0][0] == 'i': return check_num(name, a[0][1], r)
    if a[0][0] == 'd': return None
    return None if err else 'a value for an operand that is not a number'
def check_str(name, s, r):
    if name == 'length': return None if r == f'ok i{len(s)}.' else 'not the number of characters'
    if not s: return None if r == 'err EmptyContainer' else 'not an empty-container error'
    return None if r == 'ok ' + T(('s', s[0] if name == 'first' else s[-1])) else f'not the {name} character'
def algorithm(name, n):
    cmd = {'factorial': 'factorial_i', 'fibonacci': 'fibonacci_i', 'prime_sum': 'prime_sum_i'}[name]
    if cmd == 'factorial_i': return 'err ComplexInfinity' if n < 0 else 'err Overflow' if n > oracle.IMAX else f'ok i{oracle.fact(n)}.'
    if not oracle.IMIN <= n <= oracle.IMAX: return 'err Overflow'
    return f'ok i{oracle.fib(abs(n)) * (-1 if n < 0 and n % 2 == 0 else 1)}.'
ANSWERS = {}     # (name, n) -> what the real algorithm says, as the evaluator must report it
def check_num(name, n, r):
    e = ANSWERS.get((name, n))
    if e is None: return None
    return None if r == e else f'the algorithm answers {e[:80]}'
def expected(o):
    """the evaluator's form of an algorithm's answer"""
    return o if o.startswith('ok') else 'err ' + ERR[o.split(' ')[1]]

def check(cmd, a, o, prop=None):
    if cmd == 'eval': return check_eval(a[0], o)
    if o.startswith(('crash', 'timeout')): return o
    if o.startswith('panic'): return 'crashed: ' + o[:200]
    if cmd == 'op':
        k, s = a; nm, ns, kd = [un(q) for q in (o.split(' ') + ['', ''])[:3]]
        space = {'p': 'prefix', 'i': 'infix', 's': 'suffix'}[k]
        e = PREFIX[s] if k == 'p' else SUFFIX[s] if k == 's' else INFIX.get(s, (s, 170))[0]
        if nm != e: return f'function name {nm!r} instead of {e!r}'
        if ns != 'std\x01' + space: return f'name space {ns!r}'
        w = {'p': f'Prefix({printed(s)})', 's': f'Suffix({printed(s)})', 'i': f'Infix({printed(s)}, {INFIX.get(s, (s, 170))[1]})'}[k]
        return None if kd == w else f'kind {kd} instead of {w}'
    if cmd == 'prec':
        p = dict(x.split(':') for x in o.split(' ')); p = {k: int(v) for k, v in p.items()}
        try: good = p['Plus'] == p['Minus'] < min(p['Multiply'], p['Divide']) and max(p['Multiply'], p['Divide']) < p['Power']
        except KeyError: return 'an operator is missing from the precedence table'
        return None if good else 'parser precedence out of order'
    if cmd == 'sym':
        s = a[0]; nm, n, ns, tx = o.split(' ', 3); parts = s.split('::')
        if un(tx) != s: return f'printing gives {un(tx)!r}'
        if un(nm) != parts[-1]: return f'name {un(nm)!r}'
        if int(n) != len(parts) - 1 or (parts[:-1] and un(ns).split('\x01') != parts[:-1]): return f'name space {un(ns)!r}'
        return None
    if cmd == 'call':
        name, t = a
        if name in STRS: return check_str(name, t[1], o) if t[0] == 's' else None if o.startswith('err') else 'a value for an operand that is not a string'
        return check_num(name, t[1], o) if t[0] == 'i' else None
    if cmd == 'alg': return None
    if cmd == 'show': return check_show(a[0], o)
    if cmd == 'wolf': return None if same_export(o, a[0]) else 'the export is not the tree'
    if cmd == 'error':
        e = 'err ' + ERR[a[0]] + (' ' + hx(a[1]) if a[0] == 'IOError' else '')
        return None if o.strip() == e.strip() else f'{a[0]} arrives as {o}'
    if cmd == 'parse': return None if o == 'ok ' + a[1] else 'not the tree that the text stands for: ' + a[1][:300]
    if cmd == 'session': return check_session(a[0], o)
    raise KeyError(cmd)
# ---------------------------------------------------------------- printing and reading back
M = (1 << 61) - 1
def mix(*a):
    import hashlib
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=12).digest(), 'big') % M
def value(name, xs):
    """the value of an operator call in a field where nothing is known about powers, factorials and the like"""
    if name == 'std::infix::add': return sum(xs) % M
    if name == 'std::infix::times':
        r = 1
        for x in xs: r = r * x % M
        return r
    if name == 'std::infix::subtract': return (xs[0] - sum(xs[1:])) % M
    if name == 'std::infix::divide':
        r = xs[0]
        for x in xs[1:]: r = r * pow(x, M - 2, M) % M
        return r
    if name == 'std::prefix::minus': return -xs[0] % M
    return mix(name, *xs)
def meaning(t):
    if t[0] == 'i': return t[1] % M
    if t[0] == 'y': return mix('symbol', t[1])
    k, op = t[1], t[2]
    nm = {'p': PREFIX, 's': SUFFIX}[k][op] if k != 'i' else INFIX[op][0]
    return value('std::' + {'p': 'prefix', 'i': 'infix', 's': 'suffix'}[k] + '::' + nm, [meaning(a) for a in t[3][0]])
def read_lit(s):
    """meaning of the shallow literal the replay driver prints"""
    i = 0
    def word(end):
        nonlocal i
        j = s.index(end, i); w = s[i:j]; i = j + 1
        return w
    def go():
        nonlocal i
        c = s[i]; i += 1
        if c == 'i': return int(word('.')) % M
        if c == 'y': return mix('symbol', un(word('.')))
        if c != 'f': raise ValueError(c)
        nm = un(word('(')); ls = []
        while s[i] == '[':
            i += 1; xs = []
            while s[i] != ']': xs.append(go())
            i += 1; ls.append(xs)
        i += 1
        if len(ls) != 1: raise ValueError('lists')
        return value(nm, ls[0])
    r = go()
    if i != len(s): raise ValueError('rest')
    return r
def check_show(t, o):
    tx, back = o.split(' ', 1); tx = un(tx)
    if not back.startswith('ok '): return f'prints as {tx!r}, which does not read back ({back[:60]})'
    try: v = read_lit(back[3:])
    except (ValueError, IndexError, KeyError): return f'prints as {tx!r}, which reads back as something else ({back[3:120]})'
    return None if v == meaning(t) else f'prints as {tx!r}, which has another value'
OPS = '+-*/^'
def etrees(depth, atoms):
    """all expression trees over the given atoms, by depth"""
    cur = list(atoms)
    for _ in range(depth):
        nx = list(atoms)
        nx += [('f', 'p', o, ((a,),)) for o in PREFIX for a in cur] + [('f', 's', o, ((a,),)) for o in SUFFIX for a in cur]
        nx += [('f', 'i', o, ((a, b),)) for o in OPS for a in cur for b in cur]
        cur = nx
    return cur
def retree(R, d):
    if d == 0 or R.random() < .15: return R.choice((('i', 0), ('i', 1), ('i', 2), ('i', -1), ('i', -7), ('i', oracle.rint(R)), ('y', 'x'), ('y', 'y'), ('y', 'a::b'), ('y', 'T9_')))
    k = R.random()
    if k < .15: return ('f', 'p', R.choice(list(PREFIX)), ((retree(R, d - 1),),))
    if k < .3: return ('f', 's', R.choice(list(SUFFIX)), ((retree(R, d - 1),),))
    o = R.choice(OPS); n = 2 if o in '-/^' or R.random() < .8 else R.randint(3, 5)
    return ('f', 'i', o, (tuple(retree(R, d - 1) for _ in range(n)),))
# ---------------------------------------------------------------- the Wolfram export
def read_wolf(s):
    """the exported value as nested tuples"""
    i = 0
    def go():
        nonlocal i
        c = s[i]; i += 1
        if c == 'k': return ('k',)
        if c in 'idys':
            j = s.index('.', i); w = s[i:j]; i = j + 1
            return (c, int(w) if c == 'i' else un(w))
        if c != 'F': raise ValueError(c)
        h = go(); i += 1; xs = []
        while s[i] != ']': xs.append(go())
        i += 1
        return ('F', h, xs)
    r = go()
    if i != len(s): raise ValueError('rest')
    return r
def export_of(t):
    k = t[0]
    if k == 'e': return ('k',)
    if k == 'b': return ('y', 'True' if t[1] else 'False')
    if k == 'i': return ('i', t[1])
    if k == 'd': return ('d', str(t[1]))
    if k == 'y': return ('y', t[1].split('::')[-1])
    if k == 's': return ('s', t[1])
    if k == 'p': return ('F', ('y', 'CompoundExpression'), [export_of(q) for q in (t[1] if len(t) > 1 else ())])
    n = t[2]
    if t[1] == 'i': n = INFIX.get(n, (n,))[0]
    elif t[1] == 'p': n = PREFIX[n]
    elif t[1] == 's': n = SUFFIX[n]
    n = n.split('::')[-1]
    h = ('y', 'FactorInteger' if n == 'factor' else n[:1].upper() + n[1:])
    for l, o in zip(t[3], options(t)):
        opts = {T(o[q]): (o[q], o[q + 1]) for q in range(0, len(o), 2)}
        h = ('F', h, [export_of(q) for q in l] + [('F', ('y', 'Rule'), [export_of(q), export_of(v)]) for q, v in opts.values()], len(l))
    return h
def alike(x, e):
    if x[0] != e[0] or x[0] != 'F': return x == e[:len(x)]
    if not alike(x[1], e[1]) or len(x[2]) != len(e[2]): return False
    n = e[3] if len(e) > 3 else len(e[2])
    if not all(alike(u, v) for u, v in zip(x[2][:n], e[2][:n])): return False
    rest = list(x[2][n:])                      # the options: any order
    for v in e[2][n:]:
        hit = next((u for u in rest if alike(u, v)), None)
        if hit is None: return False
        rest.remove(hit)
    return True
def same_export(o, t): return alike(read_wolf(o), export_of(t))
def rtree(R, d, names):
    if d == 0 or R.random() < .2: return ratom(R)
    if R.random() < .12: return ('p', tuple(rtree(R, d - 1, names) for _ in range(R.randint(0, 3))))
    if R.random() < .2: return retree(R, 2)
    keys = [rtree(R, d - 1, names) for _ in range(3)]
    ls = tuple(tuple(rtree(R, d - 1, names) for _ in range(R.choice((0, 1, 1, 2, 3)))) for _ in range(R.choice((0, 1, 1, 2, 3))))
    os = tuple(sum(((R.choice(keys), rtree(R, d - 1, names)) for _ in range(R.choice((0, 0, 1, 2)))), ()) for _ in ls)
    return ('f', 'n', R.choice(names) if R.random() < .7 else rname(R), ls, (), os)
def check_session(texts, o):
    steps = [q.split('|') for q in o.split(';')]
    if not steps[0][1].startswith('err'): return 'an output before any evaluation'
    outs = {}; idx = 0
    for i, st in enumerate(steps):
        ans, last, eans, elast, state = st; state = un(state)
        if i:
            idx += 1
            if eans == 'panic' or elast == 'panic': return None                 # the parser or printer crashes on this text whatever the session does
            if ans != eans: return f'step {i} ({texts[i-1]!r}): answer {ans[:120]}, expected {eans[:120]}'
            if elast == 'none':
                if not last.startswith('err'): return f'step {i} ({texts[i-1]!r}): last gives {last[:120]} although the evaluation failed'
            else:
                if last != elast: return f'step {i} ({texts[i-1]!r}): last gives {last[:120]}, expected {elast[:120]}'
                outs[idx] = un(elast[3:])
        m = re.search(r'\bindex: (\d+)\b', state)
        if m and int(m.group(1)) != idx: return f'step {i}: index {m.group(1)}, expected {idx}'
        w = 'inputs: {' + ', '.join(f'{k}: {printed(t)}' for k, t in enumerate(texts[:i], 1)) + '}'
        if 'inputs: {' in state and w not in state: return f'step {i}: recorded inputs differ'
        w = 'outputs: {' + ', '.join(f'{k}: {v}' for k, v in outs.items()) + '}'
        if 'outputs: {' in state and w not in state: return f'step {i}: recorded outputs differ'
    return None

# ---------------------------------------------------------------- inputs
CH = ['a', 'b', 'z', 'Z', '0', '9', ' ', ':', '::', '\n', '\t', '"', '\\', 'é', 'ß', '中', '文', '€', '😀', '𝔸', 'e\u0301', '\u200d', '👩\u200d👧', '\x00', '\x7f', '\u0080', '\u07ff', '\u0800', '\uffff', '\U00010000', '\U0010ffff', '\ufeff', '\u202e', '.', '/', '+']
def rtext(R, n=None): return ''.join(R.choice(CH) for _ in range(R.choice((0, 1, 1, 2, 3, 5, 9, 30)) if n is None else n))
def rname(R): return ''.join(R.choice(('a', 'b', ':', '::', '::', ':::', 'é', ' ', '😀', 'x y', '.')) for _ in range(R.choice((1, 2, 3, 4, 6, 9))))
def ratom(R):
    k = R.choice('ebidysssiii')
    return {'e': ('e',), 'b': ('b', R.randint(0, 1)), 'i': ('i', R.choice((0, 1, -1, 2, 5, 10, oracle.rint(R)))), 'd': ('d', R.randint(-99, 99)), 'y': ('y', R.choice(('x', 'Null', 'a::b', 'add', 'std::infix::add'))), 's': ('s', rtext(R))}[k]
# ---------------------------------------------------------------- source texts and the trees they must give
def full(x):
    """literal of a whole tree; a call is ('f', name, ((arguments, {option name: value}), ..))"""
    k = x[0]
    if k == 'd': return f'd{x[1]}|'
    if k == 'f':
        return f'fn{hx(x[1])}.(' + ''.join('[' + ''.join(map(full, a)) + ('{' + ''.join(sorted(full(('y', n)) + full(v) for n, v in o.items())) + '}' if o else '') + ']' for a, o in x[2]) + ')'
    return T(x)
def call1(name, *args): return ('f', name, ((args, {}),))
IDS = ('a', 'b', 'c', 'f', 'g', 'h', 'k', 'x', 'y', 'zeta', 'é', '_u', 'K9', 'm2', 'a::b', 'q::r::s')
OPS2 = {'+': 'add', '-': 'subtract', '*': 'times', '/': 'divide', '^': 'power', '×': '×', '÷': '÷'}
SPACES = ('', '', '', ' ', ' ', '  ', '\n', '\t')
def digits(R, n=None): n = n if n is not None else R.choice((1, 1, 2, 3, 5, 10, 19, 20, 25, 40, 80)); return R.choice('123456789') + ''.join(R.choice('0123456789') for _ in range(n - 1))
def uint(R): return '0' if R.random() < .15 else digits(R)
def byte(R, n=None):
    p, b = R.choice((('0x', 16), ('0X', 16), ('0o', 8), ('0O', 8), ('0b', 2), ('0B', 2))); t = ''; v = 0
    for i in range(n if n is not None else R.choice((1, 1, 2, 3, 8, 17, 64, 70))):
        d = R.randrange(b); v = v * b + d; c = '0123456789abcdef'[d]; t += ('_' if R.random() < .25 else '') + (c.upper() if R.random() < .5 else c)
    return p + t, ('i', v)
def quoted(R, n=None):
    u = [R.choice(('\\"', '\\\\', 'a', 'b', ' ', 'é', '中', '😀', '\n', '{', '#', '//', '%', "'", '_', '0')) for _ in range(R.choice((0, 1, 1, 2, 3, 5, 9, 30)) if n is None else n)]
    return R.choice(('', '', '', 'r', 'b', 'zeta')) + '"' + ''.join(u) + '"', ('s', ''.join(u))
def block(R):
    k = R.choice((0, 0, 1, 2)); x = R.choice(('a', ' ', 'é', '中 ', '\n', '\t', '\\', '    a')) + ''.join(R.choice(('a', 'b', ' ', '"x', '""x', '\n', '\\ ', 'é', '😀', "'")) for _ in range(R.choice((0, 1, 2, 4, 9)))) + R.choice(('z', ' ', '中', '\n', '\t', 'é', "'", '\\'))
    return R.choice(('', '', 'r')) + '"' * (3 + k) + x + '"' * (3 + k), ('s', x)
def session(R):
    s, nm = R.choice((('¶', 'input'), ('⁋', 'output'))); k = R.choice((1, 1, 2, 3, 7, 40)); n = uint(R)
    if R.random() < .5 or n.startswith('0'): return s * k, call1('std::repl::' + nm, ('i', -k))
    return s + n, call1('std::repl::' + nm, ('i', int(n)))
def slot(R):
    k = R.randrange(6); n = digits(R, R.choice((1, 1, 2, 5, 25))); w = R.choice(('a', 'abc', 'é', '_u', 'K9'))
    if k == 0: return '#', call1('std::core::slot')
    if k == 1: return '#' + n, call1('std::core::slot', ('i', int(n)))
    if k == 2: return '#0', call1('std::core::slot', ('i', 0))
    if k == 3: return '#' + w, call1('std::core::slot', ('s', w))
    if k == 4: return '##', call1('std::core::slot_sequence')
    return '##' + n, call1('std::core::slot_sequence', ('i', int(n)))
def decimal(R): return uint(R) + '.' + '0' * R.choice((0, 0, 0, 1, 2, 5)) + uint(R)
def literal(R):
    k = R.randrange(12)
    if k < 2: t = uint(R); return t, ('i', int(t))
    if k < 5: return byte(R)
    if k < 7: t = decimal(R); return t, ('d', t)
    if k < 8: return R.choice((('true', ('b', 1)), ('false', ('b', 0))))
    if k < 10: return quoted(R)
    if k < 11: return block(R)
    return slot(R) if R.random() < .6 else session(R)
def atom_text(R, plain):
    k = R.random()
    if k < .4: return (lambda t: (t, ('i', int(t))))(uint(R) if R.random() < .3 else str(R.randint(0, 12)))
    if k < .8 or plain: n = R.choice(IDS); return n, ('y', n)
    return literal(R)
GAP = '\x01'        # a place where a block comment may stand
NOTES = ('%%%%%%', '%%% note %%%', '%%%\n1, f(2)\n%%%', '%%%[é%%%', '%%% a : "b %%%')
def sp(R): return R.choice(SPACES) + (GAP if R.random() < .1 else '')
def commented(R, t):
    """a block comment at one of the gaps (a second one would nest), line comments and nothing at the others"""
    g = t.split(GAP); n = len(g) - 1; k = R.randrange(-1, n) if n and "%%%" not in t else -1
    return g[0] + ''.join((R.choice(NOTES) if i == k else R.choice(('', '', ' /// x, 1)\n', ' //! ]\n'))) + x for i, x in enumerate(g[1:]))
def several(R, d, f, n=None):
    """items between commas -> (text, items)"""
    xs = [f(R, d - 1) for _ in range(R.choice((0, 1, 1, 2, 2, 3, 4, 7)) if n is None else n)]
    c = R.choice((',', ',', ', ', ' ,', '，'))
    return sp(R) + (c + sp(R)).join(x[0] for x in xs) + (R.choice(('', '', c)) if xs else '') + sp(R), [x[1] for x in xs]
def list_text(R, d, n=None):
    t, xs = several(R, d, expr_text, n); return '[' + t + ']', call1('std::containers::List', *xs)
def entry_text(R, d):
    t, x = expr_text(R, d)
    if R.random() < .4: k = R.choice(('k', 'a', 'b', 'é', '_u')); return k + sp(R) + R.choice((':', '：')) + ' ' + t, (k, x)
    return t, (None, x)
def args_text(R, d, n=None):
    t, xs = several(R, d, entry_text, n); o = {}
    for k, v in xs:
        if k is not None: o[k] = v
    return '(' + t + ')', (tuple(v for k, v in xs if k is None), o)
def call_text(R, d):
    n = R.choice(IDS); ls = [args_text(R, d) for _ in range(R.choice((1, 1, 1, 2, 3)))]
    return n + ''.join(R.choice(('', '', ' ')) + l[0] for l in ls), ('f', n, tuple(l[1] for l in ls))
def index_text(R, d):
    if R.random() < .5: return expr_text(R, d)
    part = lambda p: expr_text(R, d) if R.random() < p else None
    a, b = part(.5), part(.5); c = part(.6) if R.random() < .5 else 0; txt = lambda x: x[0] if x else ''
    t = txt(a) + ' : ' + sp(R) + txt(b) + (sp(R) + ' : ' + txt(c) if c != 0 else '')
    v = lambda x, e: x[1] if x else e
    return t, call1('std::core::Span', v(a, ('i', 1)), v(b, ('y', 'std::core::All')), v(c, ('i', 1)))
def side_text(R, d, i):
    k = R.random()
    if k < .15: return byte(R)
    if k < .3: t = decimal(R); return t, ('d', t)
    if k < .45 and i: return call_text(R, d - 1)
    return atom_text(R, True)
def node_text(R, d):
    k = R.random()
    if d <= 0 or k < .25: return atom_text(R, d <= 0)
    if k < .5: return call_text(R, d)
    if k < .65: return list_text(R, d)
    if k < .75:
        xs = [side_text(R, d, i) for i in range(R.choice((2, 2, 3, 5)))]
        return '(' + ' '.join(x[0] for x in xs) + ')', call1('std::infix::times', *[x[1] for x in xs])
    t, x = expr_text(R, d - 1); return '(' + t + ')', x
def term_text(R, d):
    t, x = node_text(R, d); bang = False
    for _ in range(R.choice((0, 0, 0, 1, 1, 2, 3)) if d > 0 else 0):
        if R.random() < .6:
            i, xs = several(R, d, index_text, R.choice((1, 1, 2, 3))); t += ('[' if bang else R.choice(('', '', ' ')) + '[') + i + ']'; x = call1('std::core::Index', x, *xs); bang = False
        elif not bang: s_ = R.choice(('!', '!!')); t += s_; x = call1('std::suffix::' + SUFFIX[s_], x); bang = s_ == '!'
    for _ in range(R.choice((0, 0, 0, 1, 1, 2, 3)) if d > 0 else 0):
        p = R.choice('+-*!'); t = p + t; x = call1('std::prefix::' + PREFIX[p], x)
    return t, x
def expr_text(R, d):
    k = R.random()
    if d <= 0 or k < .4: return term_text(R, d)
    if k < .8:
        o = R.choice(list(OPS2)); xs = [term_text(R, d - 1) for _ in range(R.choice((2, 2, 3, 4)))]; n = 'std::infix::' + OPS2[o]; ys = [x[1] for x in xs]
        if o == '^':
            v = ys[-1]
            for y in ys[-2::-1]: v = call1(n, y, v)
        else:
            v = ys[0]
            for y in ys[1:]: v = call1(n, v, y)
        return f' {o} '.join([xs[0][0]] + [(GAP if R.random() < .05 else '') + x[0] for x in xs[1:]]), v
    l = R.choice(('x', 'é', 'a::b')); t, x = (l, ('y', l)) if R.random() < .4 else (lambda q: ('(' + q[0] + ')', q[1]))(expr_text(R, d - 1))
    for i in range(R.choice((1, 1, 2, 3))):
        k = R.randrange(3)
        if k == 0: n = R.choice(IDS); t += '.' + n; x = call1(n, x)
        elif k == 1: r, v = call_text(R, d - 1); t += '.' + r; (a, o), *m = v[2]; x = ('f', v[1], (((x,) + a, o),) + tuple(m))
        else: n = str(R.randint(0, 30)); t += '.' + n; x = call1('std::core::index', x, ('i', int(n))); break
    return t, x
def texts25(R, W, N):
    B = [v for v in oracle.bounds() if v > 0]
    for t in ('0', '7', '10', '4294967296', '18446744073709551615', '18446744073709551616', '1' + '0' * 50): yield t, ('i', int(t))
    for p, b in (('0x', 16), ('0X', 16), ('0o', 8), ('0O', 8), ('0b', 2), ('0B', 2)):
        for d in ('0', '1', '10', '1_0', '_1', '_1_0_1', '0_1', '000', '1' * 70, '7_7'[:1] if b == 2 else '7_7', 'fF_0' if b == 16 else '1', '00_1'):
            if all(int(c, 16) < b for c in d if c != '_'): yield p + d, ('i', int(d.replace('_', ''), b))
    for b in (2, 8, 16):
        for k in [*range(1, 41), 63, 64, 65, 127, 128, 129]:
            for c in {'1' + '0' * (k - 1), format(b - 1, 'x') * k, format(b - 1, 'X') + '0' * (k - 1)}: yield {2: '0b', 8: '0o', 16: '0x'}[b] + c, ('i', int(c, b))
    for t in ('0.0', '1.5', '10.50', '0.1', '3.10', '0.05', '1.007', '0.00', '10.0100', '123456789012345678901234567890.98765432109876543210'): yield t, ('d', t)
    yield 'true', ('b', 1); yield 'false', ('b', 0)
    for x in ('', 'a', 'ab', ' ', ' a ', '\\"', '\\\\', 'é', '中文', '😀', '//', 'a\nb', 'true', '\\n', "it's"): yield f'"{x}"', ('s', x); yield f'r"{x}"', ('s', x)
    for x in ('a', ' a ', '\n', '\na\n', '\ta\n\n', '  a\n  b\n', 'a"b', 'a""b', 'é"中', 'a\nb', '\\x'): yield f'"""{x}"""', ('s', x); yield f'""""{x}""""', ('s', x)
    for w in W:
        if w and '"' not in w and '\\' not in w: yield f'"{w}"', ('s', w)
    yield '#', call1('std::core::slot'); yield '##', call1('std::core::slot_sequence'); yield '#0', call1('std::core::slot', ('i', 0))
    for n in [1, 2, 3, 9, 10, 12, 255, 256, 65536] + [abs(v) for v in N] + B:
        yield str(n), ('i', n); yield f'{n:#x}', ('i', n); yield f'0o{n:o}', ('i', n); yield f'{n:#b}', ('i', n); yield f'0X_{n:X}', ('i', n)
        if n: yield f'#{n}', call1('std::core::slot', ('i', n)); yield f'##{n}', call1('std::core::slot_sequence', ('i', n)); yield f'¶{n}', call1('std::repl::input', ('i', n)); yield f'⁋{n}', call1('std::repl::output', ('i', n))
        if 0 < n <= 3000: yield '¶' * n, call1('std::repl::input', ('i', -n)); yield '⁋' * n, call1('std::repl::output', ('i', -n))
        if n <= 3000:
            for k in {n, n + 1}:
                if k: t = digits(R, k); yield t, ('i', int(t)); t, x = byte(R, k); yield t, x; t, x = quoted(R, k); yield t, x
    while True:
        t, x = literal(R); yield t, x
        if R.random() < .3:
            u, y = literal(R); yield f'[{t}, {u}]', call1('std::containers::List', x, y); yield f'f({u}, k : {t})', ('f', 'f', (((y,), {'k': x}),))
def texts26(R, W, N):
    for c in NOTES:
        for t in (f'{c} x', f'x {c}', f'x {c};', f'(x {c})'): yield t, ('y', 'x')
        yield f'x {c} + 1', call1('std::infix::add', ('y', 'x'), ('i', 1)); yield f'x+{c}1', call1('std::infix::add', ('y', 'x'), ('i', 1)); yield f'[{c}]', call1('std::containers::List')
        yield f'f({c}k {c[:0]}: 1)', ('f', 'f', (((), {'k': ('i', 1)}),)); yield f'f(k {c} : 1)', ('f', 'f', (((), {'k': ('i', 1)}),)); yield f'f(k : {c} 1)', ('f', 'f', (((), {'k': ('i', 1)}),))
    for t, x in (('[]', call1('std::containers::List')), ('[ ]', call1('std::containers::List')), ('f()', call1('f')), ('f()()', ('f', 'f', (((), {}), ((), {}))))): yield t, x
    for k in sorted({0, 1, 2, 3, 4, 5, 9, 17, 40} | {abs(v) + e for v in N if abs(v) <= 300 for e in (-1, 0, 1) if abs(v) + e >= 0}):
        for _ in range(2):
            yield list_text(R, 1, k)
            if k <= 80:
                t, l = args_text(R, 1, k); yield 'f' + t, ('f', 'f', (l,))
                ls = [args_text(R, 1) for _ in range(min(k, 20))]
                if ls: yield 'h' + ''.join(l[0] for l in ls), ('f', 'h', tuple(l[1] for l in ls))
                if k: t, xs = several(R, 1, index_text, k); yield f'x[{t}]', call1('std::core::Index', ('y', 'x'), *xs)
                if 0 < k <= 40:
                    p = [R.choice('+-*!') for _ in range(k)]; x = ('y', 'x')
                    for c in p[::-1]: x = call1('std::prefix::' + PREFIX[c], x)
                    yield ''.join(p) + 'x', x
                    x = ('y', 'x'); t = 'x'
                    for i in range(k): n = R.choice(IDS); t += '.' + n; x = call1(n, x)
                    yield t, x
    for w in W:
        if re.fullmatch('[a-z]+', w) and not w.startswith(('true', 'false', 'null', 'as', 'if', 'for', 'let', 'def', 'using', 'class', 'trait', 'extends', 'return', 'break', 'pass')):
            yield f'{w}(1, {w} : 2)({w})', ('f', w, (((('i', 1),), {w: ('i', 2)}), ((('y', w),), {}))); yield f'x.{w}(2)', call1(w, ('y', 'x'), ('i', 2))
    for t, x in (('1', ('i', 1)), ('x', ('y', 'x'))):
        for o, n in OPS2.items():
            yield f'{t} {o} y', call1('std::infix::' + n, x, ('y', 'y')); yield f'y{o}{t}', call1('std::infix::' + n, ('y', 'y'), x)
    while True: yield expr_text(R, R.choice((1, 1, 2, 2, 3)))
def words(extra): return [w for w in extra if isinstance(w, str)][:60]
def cases(prop, R, extra, deep):
    W = words(extra); N = oracle.around([v for v in extra if isinstance(v, int)][:60]); B = oracle.bounds()
    if prop == 'C14':
        yield 'prec', ()
        for s in PREFIX: yield 'op', ('p', s)
        for s in SUFFIX: yield 'op', ('s', s)
        for s in list(INFIX) + ['', '->', ':=', '<', '%', '.', '**', '++', '--', '///', '^^', '*/', '@', '&&', '||', '+ ', ' +', '=', '==', '++=', 'add', 'x', '中', '"', '\\'] + W: 
            if '\n' not in s: yield 'op', ('i', s)
        while True: yield 'op', ('i', ''.join(R.choice('+-*/^!<>=&|@.:%?~ab中') for _ in range(R.randint(1, 4))))
    elif prop == 'C15':
        for o in '+*^':
            for x, y in ((2, 3), (0, 0), (-2, 3), (7, 0)): yield 'eval', (('f', 'i', o, ((('i', x), ('i', y)),)),)
        small = list(range(-4, 6))
        def pw(x, y): return y < 0 or y > U64 or abs(x) < 2 or y * abs(x).bit_length() < 300000
        for f in ARITH:
            for x, y in itertools.product(small + [10, -7, 1 << 64, -(1 << 64)], repeat=2):
                if f != 'power' or pw(x, y): yield 'eval', (fn(f, (('i', x), ('i', y))),)
        for f in ARITH:
            for x in N + B:
                for y in [0, 1, -1, 2, 3, x]:
                    for u, v in ((x, y), (y, x)):
                        if f != 'power' or pw(u, v): yield 'eval', (fn(f, (('i', u), ('i', v))),)
        for n in (0, 1, 3, 4):
            for f in ARITH: yield 'eval', (fn(f, tuple(('i', q + 2) for q in range(n))),)
        while True:
            f = R.choice(ARITH)
            q = tuple(ratom(R) for _ in range(R.choice((1, 2, 2, 2, 3))))
            if R.random() < .3 and (f != 'power' or len(q) != 2 or q[0][0] != 'i' or q[1][0] != 'i'): yield 'eval', (fn(f, q),)
            x, y = oracle.rint(R), oracle.rint(R)
            if f == 'power': y = R.choice((R.randint(0, 300), y, R.randint(0, 12)))
            if f != 'power' or pw(x, y): yield 'eval', (fn(f, (('i', x), ('i', y))),)
    elif prop == 'C16':
        for s in ['', 'a', 'ab', 'é', 'éa', 'aé', '中文', '😀', '😀a', 'a😀', 'e\u0301', '\x00', ' a ', '\n', 'a\n', '\ufeffa'] + CH + W + [w + 'é' for w in W]:
            for f in STRS: yield 'call', (f, ('s', s)); yield 'eval', (fn(f, (('s', s),)),)
        for n in (100, 255, 256, 1000, 5000):
            for f in STRS: yield 'call', (f, ('s', rtext(R, n)))
        while True:
            s = rtext(R); f = R.choice(STRS)
            yield 'call', (f, ('s', s)); yield 'eval', (fn(f, (('s', s),)),)
    elif prop == 'C17':
        for o in OPS + '%': yield 'eval', (('f', 'i', o, ()),); yield 'eval', (('f', 'i', o, ((),)),); yield 'eval', (('f', 'i', o, ((('i', 2), ('i', 3)),)),); yield 'eval', (('f', 'i', o, ((('i', 2), ('y', 'x')), (('i', 3),))),)
        for o in PREFIX: yield 'eval', (('f', 'p', o, ()),); yield 'eval', (('f', 'p', o, ((('i', 2),),)),); yield 'eval', (('f', 'p', o, ((),)),)
        for o in SUFFIX: yield 'eval', (('f', 's', o, ()),); yield 'eval', (('f', 's', o, ((('y', 'x'),),)),); yield 'eval', (('f', 's', o, ((),)),)
        for v in ((), (('i', 1),), (('e',),), (('i', 1), ('i', 2)), (fn('f', (('i', 1),)), ('y', 'x'))): yield 'eval', (('p', v),)
        for a in [('e',), ('b', 0), ('b', 1), ('i', 0), ('i', -5), ('d', 3), ('y', 'x'), ('y', 'a::b'), ('s', ''), ('s', 'é'), ('y', 'Null')] + [('s', w) for w in W] + [('y', w) for w in W]: yield 'eval', (a,)
        yield 'eval', (('p',),)
        names = list(KNOWN) + ['subtract', 'minus', 'divide', 'x', '', 'First', 'first ', 'firs', 'prime_sum', 'sqrt', 'std::first', 'rest', 'most', 'head', 'List', 'add2', 'not', 'factorial2'] + W
        atoms = [('e',), ('b', 1), ('i', 3), ('d', 2), ('y', 'x'), ('s', 'ab'), ('s', ''), fn('add', (('i', 1), ('i', 2)))]
        for f in names:
            yield 'eval', (fn(f),); yield 'eval', (fn(f, ()),); yield 'eval', (fn(f, (), ()),); yield 'eval', (fn(f, (('i', 1),), (('i', 2),)),)
            for a in atoms: yield 'eval', (fn(f, (a,)),); yield 'eval', (fn(f, (a,), (a,)),); yield 'eval', (fn(f, (a, a), (), (a,)),)
            for a, b in itertools.product(atoms, repeat=2): yield 'eval', (fn(f, (a, b)),)
            for ls in (((),), ((('s', 'ab'),),), ((('i', 3),),), ((('y', 'x'), ('e',)),), ((('i', 1),), ())): yield 'eval', (fn(f, *ls) + ((('y', 'k'), ('i', 1)),),)
        for a in B: yield 'eval', (('i', a),)
        while True:
            f = R.choice(names) if R.random() < .6 else ''.join(R.choice('abcdefst_') for _ in range(R.randint(1, 8)))
            if f in NUMS + ('power',): continue
            yield 'eval', (fn(f, *[tuple(ratom(R) for _ in range(R.randint(0, 3))) for _ in range(R.choice((0, 1, 1, 1, 2, 3)))]),)
            yield 'eval', (ratom(R),)
    elif prop == 'C18':
        good = ['1', '1+2', ' 1+2 ', '2*3', '2^10', '"abc"', 'x', 'true', '', 'first("ab")', 'length("é中")', 'factorial(5)', '0', '-1', '12345678901234567890', '3+4', '"q"', 'a::b']
        bad = ['2^(-1)', 'f(1)', '1+x', 'first("")', ')', '1+', 'first()', 'factorial(-1)', 'f(1)(2)', '((', 'sqrt(2)', '1-2']
        good += [' 1', '1 ', ' 1 + 2 ', '1\n', '\t"a b" ', '1 +2', '"  "', 'first(" a")', '1;2', '2 ^ 3', 'X', '"É"', '00', '1' * 300]
        bad += [' f(1)', ' )', ') ', 'a b', '"']
        for a in good + bad: yield 'session', ((a,),)
        for a, b in itertools.product(good[:9] + bad[:8], repeat=2): yield 'session', ((a, b),)
        for a, b, c in itertools.product(('1', '"ab"', '', 'f(1)', ')'), repeat=3): yield 'session', ((a, b, c),)
        for n in (9, 10, 11, 12, 20, 33, 65, 101, 130, 257, 300): yield 'session', (tuple(str(k) for k in range(n)),)
        for n in [v for v in extra if isinstance(v, int) and 2 <= v <= 1500][:12]: yield 'session', (tuple(str(k % 7) for k in range(n + 2)),)
        for w in W:
            if all(32 <= ord(c) < 127 for c in w): yield 'session', ((w,),); yield 'session', (('1', w, '2'),); yield 'session', ((f'"{w}"', 'f(1)') if '"' not in w and '\\' not in w else ('1',),)
        while True: yield 'session', (tuple(R.choice(good if R.random() < .6 else bad) for _ in range(R.choice((1, 2, 3, 4, 6, 12, 25)))),)
    elif prop == 'C19':
        for k in ERR:
            for s in ['', 'x', 'no such file', 'é中😀'] + W: yield 'error', (k, s)
        ns = list(range(-60, 120)) + [x for x in N + B if abs(x) <= 20000 or not oracle.IMIN <= x <= oracle.IMAX]
        for n in ns:
            for f in NUMS:
                if f == 'factorial' and 3000 < n <= oracle.IMAX: continue
                yield 'alg', (f, n); yield 'call', (f, ('i', n)); yield 'eval', (fn(f, (('i', n),)),)
        while True:
            f = R.choice(NUMS); n = R.choice((R.randint(-800, 800), oracle.rint(R)))
            if abs(n) > 3000 and oracle.IMIN <= n <= oracle.IMAX: continue
            yield 'alg', (f, n); yield 'call', (f, ('i', n)); yield 'eval', (fn(f, (('i', n),)),)
            yield 'error', (R.choice(list(ERR)), rtext(R))
    elif prop == 'C20':
        for s in ['', 'a', 'a::b', '::', '::a', 'a::', ':::', '::::', 'a:b', 'a:::b', 'a::::b', 'std::infix::add', ' a :: b ', 'é::中', 'a::b::c::d::e', '::::a::', 'a::b::', ':', 'a\n::b'] + CH + W + [f'{w}::x' for w in W] + [f'x::{w}' for w in W]:
            yield 'sym', (s,)
        for k in range(0, 5):
            for c in itertools.product(('a', ':', 'é'), repeat=k): yield 'sym', (''.join(c),)
        for n in (8, 16, 50, 300): yield 'sym', ('::'.join('q' * (k % 3) for k in range(n)),)
        while True: yield 'sym', (rname(R),); yield 'sym', (rtext(R),); yield 'sym', ('::'.join(rtext(R) for _ in range(R.randint(1, 6))),)
    elif prop == 'C21':
        A = (('i', 2), ('i', -1), ('y', 'x'))
        for t in etrees(1, A): yield 'show', (t,)
        two = etrees(2, (('i', -3), ('y', 'x')))
        for t in two: yield 'show', (t,)
        for o in '+*':
            for k in (3, 4):
                for q in itertools.product(etrees(1, (('y', 'x'),)), repeat=k):
                    if k == 3 or R.random() < .02: yield 'show', (('f', 'i', o, (q,)),)
        for w in [v for v in extra if isinstance(v, int)][:30]:
            for x in (w, -w):
                for t in etrees(1, (('i', x),)): yield 'show', (t,)
        while True: yield 'show', (retree(R, R.choice((2, 2, 3, 3, 4, 5, 6))),)
    elif prop == 'C23':
        atoms = [('e',), ('b', 0), ('b', 1), ('i', 0), ('i', -5), ('d', 3), ('d', -17), ('y', 'x'), ('y', 'a::b'), ('y', 'factor'), ('s', ''), ('s', 'é"\\')] + [('s', w) for w in W] + [('y', w) for w in W] + [('i', v) for v in B + N]
        for t in atoms: yield 'wolf', (t,)
        names = ['f', 'factor', 'Factor', 'factors', 'factor2', 'a::factor', 'factor::g', 'g', '', 'éa', 'list', 'std::infix::add', 'fibonacci', 'plus', 'List', 'x y', 'aB', '中'] + W
        for n in names:
            for t in atoms[:13]: yield 'wolf', (('f', 'n', n, ((t,),)),)
            for ls in ((), ((),), ((), ()), ((('i', 1), ('i', 2), ('i', 3)),), ((('i', 1),), (('y', 'x'), ('s', 'q'))), ((('i', 1),), (), (('i', 2),))):
                for o in ((), (('y', 'k'), ('i', 1)), (('y', 'k'), ('i', 1), ('y', 'b'), ('y', 'k')), (('i', 1), ('i', 1)), (('s', 'z'), ('b', 0), ('y', 'k'), ('s', ''), ('e',), ('e',))): yield 'wolf', (('f', 'n', n, ls, o),)
        for k in (4, 9, 17, 40): yield 'wolf', (('f', 'n', 'f', (tuple(('i', j) for j in range(k)),) * 2),)
        for v in ((), (('i', 1),), (('e',),), (('i', 1), ('i', 2)), (fn('f', (('i', 1),)), ('y', 'x'), ('e',)), (('p', (('i', 1),)),)): yield 'wolf', (('p', v),)
        for t in etrees(1, (('i', 2), ('y', 'x'))): yield 'wolf', (t,)
        for a in atoms[:13]:
            for b in atoms[:13]: yield 'wolf', (('f', 'n', 'h', ((a, b),)),); yield 'wolf', (('f', 'n', 'h', ((a,), (b,)), (a, b, b, a)),); yield 'wolf', (('f', 'n', 'h', ((a,), (b,)), (), ((('y', 'k'), a), (('y', 'k'), b))),)
        while True: yield 'wolf', (rtree(R, R.choice((1, 2, 2, 3)), names),)
    elif prop in ('C25', 'C26'):
        for t, x in (texts25 if prop == 'C25' else texts26)(R, W, N):
            t = commented(R, t)
            if len(t) < 6000: yield 'parse', (t, full(x))
    else: raise KeyError(prop)
def line(cmd, a):
    if cmd == 'op': return f'op {a[0]} {hx(a[1])}'
    if cmd == 'prec': return 'prec'
    if cmd == 'sym': return f'sym {hx(a[0])}'
    if cmd == 'eval': return f'eval {T(a[0])}'
    if cmd == 'call': return f'call {a[0]} {T(a[1])}'
    if cmd == 'alg': return f'alg {a[0]} {a[1]}'
    if cmd in ('show', 'wolf'): return f'{cmd} {T(a[0])}'
    if cmd == 'error': return f'error {a[0]} {hx(a[1])}'
    if cmd == 'parse': return f'parse {hx(a[0])}'
    if cmd == 'session': return 'session ' + ','.join(hx(t) for t in a[0])
def search(prop, exe, seed, budget, extra=(), deep=False, maxn=10**9):
    R = random.Random(seed * 1000003 + sum(map(ord, prop))); real = Real(exe); ANSWERS.clear()
    t0 = time.time(); n = 0; seen = set(); samples = []; hit = None
    try:
        for cmd, a in cases(prop, R, list(extra), deep):
            if time.time() - t0 > budget or n >= maxn: break
            ln = line(cmd, a)
            if ln in seen:
                if prop == 'C14' and n > 3000: break
                continue
            seen.add(ln); n += 1
            o = real.call(ln)
            if cmd == 'alg': ANSWERS[a] = expected(o) if o.startswith(('ok', 'err')) else None; continue
            try: why = check(cmd, a, o, prop)
            except (ValueError, KeyError, IndexError) as e:
                if 'no-template' in o: continue
                why = f'unreadable answer ({e})'
            if why and 'no-template' in o: continue
            if len(samples) < 3 or n in (50, 500, 5000): samples.append(f'{ln[:160]} -> {o[:160]}')
            if why is not None: hit = dict(call=ln, function=cmd, args=[str(x)[:2000] for x in a], answer=o[:2000], why=why); break
    finally: real.stop()
    return hit, dict(calls=n, seconds=round(time.time() - t0, 2), samples=samples[:6])
