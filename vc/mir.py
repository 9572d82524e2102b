"""Loading of the MIR dump (one JSON file per crate, produced by mirdump from /repo's current source)."""
import json, re

class Fn:
    def __init__(s, d, prog):
        s.d = d; s.prog = prog
        s.id = d['id']; s.name = d['name']; s.df = d.get('def', d['name'])
        s.local = d.get('local', False)
        s.blocks = d.get('blocks')
        s.locals = d.get('locals'); s.argc = d.get('argc', 0)
        s.intrinsic = d.get('intrinsic')
        s.targs = d.get('targs', []); s.sig = d.get('sig')
        s.file = d.get('file', ''); s.line = d.get('line', 0)
        s.key, s.selfty = norm_key(s.name)
        s._heads = None; s._live = None; s._body = {}
    # ---- control flow
    def succ(s, b):
        t = s.blocks[b]['t']; k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'switch': return [x[1] for x in t[2]] + [t[3]]
        if k == 'drop': return [t[2]]
        if k == 'call': return [] if t[4] is None else [t[4]]
        if k == 'assert': return [t[4]]
        return []
    def heads(s):
        if s._heads is None:
            heads = {}; color = {}; stack = [(0, iter(s.succ(0)))]; color[0] = 1
            while stack:
                b, it = stack[-1]
                for n in it:
                    c = color.get(n, 0)
                    if c == 0:
                        color[n] = 1; stack.append((n, iter(s.succ(n)))); break
                    if c == 1: heads.setdefault(n, set()).add(b)
                else:
                    color[b] = 2; stack.pop()
            s._heads = heads; s._reach = set(color)
        return s._heads
    def loop_body(s, h):
        """natural loop of h: blocks that reach a retreating edge into h without passing through h"""
        if h not in s._body:
            src = s.heads()[h]; pred = {}
            for b in s._reach:
                for n in s.succ(b): pred.setdefault(n, set()).add(b)
            bwd = {h}; st = list(src)
            while st:
                b = st.pop()
                if b in bwd: continue
                bwd.add(b); st += pred.get(b, ())
            s._body[h] = bwd
        return s._body[h]
    # ---- liveness of locals at block entry
    def live(s):
        if s._live is not None: return s._live
        n = len(s.blocks)
        use = [None] * n; de = [None] * n
        for b in range(n):
            u = set(); d = set()
            def U(l):
                if l not in d: u.add(l)
            def P(p, isdef=False):
                for e in p['p']:
                    if e[0] == 'index': U(e[1])
                if isdef and not p['p']: d.add(p['l'])
                else: U(p['l'])
            def O(o):
                if o[0] in ('copy', 'move'): P(o[1])
            def R(r):
                k = r[0]
                if k == 'use': O(r[1])
                elif k == 'ref': P(r[2])
                elif k in ('addr', 'discr', 'len'): P(r[1])
                elif k in ('bin', 'chk'): O(r[2]); O(r[3])
                elif k == 'un': O(r[2])
                elif k == 'cast': O(r[2])
                elif k == 'repeat': O(r[1])
                elif k == 'agg':
                    for o in r[2]: O(o)
            for st in s.blocks[b]['s']:
                if st[0] == '=': R(st[2]); P(st[1], True)
                elif st[0] == 'setdiscr': P(st[1])
            t = s.blocks[b]['t']
            if t[0] == 'switch': O(t[1])
            elif t[0] == 'assert': O(t[1])
            elif t[0] == 'call':
                O(t[1])
                for o in t[2]: O(o)
                P(t[3], True)
            elif t[0] == 'return': U(0)
            use[b] = u; de[b] = d
        inn = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                out = set()
                for x in s.succ(b): out |= inn[x]
                ni = use[b] | (out - de[b])
                if ni != inn[b]: inn[b] = ni; ch = True
        s._live = inn
        return inn
    def dbgnames(s):
        return {l: n for l, n in s.d.get('dbg', [])}

def top_split(s, sep):
    depth = 0; i = 0
    while i < len(s):
        c = s[i]
        if c in '<([{': depth += 1
        elif c in ')]}': depth -= 1
        elif c == '>' and not (i and s[i-1] in '-='): depth -= 1
        elif depth == 0 and s.startswith(sep, i): return s[:i], s[i+len(sep):]
        i += 1
    return None

def match_angle(s, i):
    depth = 0
    while i < len(s):
        c = s[i]
        if c == '<': depth += 1
        elif c == '>' and not (i and s[i-1] in '-='):
            depth -= 1
            if depth == 0: return i
        i += 1
    return -1

def strip_generics(s):
    out = ''; i = 0
    while i < len(s):
        if s[i] == '<':
            j = match_angle(s, i)
            if j < 0: out += s[i:]; break
            inner = s[i+1:j]
            if inner.startswith('impl '):
                out += '<impl>'
            i = j + 1; continue
        out += s[i]; i += 1
    return re.sub(r'(::)+', '::', out).rstrip(':')

def norm_key(name):
    """-> (key, selftype): `<A as T<B>>::m::<C>` -> ('T::m', 'A'); inherent paths lose generics"""
    if name.startswith('<'):
        j = match_angle(name, 0)
        inner = name[1:j]; rest = name[j+1:]
        sp = top_split(inner, ' as ')
        if sp:
            return strip_generics(sp[1]) + strip_generics(rest), sp[0]
        return strip_generics(inner) + strip_generics(rest), inner
    m = re.search(r'<impl (.*)$', name)
    if m:
        i = name.index('<impl'); j = match_angle(name, i)
        inner = name[i+6:j]; rest = name[j+1:]
        sp = top_split(inner, ' for ')
        if sp: return strip_generics(sp[0]) + strip_generics(rest), sp[1]
        return strip_generics(name[:i]) + '<impl>' + strip_generics(rest), inner
    return strip_generics(name), None

class Prog:
    def __init__(s, path):
        d = json.load(open(path))
        s.crate = d['crate']; s.T = d['types']; s.roots = d['roots']; s.consts = {k: v for k, v in (d.get('consts') or {}).items()} if isinstance(d.get('consts'), dict) else {c[0]: c[1] for c in d.get('consts') or []}
        s.fns = {f['id']: Fn(f, s) for f in d['fns']}
        s._rec = None
    def ty(s, i): return s.T[i]
    def adt(s, i):
        t = s.T[i]
        return t.get('def') if t['k'] == 'adt' else None
    def find(s, suffix):
        """the local, non-generic function whose path ends in `suffix`"""
        c = [s.fns[r] for r in s.roots if (r == suffix or r.endswith('::' + suffix)) and r in s.fns]
        return c[0] if len(c) == 1 else None
    def callees(s, f):
        out = set()
        for b in f.blocks or []:
            t = b['t']
            if t[0] == 'call' and t[1][0] == 'const' and t[1][1]['v'] == 'fn': out.add(t[1][1]['inst'])
            for st in b['s']:
                if st[0] == '=' and st[2][0] == 'agg' and st[2][1][0] == 'closure':
                    out.add(s.T[st[2][1][1]].get('inst'))
        return out
    def recursive(s, fid, stop=()):
        """is fid reachable from itself, other than through a function in `stop`"""
        seen = set(); st = [fid]; first = True
        while st:
            x = st.pop()
            f = s.fns.get(x)
            if f is None or not f.blocks: continue
            for c in s.callees(f):
                if c == fid: return True
                if c not in seen and c in s.fns and s.fns[c].local and re.sub(r'^[\w]+::', '', c, count=1) not in stop: seen.add(c); st.append(c)
        return False
    # type predicates
    def is_big(s, i):
        t = s.T[i]
        return t['k'] == 'adt' and t['adt'] in ('num::BigInt', 'num::BigUint', 'num_bigint::BigInt', 'num_bigint::BigUint')
    def is_biguint(s, i):
        return s.T[i]['k'] == 'adt' and s.T[i]['adt'].endswith('BigUint')
    def is_int(s, i): return s.T[i]['k'] == 'int' or s.T[i]['k'] == 'char'
    def rng(s, i):
        """(lo,hi) of a machine or big integer type, None = unbounded"""
        t = s.T[i]
        if t['k'] == 'int':
            b = t['bits']
            return (-(1 << (b-1)), (1 << (b-1)) - 1) if t['signed'] else (0, (1 << b) - 1)
        if t['k'] == 'char': return (0, 0x10ffff)
        if s.is_biguint(i): return (0, None)
        return (None, None)
    def strip_ref(s, i):
        while s.T[i]['k'] in ('ref', 'ptr'): i = s.T[i]['elem']
        return i
