"""Checks the lemmas the solver instances come from with Lean: for every lemma object (vc/theory.py) the statement printed from that very object
must follow from the theorem of the same name in /verif/lean, whose proof Lean checks here, without sorry and from the standard axioms only."""
import os, re, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STD = {'propext', 'Classical.choice', 'Quot.sound'}
def source():
    import lem, theory, trusted
    out = ['import Mathlib']
    for f in ('Basic', 'Crt', 'Sieve'): out.append(open(f'{HERE}/lean/{f}.lean').read())
    names = [n for n in lem.LEMMAS]
    out.append('namespace Stmt')
    for n in names:
        l = lem.LEMMAS[n]; st = lem.statement(l)
        out.append(f'{st} := L.{n} ' + ' '.join(p.decl().name() for p in l.params))
    out.append('end Stmt')
    out += [f'#print axioms Stmt.{n}' for n in names]
    return '\n'.join(out) + '\n', names
def check(path, timeout=300):
    """-> set of lemma names Lean accepts"""
    src, names = source()
    with open(path, 'w') as f: f.write(src)
    p = subprocess.run(['lean', path], capture_output=True, text=True, timeout=timeout)
    txt = p.stdout + p.stderr
    ok = set()
    for m in re.finditer(r"'Stmt\.(\w+)' (does not depend on any axioms|depends on axioms: \[([^\]]*)\])", txt):
        ax = set(x.strip() for x in (m.group(3) or '').replace('\n', ' ').split(',') if x.strip())
        if ax <= STD: ok.add(m.group(1))
    bad = 'error' in txt
    if bad:   # an error message names a line; a theorem with an error is not usable by the next one, so only accept a clean file
        return set(), txt[-3000:]
    return ok & set(names), txt[-500:]
if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import json
    ok, txt = check(sys.argv[1])
    import lem
    r = json.dumps(dict(proved=sorted(ok), missing=sorted(set(lem.LEMMAS) - ok), log=txt if len(ok) < len(lem.LEMMAS) else ''))
    if len(sys.argv) > 2: open(sys.argv[2], 'w').write(r)
    else: print(r)
