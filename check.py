#!/usr/bin/env python3-vt
"""check.py <property> : decides one property of sm_algorithm (C01-C13) or sm_ast (C14-C21, C23, C25, C26) on /repo's current tree.

1. rustc (through mirdump) compiles the crate from /repo and writes its monomorphised MIR;
2. the verification-condition generator (vc/) executes that MIR symbolically, function by function, against the contracts
   of vc/contracts.py or vc/ast_contracts.py, and the prover discharges every obligation;
3. independently, the compiled real functions are run against tools/oracle.py or tools/oracle_ast.py: on inputs that the failed obligations'
   models, the constants of the current MIR and a seeded generator supply (replay of a failed obligation; audit of the
   assumed dependency contracts when everything is proved; bounded stand-in when the verifier cannot reach a function)."""
import hashlib, json, os, re, resource, signal, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, 'vc'), os.path.join(V, 'tools')]
sys.setrecursionlimit(20000); sys.set_int_max_str_digits(0)
ENTRY = {'C01': ['power_iu'], 'C02': ['extended_gcd2'], 'C03': ['modulo_inverse'], 'C04': ['modulo_division'], 'C05': ['is_coprime'],
         'C06': ['chinese_remainder'], 'C07': ['chinese_remainder'], 'C08': ['factorial_fold_u', 'factorial_i'],
         'C09': ['fibonacci_fold_u', 'fibonacci_fast_u'], 'C10': ['fibonacci_i'], 'C11': ['prime_sum_u64'], 'C12': ['prime_sum_i'], 'C13': ['prime_count_i']}

AST = ('C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C23', 'C25', 'C26')

class Unit:
    """what is verified together: the crate, its contracts, its replay driver and its oracle"""
    def __init__(s, prop):
        s.prop = prop; s.ast = prop in AST
        s.dump, s.replay, s.exe = ('dump_ast.sh', 'replay_ast.sh', 'replay_ast') if s.ast else ('dump.sh', 'replay.sh', 'replay')
        s.crate = 'sm_ast' if s.ast else 'sm_algorithm'
    def oracle(s):
        if s.ast: import oracle_ast as o
        else: import oracle as o
        return o
    def entries(s):
        """[(name, contract)]"""
        import contracts, ast_contracts
        if s.ast: return [(c.fname, c) for c in ast_contracts.ENTRY[s.prop]]
        return [(n, contracts.ALL[n]) for n in ENTRY[s.prop]]
    def callees(s, prog):
        import exec as X, contracts, ast_contracts
        if s.ast: return ast_contracts.callee_contracts(prog, s.prop)
        return {X.short(prog.find(k).id): v for k, v in contracts.ALL.items() if prog.find(k)}
    def roots(s, prog): return [f.id for f in (c.lookup(prog) for _, c in s.entries()) if f is not None]
    def names(s): return [n for n, _ in s.entries()]

def killtree(p):
    try: os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError: pass

# ------------------------------------------------------------------ the proof (run in a process of its own)
def prove(prop, mir_path, out, limit):
    import z3, vals, mir, solve, trace, samples, exec as X, contracts
    t0 = time.time()
    prog = mir.Prog(mir_path)
    R = dict(status='proved', functions=[], failed=[], unsupported=[], models=[], lemmas=[], obligations=0, discharged=0, seconds=0, canaries=0, vacuous=[], agree=0)
    U = Unit(prop); todo = U.entries(); done = set(); models = set(); lemmas = set()
    def save():
        R['models'] = sorted(models); R['lemmas'] = sorted(lemmas); R['seconds'] = round(time.time() - t0, 2)
        with open(out + '.tmp', 'w') as f: json.dump(R, f)
        os.rename(out + '.tmp', out)
    while todo:
        nm, c = todo.pop(0)
        if nm in done: continue
        done.add(nm); t1 = time.time()
        P = solve.Prover(c.theories); F = dict(function=nm, obligations=0, discharged=0, backends={}, paths=0, loops={}, seconds=0)
        R['functions'].append(F)
        ex = None
        try:
            f = c.lookup(prog)
            if f is None and not getattr(c, 'constant', False): raise vals.Unsupported(f'function {nm} not found')
            ex = X.Exec(prog, P, c.theories, contracts=U.callees(prog))
            ex.deadline = t0 + limit
            tr = trace.Tracer()
            if not U.ast:
                for inp in samples.S.get(nm, []): trace.run(prog, f, c.params, inp, tr, deadline=time.time() + 20)
            ex.tracer = tr if not U.ast else None
            paths = c.verify(ex); entry = c.entry_facts; outs = c.outs
            for k, v in list(ex.contracts.items()):
                if k in ex.used_contracts and v.__class__.__name__ == 'MemoFib': paths += v.verify(ex)
            F['paths'] = paths
            F['lost'] = list(ex.lost)
            rs = P.pmap([(o.facts, o.goal, None) for o in ex.obls])
            for o, r in zip(ex.obls, rs):
                F['obligations'] += 1
                if r:
                    F['discharged'] += 1; F['backends'][r.backend] = F['backends'].get(r.backend, 0) + 1
                else:
                    m = r.model if isinstance(r.model, dict) else {} if r.model is None else {d.name(): r.model[d].as_long() for d in r.model.decls() if d.arity() == 0 and z3.is_int_value(r.model[d])}
                    R['failed'].append(dict(function=nm, obligation=o.name, status=r.status, backend=r.backend, through_loops=sorted(set(o.loops)), goal=str(o.goal)[:1500],
                                            facts=[str(q)[:600] for q in o.facts][:60], model={k: str(v) for k, v in m.items()}))
            if ex.lost: R['failed'].append(dict(function=nm, obligation='; '.join(ex.lost), status='unknown', backend='', through_loops=['?'], goal='termination', facts=[], model={}))
            # vacuity: the precondition is satisfiable, and not every path is contradictory
            sol = z3.Solver(); sol.set('timeout', 5000)
            for q in entry:
                if not isinstance(q, vals.FA): sol.add(vals.zbool(q))
            if sol.check() == z3.unsat: R['vacuous'].append(f'{nm}: contradictory precondition')
            cr = P.pmap([(t.facts, False, None) for t in outs], 1500, False)
            alive = sum(1 for r in cr if not r); R['canaries'] += alive
            if not alive or not F['obligations']: R['vacuous'].append(f'{nm}: no reachable outcome')
            F['reachable_outcomes'] = alive; F['outcomes'] = len(outs)
        except vals.Unsupported as e: R['unsupported'].append(f'{nm}: {e}')
        except RecursionError: R['unsupported'].append(f'{nm}: recursion limit of the generator')
        except Exception as e: R['unsupported'].append(f'{nm}: internal {type(e).__name__}: {str(e)[:200]}')
        if ex is not None:
            models |= ex.used_models; F['loops'] = {k: v for k, v in ex.loops.items()}; F['uses_contracts'] = sorted(ex.used_contracts)
            for k in ex.used_contracts:
                b = k.split('::')[-1]
                if not U.ast and b in contracts.ALL: todo.append((b, contracts.ALL[b]))
        lemmas |= P.used_lemmas
        F['seconds'] = round(time.time() - t1, 2); F['solver_queries'] = P.nq
        R['obligations'] += F['obligations']; R['discharged'] += F['discharged']
        save()
    R['status'] = 'proved' if not R['failed'] and not R['unsupported'] and not R['vacuous'] and R['obligations'] and R['obligations'] == R['discharged'] else 'open'
    R['complete'] = True
    save()
    if R['status'] == 'proved': dependencies(prog, R, models, lemmas, t0, limit, save)

def dependencies(prog, R, models, lemmas, t0, limit, save):
    """the bodies of the dependency functions whose contracts were assumed, against those very contracts; a body that resists stays assumed"""
    import vals, solve, trace, samples, exec as X, contracts
    R['dependencies'] = []; R['dep_open'] = []; todo = sorted(models); seen = set()
    while todo:
        fid = todo.pop(0)
        c = contracts.dependency(prog, fid)
        if c is None or fid in seen: continue
        seen.add(fid); t1 = time.time()
        P = solve.Prover(c.theories); ex = X.Exec(prog, P, c.theories, contracts={})
        F = dict(function=fid, obligations=0, discharged=0, backends={}, paths=0)
        try:
            f = c.lookup(prog); ex.deadline = min(t0 + limit - 20, t1 + 60); tr = trace.Tracer()
            for inp in samples.S.get(fid, []): trace.run(prog, f, c.params, inp, tr, deadline=time.time() + 20)
            ex.tracer = tr; F['paths'] = c.verify(ex)
            if fid in ex.used_models: raise vals.Unsupported('the body calls itself')
            if ex.lost: raise vals.Unsupported('; '.join(ex.lost))
            rs = P.pmap([(o.facts, o.goal, None) for o in ex.obls])
            for r in rs:
                F['obligations'] += 1
                if r: F['discharged'] += 1; F['backends'][r.backend] = F['backends'].get(r.backend, 0) + 1
            if not rs or F['obligations'] != F['discharged']: raise vals.Unsupported(f"{F['obligations'] - F['discharged']} obligations open")
        except (vals.Unsupported, RecursionError, Exception) as e:
            R['dep_open'].append(f'{fid}: {type(e).__name__} {str(e)[:200]}'); continue
        F['seconds'] = round(time.time() - t1, 2); F['loops'] = {k: v for k, v in ex.loops.items()}
        R['dependencies'].append(F); models.discard(fid); lemmas |= P.used_lemmas
        new = ex.used_models - seen - models; models |= new; todo += sorted(new)
        save()
    save()

# ------------------------------------------------------------------ helpers
def constants(prog, prop):
    """integer and text constants of the local functions reachable from the property's entries"""
    U = Unit(prop); seen = set(); st = U.roots(prog); out = []
    def take(x):
        if isinstance(x, dict):
            if x.get('v') == 'str' and U.ast:
                if len(x['x']) < 40 and x['x'] not in out: out.append(x['x'])
            elif x.get('v') == 'int':
                v = int(x['x'])
                if abs(v) < 1 << 300 and v not in out: out.append(v)
            else:
                for k, y in x.items():
                    if k == 'x': take(y)
        elif isinstance(x, list):
            if len(x) == 4 and x[0] == 'switch':
                for a, _ in x[2]:
                    v = int(a)
                    if v not in out: out.append(v)
            for y in x: take(y)
    while st:
        i = st.pop()
        if i in seen: continue
        seen.add(i); f = prog.fns.get(i)
        if f is None or not f.local or not f.blocks: continue
        for b in f.blocks:
            take(b['t'])
            for s in b['s']: take(s)
        st += list(prog.callees(f))
    return [v for v in out if v not in (0, 1)]
def known(prop):
    kf = []
    with open(os.path.join(V, 'known-findings.json')) as f: kf = json.load(f)
    return [k for k in kf if k['property'] == prop and k['status'] == 'known']
def run(cmd, log, limit):
    with open(log, 'w') as f: return subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
def wait(p, until):
    try: return p.wait(max(0.1, until - time.time()))
    except subprocess.TimeoutExpired: killtree(p); p.wait(); return None

def main(prop):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1')); tier = os.environ.get('VERIF_TIER', 'quick'); deep = tier == 'thorough'
    plimit = 560 if deep else 380
    B = os.path.join(V, 'build', f'{prop}-{os.getpid()}'); os.makedirs(B); os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    procs = []; U = Unit(prop)
    try:
        d = run([f'{V}/tools/{U.dump}', f'{B}/mir.json', f'{B}/check'], f'{B}/dump.log', 300); procs.append(d)
        b = run([f'{V}/tools/{U.replay}', f'{B}/replay'], f'{B}/replay.log', 300); procs.append(b)
        ln = run([sys.executable, f'{V}/vc/leanck.py', f'{B}/lemmas.lean', f'{B}/lean.json'], f'{B}/lean.log', 200); procs.append(ln)
        rc = wait(d, t0 + 240)
        dump_ok = rc == 0 and os.path.exists(f'{B}/mir.json')
        pr = None; extra = []
        if dump_ok:
            pr = run([sys.executable, os.path.abspath(__file__), '--prove', prop, f'{B}/mir.json', f'{B}/proof.json', str(plimit)], f'{B}/proof.log', plimit); procs.append(pr)
            import mir
            prog = mir.Prog(f'{B}/mir.json'); extra = constants(prog, prop)
        rc2 = wait(b, t0 + 280)
        exe = f'{B}/replay/debug/{U.exe}'
        if U.ast and (rc2 != 0 or not os.path.exists(exe)): exe = None       # sm_ast is no part of the repository's build here: a tree beyond the stand-ins for its dependencies gives no verdict
        elif rc2 != 0 or not os.path.exists(exe):
            print(f'ERROR: /repo does not build: {open(f"{B}/replay.log").read()[-1500:]}'); return 2
        return decide(prop, t0, seed, tier, deep, plimit, B, pr, exe, extra, dump_ok, ln)
    finally:
        for p in procs:
            if p.poll() is None: killtree(p)
        subprocess.run(['rm', '-rf', B])

def decide(prop, t0, seed, tier, deep, plimit, B, pr, exe, extra, dump_ok, ln):
    U = Unit(prop); oracle = U.oracle(); none = dict(calls=0, seconds=0, samples=[])
    search = oracle.search if exe is not None else lambda *a: (None, none)
    hit, st1 = search(prop, exe, seed, 30 if deep else 6, extra, deep)
    proof = None
    if pr is not None:
        wait(pr, t0 + plimit + 30)
        try: proof = json.load(open(f'{B}/proof.json'))
        except Exception: proof = None
    plog = open(f'{B}/proof.log').read()[-2000:] if pr is not None else open(f'{B}/dump.log').read()[-2000:]
    if proof is None: proof = dict(status='open', functions=[], failed=[], unsupported=['no answer from the verifier: ' + plog[-300:]], models=[], lemmas=[], obligations=0, discharged=0, canaries=0, vacuous=[], seconds=0)
    if not proof.get('complete'): proof['status'] = 'open'; proof['unsupported'].append('the verifier did not finish within its limit')
    proved = proof['status'] == 'proved'
    stats = [st1]
    definite = [f for f in proof['failed'] if f['status'] == 'failed' and not f['through_loops']]
    if hit is None and not proved:
        mod = []
        for f in proof['failed']:
            for k, v in f['model'].items():
                v = int(v)
                if v not in mod and abs(v) < 1 << 600: mod.append(v)
        hit, st2 = search(prop, exe, seed + 1, (180 if deep else 60), mod[:60] + extra, True)
        stats.append(st2)
    elif hit is None and deep:
        hit, st2 = search(prop, exe, seed + 1, 200, extra, True); stats.append(st2)
    calls = sum(s['calls'] for s in stats); samples = [x for s in stats for x in s['samples']][:8]
    viol = None
    if hit is not None: viol = ('input', hit)
    elif definite: viol = ('obligation', definite[0])
    # ---------------------------------------------------------------- evidence
    import trusted
    wait(ln, max(t0 + 120, time.time() + 5))
    try: trusted.PROVED_IN_LEAN = set(json.load(open(f'{B}/lean.json'))['proved'])
    except Exception: trusted.PROVED_IN_LEAN = set()
    cov = dict(obligations=proof['obligations'], discharged=proof['discharged'],
               checker_cmd=f'python3-vt /verif/check.py {prop}',
               trusted_base=trusted.base(proof['models'], proof['lemmas'], U), lemmas=trusted.lemmas(proof['lemmas']),
               functions_under_contract=[{k: f.get(k) for k in ('function', 'obligations', 'discharged', 'backends', 'paths', 'outcomes', 'reachable_outcomes', 'uses_contracts', 'seconds', 'solver_queries', 'lost')} for f in proof['functions']],
               dependency_functions_under_contract=proof.get('dependencies', []), dependency_bodies_not_reached=proof.get('dep_open', []),
               loop_invariants={k: v for f in proof['functions'] for k, v in f.get('loops', {}).items()},
               failed_obligations=[f"{f['function']}: {f['obligation']} [{f['status']}]" for f in proof['failed']][:40],
               not_reached=proof['unsupported'], vacuity_problems=proof['vacuous'], reachable_outcomes=proof['canaries'],
               verifier_seconds=proof['seconds'],
               evaluations=calls, samples=samples,
               rule='audit of the assumed contracts: the compiled real functions are run on boundary, constant-derived and seeded random inputs against the oracle in tools/; every call is distinct')
    if not proved:
        cov['bounded_stand_in'] = f'NOT PROVED on this tree: bounded check of {", ".join(U.names())} on {calls} concrete calls (seed {seed}); counted as exploration, not as proof'
    ev = dict(property=prop, tier=tier, seed=seed, level='proof' if proved else 'exploration', coverage=cov, assumptions=trusted.assumptions(U, proof), wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    if not proved: cov['distinct_nontrivial'] = calls
    for k in known(prop): print(f"KNOWN-FINDING: property={prop} {k['what']}")
    with open(os.path.join(V, 'evidence', f'{prop}.json'), 'w') as f: json.dump(ev, f, indent=1)
    for f in proof['functions']: print(f"  {f['function']}: {f['discharged']}/{f['obligations']} obligations, {f['paths']} paths, {f['seconds']} s")
    for f in proof['failed'][:10]: print(f"  FAILED {f['function']}: {f['obligation']} [{f['status']}]")
    for u in proof['unsupported'] + proof['vacuous']: print('  NOT REACHED', u[:300])
    print(f'  {calls} calls of the real functions agree with the oracle' if hit is None else f"  real call {hit['call'][:300]} -> {hit['answer'][:200]}: {hit['why']}")
    if viol is None:
        print(f"{prop}: " + ('proved' if proved else 'not proved; bounded stand-in found nothing'))
        return 0
    rp = os.path.join(V, 'evidence', f'{prop}.violation.json')
    rep = dict(property=prop, seed=seed, failed_obligations=proof['failed'], not_reached=proof['unsupported'], verifier_output=plog)
    if viol[0] == 'input':
        rep['failing_input'] = hit
        rep['replay'] = f"bash {V}/tools/{U.replay} /tmp/replay-target && echo '{hit['call'][:4000]}' | /tmp/replay-target/debug/{U.exe}   # prints {hit['answer'][:300]}"
    else: rep['failed_obligation'] = viol[1]
    with open(rp, 'w') as f: json.dump(rep, f, indent=1)
    print(f'VIOLATION property={prop} replay={rp}' + ('' if viol[0] == 'input' else ' no-failing-input-found'))
    return 1

if __name__ == '__main__':
    if sys.argv[1] == '--prove': prove(sys.argv[2], sys.argv[3], sys.argv[4], float(sys.argv[5]))
    else: sys.exit(main(sys.argv[1]))
