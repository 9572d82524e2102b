#!/usr/bin/env python3
"""writes /verif/MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
T = 'contract-based deductive verification: obligations generated from rustc MIR of the real functions, inferred loop invariants, discharged by z3/cvc5 and a polynomial-ideal prover'
NOTE = {
 'C06': 'Proved for systems of every length with non-zero moduli; loop invariants (Garner recursion) inferred and checked on every run.',
 'C07': 'Same contract as C06: an answer exactly when the lengths agree and the moduli are pairwise coprime.',
}
COMMON = 'Every obligation generated from the current MIR is discharged for all inputs; assumed: exact integer arithmetic of num-bigint, the listed std/num models, the listed lemmas, rustc and the solvers. If a changed tree is beyond the verifier, a bounded run of the real function stands in and is labelled so.'
CLAIM = 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C23 C25 C26'.split()
NA = json.load(open(f'{V}/tools/not_applicable.json'))
AST = ' sm-ast is compiled from its real sources; five of its dependencies are not in the sandbox and are stand-ins (listed in the evidence).'
for p in CLAIM:
    if p >= 'C14': NOTE[p] = NOTE.get(p, '') + AST
NOTE['C18'] = 'One evaluation and one last-output query are verified against an invariant of the session, so every sequence is covered; parsing is assumed to be some function of the settings and the text.' + AST
NOTE['C21'] = 'Proved by induction over the tree: the printed form of each node is its operator around the printed operands, and an operand stands without parentheses only where the precedence table of the parser (the constant OPERATORS, read from the current tree) binds it the same way; that the generated grammar follows that table is assumed and audited by reading printed texts back.' + AST
NOTE['C23'] = 'Proved by induction over the tree (the recursive call is replaced by the contract, which may be used on proper parts only), for any number of argument lists, arguments, options and statements.' + AST
NOTE['C25'] = 'Proved for every text of a literal node; that the generated parser recognises the literals as the grammar says is assumed (preconditions) and audited by parsing generated texts with the real parser.' + AST
NOTE['C26'] = 'Proved for any number of elements, lists, options, indices, prefixes and suffixes; each function of the tree builder is verified against the contracts of the others. Which children a node has is assumed from the grammar and audited by parsing generated texts with the real parser.' + AST
checks = [dict(property=p, quick_cmd=f'python3-vt check.py {p}', thorough_cmd=f'VERIF_TIER=thorough python3-vt check.py {p}', technique=T, level='proof', level_note=(NOTE.get(p, '') + ' ' + COMMON).strip()) for p in CLAIM]
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=[dict(property=q['id'], reason=NA[q['id']]) for q in P if q['id'] not in CLAIM],
         notes='Repairs of genuine defects are fix: commits in /repo, listed in known-findings.json. No hooks are needed in /repo.')
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
