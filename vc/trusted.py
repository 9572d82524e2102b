"""The trusted base, as reported in the evidence."""
import lem, theory
PROVED_IN_LEAN = set()
ALWAYS = ('tdiv_def', 'gcd_def', 'isqrt_def')
def lemmas(used):
    out = []
    for l in sorted(set(used) | set(ALWAYS)):
        L = lem.LEMMAS.get(l)
        if L is not None and l in PROVED_IN_LEAN: out.append(f'{l} (proved in /verif/lean, checked by Lean in this run): ' + lem.statement(L))
    return out
def base(models, used, unit):
    out = ['rustc (nightly): the MIR it produces is the program that runs', 'z3, cvc5, and the polynomial-ideal checker vc/ring.py: unsat / membership answers are right',
           'vc/: the symbolic semantics of MIR statements and the verification-condition generator', 'Lean 4 with Mathlib: the lemmas listed under coverage.lemmas, about the functions defined in /verif/lean']
    if unit.ast:
        out += ["sm_ast is compiled from /repo against stand-ins for crates the sandbox lacks (/verif/ast/stubs: pest, bigdecimal, lazy_static, text-utils, wolfram_wxf); obligations depend on their signatures only",
                'vc/adt.py, vc/text.py: values of structures, enumerations, texts and containers as integer codes with selectors',
                'functions carrying #[derive(Clone)] return their argument']
        if unit.prop == 'C18': out.append('assumed contract of ParserSettings::parse: a function of the settings and the text (no contract within reach decides the generated parser)')
        if unit.prop == 'C21': out.append('assumed meaning of the grammar: a text of operands joined by infix operators groups by the precedence and associativity of the constant OPERATORS (read from the current tree), prefix operators bind tighter than infix and suffix tighter than prefix, and parentheses delimit an operand (audited: the printed text is read back by the real generated parser)')
        if unit.prop == 'C23': out += ['assumed contract of wolfram_wxf: WolframValue::symbol and ::function build the Symbol and Function values they are named after, ::function exporting each argument in order',
                                       'assumed contract of text_utils::capitalize_first_letter: a function of its text', 'the options of an argument list are a finite sequence of pairs that iteration visits once each, in key order']
        if unit.prop in ('C25', 'C26'): out += ["assumed contract of the parse tree (vc/pairs.py): a node has a rule, a text, a span and a sequence of children, and asking for them changes nothing; into_inner yields the children in order",
                                               "assumed grammar (stated as preconditions in vc/parse_contracts.py, from simple-math.pest): which rules the children of each node have, and which of them at most once; the rules exercised by the concrete runs are the real generated parser's"]
        if unit.prop == 'C25': out += ['assumed contract of num-bigint: from_str and from_str_radix give the value of a numeral (digits of the base, underscores between but not before them) and fail on an underscore in front',
                                       'assumed contract of std: trim_start_matches / replace of underscores keep the value of a numeral; slicing a text between character boundaries gives the text between them; collecting characters into a text gives the text with these characters; BigDecimal::from_str_radix is a function of its text']
        if unit.prop == 'C26': out += ['the operator tables (prefix_map, suffix_map, infix_map) are here some function of the text (verified under C14), the literals likewise (C25)', 'the conversion of a parse error into the crate\'s error is total',
                                       'assumed contract of PrecClimber::climb: it applies the primary closure to each operand and the infix closure to an operator and the two sides it joins; grouping is that of the table (C14)',
                                       'parse_expr, parse_term, parse_node and the rest call one another: each is verified against the contracts of the others (induction over the height of the parse tree)']
        if unit.prop == 'C19': out.append('sm_algorithm::factorial_i, fibonacci_i and prime_sum_i are here some function of their argument (verified under C08, C10 and C12)')
    for m in models: out.append(f'assumed contract of a dependency (model in vc/intr.py): {m}')
    for l in sorted(set(used) | set(ALWAYS)):
        L = lem.LEMMAS.get(l)
        if l.startswith('exported_'):
            if l == 'exported_list_items': out.append('two sequences of the same length and the same items are the same value (extensionality of the codes of sequences)')
            elif l == 'exported_head_0': out.append('definition of the expected export of a call: its head applied to one list after another, each list its arguments in order, then a rule per option')
        elif l.startswith(('kept_', 'options_', 'built_', 'prefixed_')):
            d = {'kept_before_0': 'kept_before(p, k): how many of the first k children of p are elements; kept(p, j): the j-th of them', 'options_0': 'option_names / option_values(p, k): the options that the first k children of p leave, the last one of a name winning',
                 'kept_dense': 'where every child from some place on is an element and none before, the elements are those children (induction on their number, not machine-checked)',
                 'built_0': 'built(p, k, c): c is what the first k children of a term make of its node, suffixes and indices each applied to what is on their left (least relation)', 'prefixed_all': 'prefixed(p, j, c): c is that with the prefixes from the j-th on applied, the last one first (least relation)'}.get(l)
            if d: out.append('definition of a specification function: ' + d)
        elif l == 'same_text': out.append('texts of the same characters are the same text (extensionality of the codes of texts)')
        elif L is None: out.append(f'reference data, not proved: {l} (vc/tables.py)')
        elif l not in PROVED_IN_LEAN: out.append(f'lemma {l} (not machine-checked in this run): ' + lem.statement(L))
    return out
def assumptions(unit, proof):
    return (['fewer than 2^64-1 evaluations in one session'] if unit.prop == 'C18' else []) + ['BigInt/BigUint arithmetic of num-bigint is exact integer arithmetic (assumed contract; audited by the concrete runs)',
            'memory and address space are sufficient (no allocation failure, sequences shorter than 2^58)', 'no unsafe code occurs in the verified functions']
