"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SYM = 'path summaries over MIR (dataflow) compared with a specification'
TECH = {
    'C01': 'whole-crate panic-reachability analysis on MIR path summaries, with a recursion (call-graph SCC) check',
    'C02': 'termination-measure check of every loop back edge on MIR, with a recursion check',
    'C15': SYM, 'C16': SYM,
    'C17': 'grammar extraction and tree-language inclusion, with regular-language equivalence of the tokens',
    'C18': 'regular-language equivalence and path summaries over MIR',
    'C19': 'regular-language equivalence of the line expressions and path summaries over MIR',
    'C20': 'path summaries over MIR and regular-language equivalence',
    'C21': 'effect analysis of every callee, and taint of hash-table order through MIR path summaries',
    'C22': 'type facts from the trait solver (Send, Sync, interior mutability), signatures, compile-fail programs',
    'C23': 'type facts (ownership, interior mutability, privacy), signatures, effects, compile-fail programs',
}
NOTE = ('Every path of the functions the property is anchored in, for all inputs, relative to the models of the standard library and of regex in lib/models.py; '
        'loops are related to the loops of the specification for any number of turns (otherwise up to 3 turns, as the evidence says). '
        'What the analysis cannot decide is listed as undecided in the evidence and raises no alarm.')
NOTES = {
    'C17': 'All productions of the generated grammar and all token expressions; trusts the LR tables of lalrpop for the grammar they are generated from.',
    'C21': 'Every callee named in the crate, classified; trusts the third-party crates (regex, locale_config, lalrpop_util) to be pure; the Debug text of a unit (derived, flags in hash order) is not a result.',
    'C22': 'Decided by the compiler for every program: trait solving on the current types and compile-pass/compile-fail twins.',
    'C23': 'Decided by the compiler for every program: types, privacy, signatures and compile-pass/compile-fail twins.',
}


def main():
    checks = []
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(l)['id']
        checks.append({
            'property': p, 'quick_cmd': 'python3 check.py %s' % p, 'thorough_cmd': 'python3 check.py %s --thorough' % p,
            'evidence_file': 'evidence/%s.json' % p, 'technique': 'static analysis: ' + TECH.get(p, SYM), 'level': 'other',
            'level_note': NOTES.get(p, NOTE)})
    m = {'version': 1, 'setup_cmd': 'python3 lib/dump.py', 'checks': checks, 'not_applicable': [],
         'notes': 'The checks share one analysis of the MIR of /repo (cached under build/ by the hash of the source). No hook in /repo is needed.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
