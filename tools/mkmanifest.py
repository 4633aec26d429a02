"""writes MANIFEST.json from the list of claimed checks"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = ('path-sensitive abstract interpretation of the compiler\'s MIR against a sequence/map model with an element '
      'ownership ledger')
NOTE = ('Static: nothing is executed. Every public operation is analysed from every valid container state, with '
        'symbolic capacity, length, storage position and element type, in a debug and a release configuration; a '
        'reported violation is a feasible path with an integer witness. Loops are summarised by induction over the '
        'number of iterations; where that fails they are unrolled to a bound and the paths beyond are counted as cut '
        '(evidence lists them), so the claim is exploration, not a proof. '
        'Trusts the models of core library functions, rustc\'s MIR and the bitmaps crate.')
STR = {
    'C10': ('constant evaluation of the layout expressions of the compiler\'s MIR over symbolic sizes and alignments',
            'Every layout case is decided by linear arithmetic; trusts rustc\'s size/alignment rules and the MIR.'),
    'C16': ('region and mutability analysis of public signatures, reborrow analysis of mutable iterators over MIR, '
            'and compile-fail witnesses',
            'Signature rules cover every public function; witnesses are fixed programs each with a compiling twin.'),
    'C17': ('auto-trait and variance queries against the type-checked program (compile-fail witnesses with twins)',
            'Every public container, slice and iterator type is queried; trusts rustc\'s trait solver.'),
    'C20': ('call-graph effect analysis over MIR (no path to the allocator outside panic paths)',
            'Over-approximates calls of every public operation, into core and bitmaps.'),
    'C21': ('loop and length-dependent-copy effect analysis over the MIR call graph',
            'No-loop/no-bulk-move rule for the operations listed in the property.'),
}
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {
    'C22': 'Running time and cache behaviour depend on the machine and on amortisation over whole histories of calls; '
           'no sound static argument over this source bounds wall time (the purely structural part is C21).',
    'C23': 'Which values a generator can produce from unstructured bytes is an existential claim about another '
           'crate\'s byte-consumption strategy; a static over-approximation cannot show that values are reachable.',
}
import sys
AIIDS = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C11', 'C12', 'C13', 'C14', 'C15', 'C18', 'C19', 'C24', 'C25']
have = AIIDS + [i for i in STR if os.path.exists(os.path.join(V, 'vp', 'structural.py')) and
                ("'%s'" % i) in open(os.path.join(V, 'vp', 'structural.py')).read()]
checks = []
for i in ids:
    if i not in have:
        continue
    t, n = STR.get(i, (AI, NOTE))
    checks.append(dict(property=i, quick_cmd='python3 -m vp.check %s --tier quick' % i,
                       thorough_cmd='python3 -m vp.check %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=t, level='other', level_note=n))
na = [dict(property=i, reason=NA.get(i, 'no check registered yet')) for i in ids if i not in have]
json.dump(dict(version=1, setup_cmd='python3 -m vp.setup', checks=checks, not_applicable=na,
               notes='See DESIGN.md. No hooks are needed in /repo.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
