"""writes /verif/MANIFEST.json from the obligations in specs/ and the list of properties"""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from properties import P  # noqa: E402

TECHNIQUE = 'predicated abstract interpretation of the source, compared in canonical form with a reference written from the property'
NOTE = ('For all inputs at once: every observed constraint, variable, effect, exception or value of the code is identical, '
        'under every condition, to that of a reference written from the property. Trusted: the interpreter of the Python '
        'subset and the models of the library functions it knows, exact real arithmetic, elements having their declared '
        'types. Not covered: anything outside the obligations listed in the evidence.')
OWN = {
    'C40': ('interprocedural dataflow over the package: where unordered collections and sources of chance arise and what consumes them',
            'Every set-valued expression, every call of hash/id/random/clock functions and every consumer (iteration, sequence '
            'construction, text, unpacking, parameter passing, attributes) in every function of the package. Not covered: order '
            'inside the libraries used, and objects whose type the analysis cannot see.'),
    'C48': ('whole-package name, attribute, call and initialisation analysis over the syntax tree with inferred types',
            'Every name, attribute, call, import, placeholder and optional parameter in every function, whatever path leads there, '
            'against the classes, signatures and library sources it is resolved to. Not covered: attributes of objects whose class '
            'the analysis cannot infer beyond being known to some library, values that may be None, scripts under __main__.'),
    'C47': ('interprocedural effect analysis: predicated abstract interpretation keeping only writes to what existed before the call',
            'Every path of every query named in the obligations, through everything it calls: no attribute, list, dictionary '
            'or array that existed before the question is written. Not covered: changes made inside the libraries used.'),
    'C39': ('interprocedural alias and effect analysis of in-place changes, plus predicated abstract interpretation against references',
            'Every statement that changes a container in place, in every function, against every container that entered through a '
            'parameter of a public function or constructor, through attributes, copies and calls. Not covered: changes made inside '
            'the libraries used, aliases through objects whose type the analysis cannot see.'),
}
NOT = {
    'C44': 'what a MILP solver returns depends on solver code and data outside this repository; no static argument over '
           'the package can bound it (that the model reaches the solver unchanged is C17)',
    'C45': 'the quality of a clustering is a numerical outcome of the tsam library on the given data, which the source '
           'does not determine',
    'C46': 'equality of objectives depends on the dynamics of the given system and the solver; only the handing over of '
           'states (C28) is a statement about the source',
}

have = {'C40', 'C48'}
for f in os.listdir(os.path.join(HERE, 'specs')):
    if f.endswith('.py'):
        with open(os.path.join(HERE, 'specs', f), encoding='utf-8') as fh:
            have |= set(re.findall(r"'(C\d+)'", fh.read()))

m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q gai check.py', 'checks': [], 'not_applicable': [],
     'notes': 'Nothing of /repo is executed by any check: check.py parses /repo/flixOpt on every run.'}
for p in P:
    i = p['id']
    if i in have and i not in NOT:
        technique, note = OWN.get(i, (TECHNIQUE, NOTE))
        m['checks'].append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'python3 check.py {i}',
                            'technique': technique, 'level': 'other', 'level_note': note})
    else:
        m['not_applicable'].append({'property': i, 'reason': NOT.get(i, 'no check built for it (yet)')})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not claimed')
