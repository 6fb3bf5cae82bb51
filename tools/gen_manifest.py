#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, 'tools'))
from checks import PROPS
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = 'property-based testing: generated operation histories against a reference model, with shrinking'
T = {'C11': 'property-based testing: generated histories with injected cloner exceptions against a reference model, with shrinking',
     'C12': 'property-based testing: generated histories with injected functor exceptions, invariants over the result, with shrinking',
     'C21': 'property-based testing: generated addresses, bits and store sequences against a reference model',
     'C22': 'property-based testing: generated hash values and bucket counts against reference arithmetic',
     'C18': 'property-based testing: generated node structures and arguments against a sequence or tree model, with shrinking',
     'C24': 'property-based testing: generated histories with injected damage, a reference validity predicate as oracle, with shrinking',
     'C25': 'property-based testing: generated keys and operation histories against a sequence searched with equality, with shrinking',
     'C26': 'property-based testing: generated operation histories with counted link accesses and functor calls against documented bounds, with shrinking',
     'C27': 'property-based testing: generated operation histories under page protection, an access-locality invariant as oracle, with shrinking',
     'C28': 'property-based testing: generated operation histories with observed allocator, stack depth and element life, invariants per operation, with shrinking',
     'C23': 'property-based testing: generated histories with injected misuse, expected assertion as oracle, with shrinking'}
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks in /repo: the harnesses use the public interface only. Known and repaired defects: known_findings.txt.'}
for i in ids:
    if i in PROPS:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 run.py %s' % i, 'thorough_cmd': 'python3 run.py %s --tier thorough' % i,
                            'technique': T.get(i, TECH), 'level': 'exploration',
                            'level_note': 'Holds on every generated case of the run (counts and distribution in the evidence file); assurance is bounded by the generator: container sizes to some hundreds, histories to 500 operations, the listed configurations. Trusts the model in harness/, clang and its sanitizers.'})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'check under construction'})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
