#!/usr/bin/env python3
import json, os
V = '/verif'
TECH = 'contracts on the real code; verification conditions from the LLVM IR of the current source, '
NOTE = {
 'C01': ('GF(2) polynomial identity', 'Proof for all operands and both builds: each result coefficient of operator*=, *, square, squared equals the reduced schoolbook product. Assumes clang IR semantics and the Intel manual for PCLMUL. A native bounded run only replays counterexamples.'),
 'C02': ('z3 bit-vectors', 'Proof for all operands and both builds of result, return value and frame of each additive and comparison operator.'),
 'C03': ('exponent arithmetic over the operator*= contract', 'Proof for every element: inverse() runs on an abstract nonzero element through the contract of operator*= (discharged in the same run) and yields el^(2^128-2); zero is executed; irreducibility of the field polynomial is checked.'),
 'C04': ('z3 bit-vectors', 'Proof for all 128-bit values of every constructor, conversion, as_words, serialize round trip, hash injectivity into the hash state, printed value and named constants. Archives, hash state and streams are recorded abstractly.'),
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
reasons = {}
if os.path.exists(V + '/tools/na.json'):
    reasons = json.load(open(V + '/tools/na.json'))
extra = V + '/tools/notes.json'
if os.path.exists(extra):
    NOTE.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
for p in props:
    i = p['id']
    if os.path.exists('%s/checks/%s.py' % (V, i.lower())) and i in NOTE:
        t, n = NOTE[i]
        checks.append(dict(property=i, quick_cmd='./check ' + i, thorough_cmd='VERIF_TIER=thorough ./check ' + i,
                           evidence_file='evidence/%s.json' % i, technique=TECH + t, level='proof', level_note=n))
    else:
        na.append(dict(property=i, reason=reasons.get(i, 'check under construction')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='No hooks in /repo: every check extracts the functions from the LLVM IR of the current source.'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'na')
