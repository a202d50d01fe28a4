#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the harnesses present.
import json, re, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
have = set()
wb = set()
for f in glob.glob(root + '/vxh/*.go'):
    have |= set(re.findall(r'^func H_(C\d\d)_', open(f).read(), re.M))
for f in glob.glob(root + '/wb/*.go'):
    wb |= set(re.findall(r'^func H_(C\d\d)_', open(f).read(), re.M))
NA = {
 'C39': 'a lower bound on the work of every possible attack on scrypt is a complexity-theoretic claim; no symbolic execution of this code within bounds can decide it (that the key file states and enforces its parameters is decided under C20/C21)',
 'C40': 'commutation of X25519 scalar multiplication with the Ed25519 map is 255-bit field arithmetic over about 255 ladder steps in assembly/unrolled limb code, far outside what a bit-vector solver decides; the byte-level conversion around it is decided under C35',
 'C41': 'timing is not observable in a symbolic execution of SSA code, and the constant-time primitives are in assembly',
}
LN = json.load(open(root + '/tools/levelnotes.json')) if os.path.exists(root + '/tools/levelnotes.json') else {}
base = ('Bounded: every value of the symbolic inputs within the bounds printed in the evidence file, all paths. '
        'Trusts: the engine (go/ssa interpreter, checked against the compiled code on sampled paths and on every counterexample), Z3, '
        'ideal models of the cryptographic primitives, and the in-memory model of the operating system where files are involved.')
checks, na = [], []
for p in props:
    i = p['id']
    if i in have and i not in NA:
        checks.append({
            'property': i,
            'quick_cmd': './check.sh %s quick' % i,
            'thorough_cmd': './check.sh %s thorough' % i,
            'technique': 'symbolic execution of the Go SSA of the real code with SMT (Z3, QF_BV); counterexamples replayed on the compiled code' + ('; partly on unexported functions' if i in wb else ''),
            'level': 'model_checking',
            'level_note': (LN.get(i, '') + ' ' + base).strip(),
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: harnesses and models enter through build overlays. Known and fixed findings are in known-findings.json.'}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
