#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (per property: the method that decides it, and what it assures)."""
import ast, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = 'property-based testing (Hypothesis, shrinking): '
T = {
 1: 'values of every type against an independent encoder, and round trip',
 2: 'mutated, cut and arbitrary bytes against an independent strict parser (accept / truncated / reject)',
 3: 'arbitrary values against independently computed validity verdicts, field by field',
 4: 'model-based, against tuples of bits',
 5: 'pairs and lists against tuple ordering; short pairs exhaustive',
 6: 'round trip and reference packing of generated bit strings; padding mutations',
 7: 'nested proofs against an independent commitment; pairs for distinctness',
 8: 'stateful histories on pruned views against a model of what was used',
 9: 'generated prunings through the wire, against reference bytes and a visibility model',
 10: 'stateful histories over a growing set of versions, each compared with its snapshot',
 11: 'generated unions and families against reference numbering, bytes and hashes',
 12: 'stateful histories against a Python list',
 13: 'build histories against the documented recursive construction; related pairs',
 14: 'generated prunings, transports and forged nodes; same/true/refused oracle',
 15: 'stateful histories against a dict',
 16: 'histories against the documented recursive construction; related pairs',
 17: 'related mappings against dict inclusion; small cases exhaustive',
 18: 'generated prunings, transports and forged nodes; same/true/refused oracle',
 19: 'digests and their edits against equality, whole / pruned / transported',
 20: 'edited and re-encoded closing scripts against three reference scripts',
 21: 'near-miss witnesses against a two-condition reference verdict, pruned and transported',
 22: 'generated templates against reference transactions, closing the loop through verification',
 23: 'generated transactions against reference txids and bytes, whole / pruned / transported',
 24: 'generated maps with one ingredient replaced, against a reference verdict',
 25: 'generated maps through pruning and transport, same verdict and reference bytes',
 26: 'generated command sequences, right and with one thing wrong, against a reference of every file and output',
 27: 'generated structures against an independent encoder, and round trip',
 28: 'cut, extended, mutated encodings against an independent reader',
 29: 'stateful histories over a pool of mutable and immutable objects against a plain-value model',
 30: 'generated elements and raw bytes against reference pushes and an independent parser',
 31: 'generated scripts against byte-level definitions',
 32: 'generated transactions and scripts against a reference signature hash',
 33: 'generated programs, differential against a reference interpreter',
 34: 'generated signed spends, differential against a reference interpreter with pure-Python ECDSA',
 35: 'generated script pairs, differential against a reference composition',
 36: 'generated integers and byte strings against the definition; short ones exhaustive',
 37: 'generated bytes, texts and corruptions against the reference algorithm',
 38: 'generated scripts, keys and network histories against template matching',
 39: 'generated keys and spoiled signatures, differential against pure-Python secp256k1',
 40: 'transactions with planted faults against a rule list',
 41: 'blocks with planted faults against a rule list',
 42: 'compact targets and near-miss hashes against exact arithmetic',
 43: 'generated id lists against a level-by-level reference',
 44: 'generated, streamed and damaged messages against an independent encoder',
 45: 'stateful histories against a bit-array model and reference MurmurHash3',
 46: 'generated call sequences against a stand-in for the network that parses each request',
 47: 'generated bytes, texts and amounts against integer arithmetic',
 48: 'generated selection histories against a parameter table; pairs exhaustive',
 50: 'generated objects of every kind, printed and evaluated back',
 51: 'histories, thread interleavings and processes, differential against each operation alone',
 52: 'signed spends and their alterations against the table of what each hash type commits to',
 53: 'mixed streams against independent encoders, every cut',
 54: 'pairs of objects of all kinds against equality of kind and reference bytes',
 55: 'histories on large collections, calls counted against bounds by path length or size',
 56: 'structure-aware mutation of encodings, calls and memory counted against bounds by length',
 57: 'generated failing programs, errors compared with a reference interpreter that remembers every state',
 49: 'generated counts, strings and lists against an independent encoder, and round trip',
}
checks = []
for n in sorted(T):
    p = 'C%02d' % n
    path = os.path.join(HERE, 'pbt', 'checks', 'c%02d.py' % n)
    if not os.path.exists(path):
        continue
    env = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') in ('RULE', 'ASSUMPTIONS'):
            env[node.targets[0].id] = ast.literal_eval(node.value)
    note = 'No counterexample among the generated cases (counted in the evidence file); not a proof.'
    if env['ASSUMPTIONS']:
        note += ' Assumes: ' + '; '.join(env['ASSUMPTIONS']) + '.'
    checks.append({'property': p, 'quick_cmd': 'python3-vt run_check.py %s' % p,
                   'thorough_cmd': 'python3-vt run_check.py %s --tier thorough' % p,
                   'technique': G + T[n], 'level': 'exploration', 'level_note': note})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import hypothesis; print(hypothesis.__version__)"',
     'checks': checks, 'not_applicable': [],
     'notes': 'Pure Python: nothing to build; every check imports the code from /repo when it starts. No hooks.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks))
