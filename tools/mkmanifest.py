#!/usr/bin/env python3
"""Write MANIFEST.json from the drivers present in mc/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'stateless model checking of the compiled sources: exhaustive enumeration of '
METHOD = {
    'C01': 'server answers, local store changes and write faults',
    'C02': 'server answers, local store changes and write faults',
    'C03': 'store lists and server answers against a reference of the store chain',
    'C04': 'store lists and server answers against a reference of the store chain',
    'C05': 'store lists, targets and server answers against a reference of the store chain',
    'C06': 'interruption points and lost or torn unflushed writes, repeatedly',
    'C07': 'side-loaded indices and later answers, compared with runs without them',
    'C08': 'store contents, chunk parameters and read splits against a reference chunker',
    'C09': 'index mutations against a reference validator',
    'C10': 'hostile input mutations under address and undefined behaviour checks',
    'C11': 'splits of response bodies and damages of them',
    'C12': 'sequences of server answers against a reference of the retry rules',
    'C13': 'keys, key sources, ids and contents against a reference cipher',
    'C14': 'csn-tool inputs, system call faults and interruption points',
    'C15': 'patchdd inputs, system call faults and interruption points',
    'C16': 'single and paired system call faults and short transfers',
    'C17': 'flush faults and answers, checking the order of writes and flushes',
    'C18': 'kernel hash socket faults, compared with runs without it',
    'C19': 'command lines, compared between the two programs',
    'C20': 'store URLs, attributes and answers, checking every request',
    'C21': 'response bodies with a bound on the memory held',
    'C23': 'log levels, terminals, output faults, answers and system call faults, compared with plain runs',
    'C22': 'store contents and lookup sequences against a reference',
}
NOTE = ('Every execution within the stated bounds of the programs compiled from /repo (with ASan/UBSan) in a virtual environment '
        'is enumerated and judged by an independent oracle; a part of the executions is repeated with the plain programs on the '
        'real system. Trusted: the environment model in mc/rt_env.cc, the references in mc/ref.cc, gcc, libzstd and libcrypto. ')
MORE = {}
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
have = [p for p in props if os.path.exists(os.path.join(V, 'mc', 'p_%s.cc' % p))]
m = {
    'version': 1,
    'setup_cmd': 'python3 tools/build.py ' + ' '.join(have),
    'checks': [{
        'property': p,
        'quick_cmd': './check %s quick' % p,
        'thorough_cmd': './check %s thorough' % p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': T + METHOD[p],
        'level': 'model_checking',
        'level_note': NOTE + MORE.get(p, 'Bounds: see "bounds" in the evidence and DESIGN.md.'),
    } for p in have],
    'not_applicable': [{'property': p, 'reason': 'no check built yet'} for p in props if p not in have],
}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
