#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = 'explicit enumeration of all operation sequences to a depth on the real code, each state compared with a reference map'
CON = 'stateless model checking of the real code: every interleaving of memory accesses (dynamic partial-order reduction under a controlled scheduler), every history checked'
NS = 'Exhaustive within the listed seeds, alphabets and depth; nothing is sampled. Larger trees are covered by fixed families (grids, fan-outs), longer histories by repetition of every pair of operations only.'
NC = ('All interleavings at the granularity of single memory accesses for scenarios of two threads (three threads: all, or all up to a preemption bound where the '
      'evidence says so), under sequential consistency, with a reclamation model as eager as crossbeam-epoch may be; short two-thread programs of C06-C09 and C13 also under a release/acquire model, with up to two reads of overwritten values. More threads are not covered.')
BOTH = CON + '; plus ' + SEQ
T = {
    'C01': (SEQ, NS), 'C02': ('enumeration on the real code of all subsets of key universes, all pairs of bounds and all buffer sizes, compared with a reference map', NS),
    'C03': ('enumeration on the real code of fan-outs 0..256 at every byte position, all insertion and removal orders of small key sets, all short operation sequences', NS),
    'C04': (SEQ, NS), 'C05': (BOTH, NC), 'C06': (CON + ' for linearizability', NC), 'C07': (CON + ' for linearizability', NC),
    'C08': (CON + ' against the scan window rule', NC),
    'C09': (CON + '; every access checked against the allocator state', NC),
    'C10': (BOTH + '; allocator accounting in every state; plus every short history over the real crossbeam-epoch', NC),
    'C11': ('enumeration of every allocation failure in every short operation sequence and in concurrent scenarios under all interleavings, on the real code', NC),
    'C12': (SEQ + '; the tree is dropped in every state', NS), 'C13': (BOTH + '; conservation of values checked in every execution', NC),
    'C14': (CON + '; retry loops that cannot progress are recognised as deadlock or livelock', NC),
    'C15': ('enumeration of a panic at every closure call in every short sequence and in concurrent scenarios under all interleavings, on the real code', NC),
    'C16': (BOTH + '; statistics compared with the allocator and the history', NC),
    'C17': (BOTH + '; through every front end', NC), 'C18': (BOTH + '; two trees', NC),
}
checks = []
for p, (t, n) in T.items():
    checks.append(dict(property=p, quick_cmd=f'python3 tools/check.py {p} quick', thorough_cmd=f'python3 tools/check.py {p} thorough',
                       evidence_file=f'evidence/{p}.json', technique=t, level='model_checking', level_note=n))
m = dict(version=1, setup_cmd='bash tools/setup.sh',
         hooks=dict(guard='congee_verif', enable='mc/wrap.sh (RUSTC_WRAPPER) passes --cfg congee_verif when it compiles congee; RUSTFLAGS does for mc/real', source_commits=['7a0462c']),
         checks=checks, not_applicable=[])
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
