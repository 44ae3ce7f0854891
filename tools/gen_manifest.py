#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
MON = 'runtime monitoring: '
T = {
 'C01': 'reference-model monitor over edit histories, auditing all navigation answers after each edit',
 'C02': 'reference-model monitor of edit effects, whole forest compared after each edit',
 'C03': 'reference-model monitor of refused edits: error kind and unchanged state, payload ledger',
 'C04': 'membership monitor: every node queried through every handle kind after each edit',
 'C05': 'lifetime monitor: payload ledger plus weak upgrades against the model of live handles',
 'C06': 'payload construction/destruction ledger and allocator balance per history',
 'C07': 'lock-count monitor: acquisition outcome of every lock kind against the model count',
 'C08': 'lock-location monitor across moves, foreign-grant probes with state comparison',
 'C09': 'event-sequence oracle over depth-first traversals and event stepping',
 'C10': 'sequence oracle over sibling, ancestor and breadth-first traversals, allocation counting',
 'C11': 'iterator-contract monitor over random scripts of calls',
 'C12': 'event oracle and rebuild comparison over all targets and splittings',
 'C13': 'builder automaton monitor over exhaustive and random event streams',
 'C14': 'clone monitor: shape, data, locks, independence, refusal without trace',
 'C15': 'equality oracle over all handle kind pairs',
 'C16': 'borrow-state monitor and payload version ledger',
 'C17': 'independent renderer and line oracle for pretty printing; debug forms in all states',
 'C18': 'stack-bounded stress with deep and wide trees, stack use measured from callbacks',
 'C19': 'hostile callbacks (re-entrant, failing, panicking) with audits, payload ledger and crash watch',
 'C20': 'online monitor of traversals advanced while the tree is edited',
 'C21': 'differential monitoring of four builds by digests of all observations',
 'C22': 'generated literal programs with an evaluation log and a shape oracle',
 'C23': 'instruction counts of each operation under callgrind, large trees against small ones',
}
NOTE = {
 'C18': 'Holds for the operations, shapes and sizes that were run (up to 200,000 nodes on 128 KiB of stack; printing of deep trees is outside of the statement).',
 'C21': 'Compares builds of one crate version on generated programs; the no_std build still runs on a host with std.',
 'C22': 'Literals come from a generator of the documented grammar with a raised recursion limit; the compiler is trusted.',
 'C23': 'Compares counts at a few thousand nodes with those at some dozens; growth that shows only beyond that, or by less than a factor of 4, is not seen. Needs valgrind on x86-64.',
}
BASE = ('Held on the executions which were produced and observed (counts in the evidence file), in a build with assertions and one without; '
        'not a proof. Trusts the reference model and oracles in /verif/harness, the tool chain and the allocator.')
checks = []
for k in sorted(T):
    checks.append(dict(property=k, quick_cmd=f'python3 check.py {k}', thorough_cmd=f'VERIF_TIER=thorough python3 check.py {k}',
                       technique=MON + T[k], level='exploration', level_note=(NOTE.get(k, '') + ' ' + BASE).strip(),
                       evidence_file=f'evidence/{k}.json'))
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=[],
         notes='No hooks: everything is observed through the public API. Known and repaired defects: known_findings.txt.')
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')
