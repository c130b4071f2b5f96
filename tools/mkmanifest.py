#!/usr/bin/env python3
"""Writes MANIFEST.json: which properties are claimed is the list below."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
src = open(V + '/sim/cmd/simworker/props.go').read()
have = set(re.findall(r'(?:concurrent\(|ID: )"(C\d\d)"', src))
COMMON = ("Seeded search, not proof: assurance is what the stated number of simulated runs explored. Interleavings are chosen between "
          "statements; the standard library runs without preemption inside. ")
race = "A second batch of runs executes the same schedules under the Go race detector with the simulated locks and pool as its only synchronisation. "
NOTE = {
 'C01': race + "Reference: the same operation alone in a simulated fresh process (package variables reset, empty pool) on variables of the same contents, so an error common to both is not seen (correct rounding itself is P01).",
 'C02': race + "Shared values are compared with their memory image after every step of every task, so a write that is undone before the call returns is seen. Reference for answers: the call alone on a rebuilt value.",
 'C03': race + "Oracle: exact arithmetic of math/big with powers of ten the harness computes itself.",
 'C04': race + "Oracle: digits of the constants computed by the harness with math/big only, rounded by the harness.",
 'C05': race + "The pool is simulated: it hands out brand-new items, items in the state they were released in, withholds or drops them at random, and scribbles over released items to catch reads and writes after release.",
 'C06': "Reference: the operation on distinct variables with the same contents.",
 'C07': "Reference: the operation on a new receiver with the same context.",
 'C08': "After every operation every other variable and every object exchanged with the library is compared with what it was; objects the caller owns are overwritten in place (whole capacity) at random moments.",
 'C09': "Oracle: the position and error the simulated source failed with.",
 'C10': "Oracle: an independent implementation of the documented grammar, plus agreement between all ways in.",
 'C11': "Oracle: agreement of all queries with a newly made decimal of the same value, and later operations compared with themselves on newly made operands.",
 'C12': "Oracle: the text the same call gives with a writer that takes everything; accepted bytes must be a prefix of it.",
 'C13': "Oracle: exact evaluation of the truncated fraction with big.Rat.",
 'C14': "Oracle: exact evaluation of the partial sum with big.Rat.",
 'C15': race + "Reference: the same operation alone in a simulated fresh process; deadlocks (a lock left held) are detected exactly.",
 'C16': race + "Oracle: exact value, limits of the type, and the answer of an untouched wrapper.",
 'C17': "Oracle: the cases that were generated, and the position at which the simulated stream failed.",
}
NA = {
 'P': "a statement about single calls that depends on no scheduling, time, I/O, fault or history: deterministic simulation has nothing to vary here; it would be decided by input generation against an arithmetic oracle, another technique",
}
NAX = {
 'P01': "Correct rounding of one call is a function of operands and context alone: there is no schedule, fault, clock or history to simulate; an arithmetic oracle over generated inputs would be a different technique.",
 'P02': "Accuracy of elementary functions depends on operand and precision alone; no nondeterminism for a simulator to control. (How they share constants, pool and table is C03-C05.)",
 'P03': "Comparison of two values has no concurrency, I/O or history in it. (That comparing does not write its operands is C02.)",
 'P04': "The text of a value is a pure function of the value. (Writers, readers and their faults are C09-C12.)",
 'P05': "Conversions are pure functions of the value. (Ownership of the converted objects is C08, powers of ten are C03.)",
 'P06': "Rounding one value in one context is a pure function. (In-place and aliased use is C06.)",
 'P07': "What a result beyond the exponent limits becomes is a pure function of the exact result and the context.",
 'P08': "The division identity is a statement about one call on two values; nothing nondeterministic takes part.",
 'P09': "Propagation of NaNs within one call is a pure function of operands and mode. (What a Go-mode panic leaves behind is C15.)",
 'P10': "Decomposing and composing are pure functions of the parts. (Ownership of the coefficient buffer is C08.)",
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append({
            'property': i,
            'quick_cmd': 'bash /verif/check.sh %s quick' % i,
            'thorough_cmd': 'bash /verif/check.sh %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'deterministic simulation with fault injection: seeded search over schedules, histories and faults, history checked against a reference',
            'level': 'exploration',
            'level_note': COMMON + NOTE[i],
        })
    else:
        na.append({'property': i, 'reason': NAX.get(i, 'no check yet')})
m = {'version': 1, 'setup_cmd': 'bash /verif/build.sh plain race',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are committed in /repo: the seams (a scheduling point before every statement, simulated sync and pool, reset of package variables) are put in at build time by sim/cmd/simgen through go build -overlay, from the current working tree. Replay: bash /verif/check.sh replay FILE.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed', [x['property'] for x in na])
