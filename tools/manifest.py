#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED lists the properties that have a check."""
import json, sys
CLAIMED = sys.argv[1].split(',') if len(sys.argv) > 1 else [f'C{i:02d}' for i in range(1, 17)]
TRUST = (" Trusted: the simulator's models of goroutine scheduling, channels, sync, time, math/rand and the file system,"
         " gonum/cobra/encoding packages, and that statements without shared accesses are atomic (sequential consistency).")
NOTES = {
 'C01': "Seeded search over schedules of the real branch and bound code on random data sets; the result is compared with an independent exhaustive evaluation of all models.",
 'C02': "Seeded search over schedules, queue limits, list sizes and start models; every listed model is recomputed by an independent least-squares solver.",
 'C03': "Seeded search over schedules of all parallel routines; deadlock, panics and goroutines that never end after the return are detected by the simulator, return within a bounded number of steps under fair scheduling.",
 'C04': "Seeded search over schedules with small queue limits; the start model's score and the persistence of listed models are checked on lists read during the search.",
 'C05': "Seeded search over schedules of writers and readers of the search progress; histories are checked against an atomic register, and reads during real searches against the set of real scores.",
 'C06': "Seeded search over schedules of goroutines sharing one list; every history is checked for linearizability against a small reference model.",
 'C07': "The real bnb command runs on a simulated disk with I/O errors, short writes, crashes and power cuts; the output file is checked at every change, after every crash and at every possible power cut.",
 'C08': "The real lasso, sasearch and nestedlasso commands run on a simulated disk with I/O errors, short reads and writes and crashes; announcements are compared with the stored bytes.",
 'C09': "The real parser reads from streams that split, delay and fail at seeded points; the result is compared with the generated table.",
 'C10': "The real writers and readers run over streams and a simulated disk that split and fail at seeded points; the cycle is compared with the original, partial output with the full text.",
 'C11': "Seeded search over schedules of the real parallel path; every node is compared with solving its value alone in a fresh simulation.",
 'C12': "Seeded search over schedules with recorded samples of targets whose kappa is known in advance; the printed and returned values are compared with them; the real cohenlasso command is compared with the kappas of all possible partitions.",
 'C13': "Seeded search over schedules and ticker firings; the threshold is compared with an independent computation over the recorded row splits and with the default schedule.",
 'C14': "The real annealing runs on adversarial random streams under a step bound; its results are compared with independent fits and with the scores recorded during the run.",
 'C16': "The real plotlasso command runs on a simulated disk with I/O errors, short reads and writes, crashes and cut results; every announced figure is compared with the figure drawn from the stored result.",
 'C15': "Seeded search over interleavings of several concurrent calls with their own random streams; results are compared with each call running alone, inputs with copies.",
}
NA = "The property is a numerical statement about one sequential computation: its code has no concurrency, time, I/O, randomness or multi-party behaviour, so there is no schedule, fault or history for a deterministic simulation to explore; deciding it needs input generation or proof over the input data alone."
m = {
 'version': 1,
 'setup_cmd': 'bash sim/setup.sh',
 'checks': [], 'not_applicable': [],
 'notes': "No hooks in /repo: the checks instrument a scratch copy of the working tree. bash sim/replay.sh FILE replays a reported violation. known_findings.txt lists the defects found (all repaired).",
}
for l in open('/verif/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    if i in CLAIMED:
        m['checks'].append({
            'property': i,
            'quick_cmd': f'bash sim/check.sh {i} quick',
            'thorough_cmd': f'bash sim/check.sh {i} thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': 'deterministic simulation with fault injection (seeded schedule and fault search)',
            'level': 'exploration',
            'level_note': NOTES[i] + TRUST,
        })
    elif i.startswith('N'):
        m['not_applicable'].append({'property': i, 'reason': NA})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'check not built yet'})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
