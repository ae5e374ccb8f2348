#!/usr/bin/env python3
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': 'deterministic simulation: histories of edits and saves with injected system call errors, short writes, full disks and interrupts; directory image and independent decoding as oracle',
 'C02': 'deterministic simulation: crash (kill and power cut) at every recorded system call of saves, disk states reconstructed under a write-back model, restart and recovery check',
 'C03': 'deterministic simulation: seeded schedules of concurrent opens and saves over file system calls and library lines, linearizability of each path as a register',
 'C04': 'deterministic simulation: histories with faults, crashes and restarts refined against an executable model and an independent KDBX codec',
 'C05': 'deterministic simulation: storage damage injected between save and open, key derivation observed, contents compared with the saved ones',
 'C06': 'deterministic simulation: histories of credential changes with faults and restarts against a credential model, near-miss credentials',
 'C07': 'deterministic simulation: failing opens, reloads, saves and edits placed in histories, complete object state compared before and after',
 'C08': 'deterministic simulation: histories of attachment operations with faults and restarts against a model with identity-bound contents',
 'C09': 'deterministic simulation: simulated clock and time zone with jumps and stalls, instants compared with the model',
 'C10': 'deterministic simulation: simulated clock and random source, stalls, backward jumps and restarts; uniqueness over the recorded history',
 'C11': 'deterministic simulation: every byte written is observed, keys of all saves are recovered by an independent reader and compared over the history',
 'C12': 'deterministic simulation: simulated streams with short transfers, errors and early end in histories, result decoded independently',
 'C13': 'deterministic simulation: seeded schedules at line and system call granularity of independent histories, each against its own model',
 'C14': 'deterministic simulation: histories with faults and restarts on databases with foreign content, frame condition against the model',
 'C15': 'deterministic simulation: histories of history operations with faults and restarts against the model',
 'C16': 'deterministic simulation: histories of tree operations with faults and restarts, conservation against the model',
}
note = ('Seeded search over simulated runs of the real library; clean runs are evidence for the sampled histories, schedules and faults, not a proof. Trusted: the simulated disk, clock and scheduler '
        '(sim/seam.py, sim/shim.c), the model (sim/model.py) and the independent KDBX reader and writer (sim/kdbxref.py). Every run is a pure function of its seed; violations are minimised and replayable with '
        '--replay FILE.')
m = dict(version=1, setup_cmd='bash setup.sh',
         checks=[dict(property=p, quick_cmd='/opt/venv/bin/python check.py %s --tier quick' % p, thorough_cmd='/opt/venv/bin/python check.py %s --tier thorough' % p,
                      evidence_file='evidence/%s.json' % p, technique=T[p], level='exploration', level_note=note) for p in sorted(T)],
         not_applicable=[
             dict(property='C17', reason='A search is a pure function of the tree and the criteria: no clock, I/O, schedule or failure takes part, so there is nothing for a simulator to control; this is a matter for property-based testing.'),
             dict(property='C18', reason='Reference resolution is a pure function of the entries and the value; nothing nondeterministic takes part.'),
             dict(property='C19', reason='Ciphers and key derivations are pure functions; simulation only exercises them on the sampled keys (the independent codec would notice a gross error).')],
         notes='No hooks in /repo: the seam is libc (LD_PRELOAD), Python threading locks and sys.settrace. All commits in /repo are fixes.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
