#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'deterministic simulation with fault injection (seeded search over schedules and faults)'
NOTE = ('Seeded search, so absence of a violation is evidence over the explored runs, not proof. The code '
        'under test and google-cloud-ndb run unmodified; the datastore server, memcached, HTTP, DNS, '
        'clocks, entropy and thread scheduling are simulated models and are trusted. ')
NOTES = {
    'C01': 'Crashes happen at datastore RPC boundaries (before or after the server applied the call).',
    'C02': 'Concurrent committers in several processes, with aborts, ambiguous commits and crashes.',
    'C03': 'All four allocators; memcache evictions and failures; a known finding (stale memcache counter) is listed.',
    'C04': 'The websocket framing and transport are outside: subscribers iterate the generator behind it.',
    'C05': 'As C04. Liveness is checked within a bound that counts one waiting period per unused number. Known finding: numbers in flight when the collector starts.',
    'C06': 'As C04. Events up to 14 operations per commit; imported trees, recurring records and nodes included.',
    'C07': 'Stale handles, several processes, status changes racing with commits.',
    'C08': 'Real pymemcache client protocol object replaced by a fake server with delays, losses and evictions off.',
    'C09': 'Operations are placed at commits of the stored history (their linearisation points); errors without effect are allowed only when another write overlaps.',
    'C10': 'Trees of up to 2600 records. Known finding: exports since a revision leave out blocks that recur.',
    'C11': 'A sequential client runs one random history against both backends; the datastore side has aborts and deferrals.',
    'C12': 'Readers race with commits, crashes, query batch splits and lost contexts.',
    'C13': 'The archive parser (carbox, Rust) is exercised as is; archives are single-root and up to a few dozen records. DID documents come from a simulated PLC directory and web server.',
    'C14': 'Media parsing (pymediainfo) is replaced by a parser of the simulated media. Redirect targets are not compared with the CID: the repository deliberately redirects to the URL as it is now.',
    'C15': 'Source-line preemption inside next_tid, clock stalls and jumps.',
    'C16': 'One process; cache evictions by size (5000 entries) are not reached. Failed handle resolutions may be remembered.',
    'C17': 'The simulated directory applies the documented did:plc rules, including recovery forks and nullified operations by foreign writers.',
    'C18': 'Threads share and copy trees; source-line preemption in arroba.mst; oracle is an independent tree builder.',
    'C19': 'Datastore and memory backends; rejected and storage-failed commits.',
    'C20': 'createSession hands the token out without a password, as upstream documents; it is outside. The HTTP layer is a Flask request context.',
    'C21': 'A creation that fails or crashes may leave its events (but no repo) behind, as the order of its writes documents.',
    'C22': 'arroba.diff is a library function that nothing else in the repository calls. A combined difference may call a record updated that was added and then updated.',
}
PURE = ('A pure function of its input: no concurrency, time, I/O, fault or multi-party behaviour for '
        'simulation to decide. ')
NA = {
    'N01': PURE + '(The ordering of TIDs generated over time is C15.)',
    'N04': PURE + 'A grammar; rejected keys leaving no trace is C19.',
}
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(os.path.join(ROOT, 'checks', i.lower() + '.py')) and i in NOTES:
        checks.append({
            'property': i,
            'quick_cmd': f'./check.py {i}',
            'thorough_cmd': f'./check.py {i} --tier thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': TECH,
            'level': 'exploration',
            'level_note': NOTE + NOTES[i],
        })
    else:
        na.append({'property': i, 'reason': 'Not claimed yet: its check is still being built.'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
print([c['property'] for c in checks])
