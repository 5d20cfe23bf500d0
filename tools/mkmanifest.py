#!/usr/bin/env python3
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, '..', 'properties.jsonl'))]
NA = {}
base = 'Seeded search over simulated executions of the real code: evidence, not proof. Trusts the simulated kernel, the reference model and the format parser in sim/; see DESIGN.md for the assumptions.'
extra = {
 'P01': 'Faults met: partial and interrupted transfers, clock jumps, kill and power failure after the acknowledgement.',
 'P02': 'Crash at any system call of a write history; sectors of 512 bytes, every unsynced sector independently lost or kept; concurrent observer.',
 'P03': 'Storage errors at any call (transient or permanent, full disk, torn), any caller reaction, then power failure.',
 'P06': 'One known finding (aggregates cannot report that blocks were left out) is listed in known-findings.json.',
 'P07': 'Scheduling at statement granularity; part of the runs under the race detector.',
 'P08': 'Liveness as a bound on scheduling steps; leaks as goroutines left after the call.',
 'P09': 'Scheduling at statement granularity; part of the runs under the race detector.',
 'P12': 'Scheduling at statement granularity; part of the runs under the race detector.',
 'P13': 'The serialised bytes of the id set itself are not damaged (third-party format).',
 'P19': 'The main functions run as simulated processes (arguments, output, exit status and storage simulated; one process at a time). Aggregation by the load test tool under failing reads falls under P06.',
 'P25': 'Scheduling at statement granularity; part of the runs under the race detector.',
 'P26': 'Scheduling at statement granularity; part of the runs under the race detector.',
 'P27': 'The example reader looks at no checksum: files it is given damaged, or a file whose writing a power failure cut off, are not claimed.',
 'P20': 'Scheduling at statement granularity; part of the runs under the race detector.',
}
m = dict(version=1,
  setup_cmd='./check.sh build /tmp/verif-setup && rm -rf /tmp/verif-setup',
  hooks=dict(guard='none needed: the hooks are source overlays (go build -overlay) made from /repo\'s working tree and the Go distribution when a check builds',
             enable='./check.sh builds with -overlay; /repo is compiled unchanged without it', source_commits=[]),
  checks=[dict(property=p['id'], quick_cmd='./check.sh %s quick' % p['id'], thorough_cmd='./check.sh %s thorough' % p['id'],
               evidence_file='evidence/%s.json' % p['id'],
               technique='deterministic simulation with fault injection (seeded schedules, faults and crashes; reference model)',
               level='exploration', level_note=(base + ' ' + extra.get(p['id'], '')).strip())
          for p in props if p['id'] not in NA],
  not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
  notes='Replay a reported violation with ./check.sh replay FILE.')
json.dump(m, open(os.path.join(here, '..', 'MANIFEST.json'), 'w'), indent=1)
