#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered generators (simctl props)."""
import json,subprocess,os
os.chdir('/verif')
props=[json.loads(l) for l in open('properties.jsonl')]
have=subprocess.run(['.build/simctl','props'],capture_output=True,text=True,check=True).stdout.split()
NA={
 'N01':'Scanning is a pure function of a document and a Go type: no schedule, clock, I/O, fault or interleaving can change its result, so there is nothing for a simulator to decide; generating inputs would be a different technique. (Concurrent use of the scanner is covered by R01, C14 and C15.)',
 'N02':'Normalisation is a pure function of one URL without time, concurrency or I/O; its effect on crawls (deduplication, completeness, robots.txt) is covered through C01, C02 and C06.',
}
NOTE={
 'R01':'Seeded simulated schedules of concurrent component use under the Go race detector: every race on an executed pair of accesses not ordered by synchronisation is reported with its seed. Assumes the race detector is sound for reported races; unexplored schedules are not covered.',
}
def note(p):
    return NOTE.get(p,'Seeded search over simulated executions of the real, instrumented code: schedules, delays and faults are sampled, not enumerated, so a clean run is evidence and not proof. Trusts the simulator (one-processor Go runtime with a seeded scheduler, simulated clock, network, file system and entropy), the workload generator and the oracle; preemption happens before statements of the repository and its synchronising dependencies and where goroutines block.')
checks=[];na=[]
for d in props:
    i=d['id']
    if i in have:
        checks.append(dict(property=i,quick_cmd=f'./check {i}',thorough_cmd=f'./check {i}',evidence_file=f'evidence/{i}.json',
          technique='deterministic simulation with fault injection: seeded schedules and faults, oracle over the recorded history' + (' under the race detector' if i=='R01' else ''),
          level='exploration',level_note=note(i)))
    else:
        na.append(dict(property=i,reason=NA.get(i,'no check yet')))
m=dict(version=1,setup_cmd='mkdir -p .build evidence replays && cd sim && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off go build -o ../.build/simctl ./ctl && ../.build/simctl build && ../.build/simctl build race',
  hooks=dict(guard='none: instrumentation is generated into a build overlay under /verif/.build at check time, /repo carries no hooks',enable='./check builds /repo through go build -overlay',source_commits=[]),
  checks=checks,not_applicable=na,
  notes='Each check builds the simulator and the instrumented worker from /repo\'s working tree, runs many simulated executions (one process each), writes evidence/<id>.json and replays/<id>-<seed>-<run>.json for a violation; `./check FILE replay` re-executes a replay file.')
json.dump(m,open('MANIFEST.json','w'),indent=1)
print(len(checks),'checks',[x['property'] for x in na])
