#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json.
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
MIR="The unmodified go-apt-mirror program (all of package mirror, package apt, main) runs in a seeded deterministic simulation of file system, network, clock, scheduler and upstream archives; an oracle that knows what upstream served judges every published tree. Sampling: a quiet run is evidence for the seeds explored, not proof. Trusted: the simulated file system's durability model, the simulated network and the patched run time scheduler."
CAC="The unmodified go-apt-cacher program (all of package cacher, package apt, main) runs in a seeded deterministic simulation of file system, network, clock, scheduler, upstream archives and HTTP clients; oracles compare every answer and every upstream request with the recorded history. Sampling: a quiet run is evidence for the seeds explored, not proof. Trusted: the simulated file system's durability model, the simulated network and the patched run time scheduler."
LIB="The real package code runs in the simulation with seeded schedules and injected stream or file faults; a small reference model judges every result. Sampling: a quiet run is evidence, not proof."
NA={
 'P01':'Parsing a control file is a pure function of its bytes: no schedule, clock, fault or interleaving for a simulator to decide. (The parts that meet streams and faults are A01.)',
 'P02':'JSON encoding and comparison of file information are pure functions of their operands: nothing nondeterministic for a simulator to decide. (Damage of the stored form by crashes is covered by M02 and C08.)',
}
BUILT=set(open(V+'/tools/built.txt').read().split())
checks=[];na=[]
for p in props:
    i=p['id']
    if i in NA: na.append(dict(property=i,reason=NA[i])); continue
    if i not in BUILT: na.append(dict(property=i,reason='check not built yet')); continue
    tech='deterministic simulation with fault injection (seeded search over schedules, crash points and faults)'
    note=MIR if i[0]=='M' else CAC if i[0]=='C' else LIB
    if i=='P03':
        note='The unmodified programs are started in the simulation with invalid configurations between ordinary, failing and crashing runs; exit status, upstream requests and the simulated disk are judged. Sampling over the listed kinds of defects, not proof.'
    if i=='R01':
        tech='deterministic simulation with fault injection, built with the race detector (seeded search over schedules)'
        note='The real programs run in the simulator built with -race: the simulator decides the interleaving, the detector reports accesses without happens-before order on the schedules explored, and lock-ups and run time failures are violations. Sampling, not proof; the simulator itself is not instrumented.'
    checks.append(dict(property=i,quick_cmd='bash tools/check.sh '+i,thorough_cmd='bash tools/check.sh '+i,
      evidence_file='evidence/%s.json'%i,technique=tech,level='exploration',level_note=note))
json.dump(dict(version=1,setup_cmd='bash tools/setup.sh',
 hooks=dict(guard='faketime',enable='/repo carries no hooks: tools/build.sh builds /repo\'s working tree with "go build -tags faketime -overlay .build/ov/overlay.json"; the overlay (generated by gen/ from the installed Go tree and from /repo) replaces the system-call layer of the standard library, the scheduler\'s deciding points, and in package cacher only the unit of the capacity setting',source_commits=[]),
 checks=checks,not_applicable=na,
 notes='tools/replay.sh FILE repeats a reported violation exactly. Known findings and repairs: known-findings.txt.'),
 open(V+'/MANIFEST.json','w'),indent=1)
