import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
note={
'C':"Samples schedules: millions of seeded executions of the real cache package, each a few goroutines and a few commands on few keys, every history checked for linearizability against an independent reference model of Redis semantics. Trusts the source instrumentation (scheduling points at statements, locks, channels and timers), the model and the checker. A clean run is evidence, not proof.",
'R':"Samples message sequences, segmentations, delays, fault placements and schedules over a simulated TCP network and a model Redis server; the real redis package runs instrumented. Trusts the instrumentation, the network model (a reliable ordered byte stream that may be delayed, cut, reset, stalled or refused) and the server model.",
'P':"Samples snapshots, encodings, stream contents, read sizes, fault placements and schedules with a simulated network, disk and clock; the real redis, rdb, ziplist, zipmap, intset packages run instrumented, liblzf runs as is. Trusts the independent snapshot encoder and master model.",
'D':"Samples the same executions as the other checks with vector clocks over every goroutine, lock, channel, atomic and connection; two accesses to one address of which one writes and neither happens before the other are reported, whether or not they were adjacent in the run. Trusts the instrumentation's selection of shared accesses (locals that no other goroutine can reach are skipped) and the stand-ins' happens-before edges, which are at least those of the Go memory model.",
'X':"Samples whole-system executions: the real client, cache and redis packages against a model master over a simulated network, disk and clock, with link cuts, resets, partitions, stalls, refused dials, disk errors, torn writes and process crash/restart. Trusts the models and the instrumentation; bounds on recovery are stated as simulated time after the last fault.",
}
checks=[]
for p in props:
    i=p['id']
    if i=='N01': continue
    checks.append(dict(property=i,quick_cmd=f"VERIF_TIER=quick ./run.sh {i}",thorough_cmd=f"VERIF_TIER=thorough ./run.sh {i}",
        evidence_file=f"evidence/{i}.json",technique="deterministic simulation with fault injection: seeded search over schedules, clocks and faults, history checked against a reference model",
        level="exploration",level_note=note[i[0]]))
m=dict(version=1,setup_cmd="./build.sh",
 checks=checks,
 not_applicable=[dict(property='N01',reason="LZF compression is a pure function of its input implemented in C: no schedule, clock, I/O, fault or second party for it to depend on, so there is nothing for a simulator to decide. (Decompression of snapshot strings is exercised with real liblzf inside P02, P03 and X01.)")],
 notes="No hooks are added to /repo: build.sh rewrites /repo's current source into /verif/.build (type-checked source instrumentation: goroutines, channels, select, map order, sync, time, net, os, context) and builds it through a go build overlay, so the shipped code is unchanged. The commits in /repo are all 'fix:' repairs; known_findings.txt lists them.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False); open('/verif/MANIFEST.json','a').write("\n")
