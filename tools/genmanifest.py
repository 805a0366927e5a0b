import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
CLAIMED=['P%02d'%i for i in range(1,18)]
TECH={
'P01':"deterministic simulation with fault injection: seeded system-call faults and full disk under real generators, oracle = fault-free run",
'P02':"deterministic simulation with fault injection: seeded concurrent file creation, pre-existing trees and system-call faults",
'P03':"deterministic simulation with fault injection: kill, power loss and disk errors at seeded system calls, recovery by rerun",
'P04':"deterministic simulation: seeded map-iteration order, clock, zone and environment, differential against a canonical run",
'P05':"deterministic simulation: seeded map-iteration order, clock, zone and environment, differential against a canonical run",
'P06':"deterministic simulation with fault injection: seeded operation histories in one process, oracle = each operation alone in a fresh process",
'P07':"deterministic simulation: seeded statement-level interleaving of concurrent operations, oracle = each operation alone",
'P08':"deterministic simulation with fault injection: seeded open/stat/read faults and missing inputs, oracle = fault-free run",
'P09':"deterministic simulation with fault injection: seeded damage to stored documents, bounded-step termination oracle",
'P10':"deterministic simulation: seeded simulated clock, clock jumps and zones, independent calendar oracle",
'P11':"deterministic simulation with fault injection: seeded standard-output faults, oracle = fault-free run",
'P12':"deterministic simulation with fault injection: generated service under seeded request interleavings and damaged or cut requests, exactly-once history oracle",
'P13':"deterministic simulation with fault injection: seeded interleaving of concurrent requests to the API browser and read faults",
'P14':"deterministic simulation with fault injection: seeded network faults, disk errors, kill and power loss over consecutive runs",
'P16':"deterministic simulation with fault injection: generated client against generated service over a seeded faulty network, exactly-once history oracle",
'P17':"deterministic simulation with fault injection: seeded system-call and network faults under operation histories, oracle = the simulated kernel's open files, tasks and tree",
'P15':"deterministic simulation with fault injection: whole command in a simulated process under seeded I/O faults, exit-status oracle",
}
NOTE="Seeded sampling, not proof: a clean batch says that no violation was found among the runs counted in the evidence file. Trusts the simulated kernel (POSIX semantics as modelled in sim/rt/kernel.go) and the source transformation of sim/prep; the code under test is otherwise the working tree's own."
NA={
'P20':"a pure function of its input (parser and printer meet no schedule, clock, fault or shared state in it); deciding it needs input generation against a round-trip oracle, not simulation",
'P21':"a pure function of the model: mapping there and back meets no nondeterminism or fault",
'P22':"a pure function of the schema: mapping there and back meets no nondeterminism or fault",
'P23':"pure arithmetic and formatting; no schedule, clock, fault or I/O in it",
'P24':"a pure predicate on text (only the generator draws randomness, and every output has the same form)",
'P25':"pure formatting and parsing; no schedule, clock, fault or I/O in it",
'P26':"a pure predicate on a value and a type; only its repeatability (P05) and independence of history (P06, P07) meet nondeterminism, and those are claimed",
'P27':"a static fact about generated text, decided by compilers; no execution, schedule or fault in it",
'P28':"a pure function of the document text",
'P29':"a pure function of the model, and the Smithy library it is written against is not installed here",
'P30':"a pure function of the document; only its repeatability (P05) meets nondeterminism, and that is claimed",
}
m={"version":1,"setup_cmd":"bash setup.sh",
"hooks":{"guard":"none","enable":"no hooks in /repo: the checks instrument a scratch copy of /repo's working tree and the standard library by build overlay (sim/prep)","source_commits":[]},
"checks":[{"property":p,"quick_cmd":"bash check.sh %s quick"%p,"thorough_cmd":"bash check.sh %s thorough"%p,"evidence_file":"evidence/%s.json"%p,"technique":TECH[p],"level":"exploration","level_note":NOTE} for p in CLAIMED],
"not_applicable":[{"property":p['id'],"reason":NA[p['id']]} for p in props if p['id'] not in CLAIMED]}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
