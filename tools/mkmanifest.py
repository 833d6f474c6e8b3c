#!/usr/bin/env python3
"""Writes MANIFEST.json: the checks that exist (see CHECKS) and, for the others, why they are not claimed."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "generated flows judged by a reference interpreter"
CHECKS = {
 "C01": (MODEL + " of the link rules (model-based property testing)", "random acyclic flows; trusts the reference interpreter in harness/model.go"),
 "C02": (MODEL + " under injected faults", "random flows x faults; activities that never return are excluded"),
 "C03": (MODEL + " that evaluates every mapping", "random mappings and values; the expression language itself is trusted"),
 "C04": (MODEL + " of loops", "collections up to about 10 elements"),
 "C05": (MODEL + " with retry configurations x failure sequences", "up to 3 retries"),
 "C06": (MODEL + " of error links and handlers under injected faults", "random flows x faults"),
 "C07": (MODEL + " of nested subflows", "nesting depth 3"),
 "C08": ("generated, defective, mutated and corrupted flow documents, loaded and compared through the definition's accessors with the generator's own account of the document", "documents of up to 30 tasks; values of conditions and mappings compared on two fixed scopes"),
 "C09": (MODEL + ", the run being serialized, deserialized and restarted between random steps (the model goes on), and a round trip of the saved state", "1-3 saves per run; saving only between steps"),
 "C10": ("replay of the recorded steps by a reference interpreter, compared with recorded and rebuilt snapshots, the serialized instance and the model's pending work, over generated flows in every recording mode", "flows of up to 6 tasks, three flows; in concurrent mode only start, end and outcome"),
 "C11": (MODEL + ", whose account of the run is compared with the published flow and task events", "flows of up to 6 tasks, three flows; in concurrent mode the order of events of different tasks is not checked"),
 "C12": (MODEL + " with mocked, skipped and failed tasks, which also recomputes assertions, statuses and coverage", "up to one interceptor per task; assertions over flow inputs, outputs of the task and its error"),
 "C13": ("generated mixes of runs at once, each judged by a reference interpreter of its own under controlled and random interleavings, partly under the race detector", "up to ten runs of three flows at a time; runs are interleaved at activity granularity, below that they are left to the Go scheduler; data races between two accesses of the core library are not reported"),
 "C14": (MODEL + " under controlled concurrent schedules, partly under the race detector", "up to 13 tasks; schedules are chosen at activity granularity, below that they are left to the Go scheduler"),
 "C15": ("generated flows and documents behind file and HTTP sources with injected faults: the runs are judged by the reference interpreter, the definitions compared with the same document loaded as a resource, and the requests are counted", "loopback server and scratch files; no timeouts of servers that never answer; https and unknown schemes only as errors"),
 "C16": (MODEL + " that counts steps, run with eleven limits, as resources and on demand", "limits up to some hundred steps are exercised from both sides; the default limit only from below"),
 "C17": (MODEL + ", each run as a resource and on demand from packages whose input mappings denote the same inputs, and missing, damaged, mutated and ill-mapped packages that have to be refused like the loader of resources refuses them", "flows of up to 6 tasks, three flows; mutated packages that the loader accepts are not run"),
 "C18": ("generated and mutated sequences of HTTP requests of one to three clients; the runs they ask for, with interceptors, patches and saved states, are judged by a reference interpreter and by what a recorder is told, the others by the kind of answer", "flows of up to 6 tasks, three flows; the answers to mutated requests are only checked to be an id or a client error"),
 "C19": (MODEL + ", whose account of the run is compared with the tree of spans that a recording (and sometimes refusing) tracer collected", "flows of up to 6 tasks, three flows; in concurrent mode the tree is compared only for runs in which nothing is abandoned; restarted instances are not traced here"),
 "C22": ("generated sequences of reconfigurations of generated flows, valid, partial, failing and damaged, compared after every document with a reference account of the settings of every task, partly during runs and under the race detector", "flows of up to 6 tasks; documents are applied through the core resource manager; what runs see while they are reconfigured is only checked for races"),
 "C23": (MODEL + ", in which the caller and every detached run are judged by models of their own under controlled orders of their ends, partly with a recorder and under the race detector", "nesting of detached runs up to depth 3"),
 "C21": (MODEL + " with the documented branch priorities", "fan-out up to about 8 branches"),
 "C20": (MODEL + " of replies and returns", "random flows x positions"),
 "C24": (MODEL + " of flow ids, names and parents", "nesting depth 3"),
 "C25": (MODEL + " with schemas that generated data may violate, with validation on, off and not enabled, in sequence and concurrently", "the schemas are those of a small implementation registered by the harness"),
 "C26": ("model-based testing of the life of activities (creation, execution, cleanup) over generated flows, settings, runs, unloading orders and failing cleanups", "cleanups that panic are not generated"),
}
NOT = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS:
        t, n = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
            "technique": "property-based testing: " + t, "level": "exploration",
            "level_note": "Searches generated cases, proves nothing beyond them. " + n[0].upper() + n[1:] + "."})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT.get(i, "the check is still being built")})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
