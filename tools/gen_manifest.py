#!/usr/bin/env python3
"""Writes ../MANIFEST.json. Edit the lists here, then run this script."""
import json, os
COMMON = ("Seeded search, not exhaustive: a run decides what its seed generates. The real library runs, compiled from /repo's working tree "
          "with yield points and steered map iteration added by a source overlay; trusted are the reference model in sim/world, which was written "
          "from the documentation and the statements, and the simulator. ")
T = {
 "C01": ("deterministic simulation of clients, database/sql and a fault-injecting simulated driver; history checked against the rows the driver delivered",
         "database/sql is the real one, in virtual time (testing/synctest); the driver is the simulator's. Faults: connect, prepare, query, mid-iteration, close and conversion errors, bad connections, cancellation, deadlines, panicking callbacks."),
 "C02": ("deterministic simulation of scanning clients over a simulated driver; every destination and the spare capacity of every slice compared with the delivered rows",
         "Destinations are real Go pointers and recording Scanners, some of which fail."),
 "C03": ("deterministic simulation of clients sharing a small connection pool under injected faults; leaks decided by pool statistics, open result sets and progress after the faults",
         "Liveness is decided in virtual time: a client that waits for a connection for ever is reported."),
 "C04": ("deterministic simulation of counting clients with injected driver and converter faults; result compared with what the driver reported",
         "Includes argument lists that cannot be rendered or converted."),
 "C05": ("deterministic simulation of clients submitting built statements; what the driver received compared with the reference model of the build, submissions counted",
         "The statements and arguments are predicted by the reference model, not by building them again."),
 "C06": ("deterministic simulation: seeded schedules over statement-level yield points of concurrent builds, results compared with the reference model; half of the runs under the race detector",
         "The race detector sees the happens-before of the simulated schedule only through the library's own synchronisation (the scheduler's hand-over is hidden from it)."),
 "C07": ("deterministic simulation of histories of configuration and builds, some failing by injected faults, against a reference model in which building has no effect",
         "Also compares the caller's slices, their spare capacity and the exported fields with what they were."),
 "C08": ("deterministic simulation with faults (errors, wrapped invalid-index errors, panics) injected at every contributor a build reaches; outcome predicted by the reference model",
         "Fault points are taken from a fault-free prediction, so nearly all injected faults are reached."),
 "C09": ("deterministic simulation of builds and shared build contexts with abandoned list items and failing contributors; every placeholder matched with the value its fragment referenced",
         "Works on identities of values, so that swapped or stray arguments show."),
 "C10": ("deterministic simulation of configuration histories with builds, failures and clients in between, refined against a reference model of the query builder",
         "The reference model defines which joins and CTEs are needed."),
 "C11": ("deterministic simulation with seeded map iteration orders over histories of derived contexts and function registrations, against a reference model of scopes and conversions",
         "Iteration of maps in the library is steered by the overlay."),
 "C12": ("deterministic simulation with failing converters and log outputs; builds with debug on compared with the model of builds with debug off, renderings with predicted literals",
         "The log output is a simulated writer that fails or writes short."),
 "C13": ("deterministic simulation with a step counter: templates cut off and corrupted at seeded bytes, cyclic dependency graphs, failures in joined lists; deterministic step budget",
         "A hang is decided by a budget of statements executed, never by a clock."),
}
NA = {
 "C14": "Parsing is a pure function of one string: no schedule, clock, I/O, fault or history can change it, so there is nothing to simulate. What C13 injects (cuts and corruptions) is checked there for termination and crashes only.",
 "C15": "Encoding one value is a pure function of it. The part that can meet faults (converters that fail, missing arguments) is C12.",
 "C16": "util.Args / ArgsFlatted are pure functions of their arguments, with no fault or history for a simulation to drive.",
 "C17": "Composing names is a pure function of the names; concurrent use of columns is part of C06, wrong references of C08 and C10.",
}
m = {"version": 1, "setup_cmd": "./check setup",
     "checks": [{"property": k, "quick_cmd": f"./check {k} quick", "thorough_cmd": f"./check {k} thorough",
                 "evidence_file": f"evidence/{k}.json", "technique": t, "level": "exploration", "level_note": COMMON + n}
                for k, (t, n) in T.items()],
     "not_applicable": [{"property": k, "reason": r} for k, r in NA.items()],
     "notes": "No hooks are committed in /repo: yield points, the step counter and steered map iteration are added at build time by a generated 'go build -overlay' of /repo's working tree (sim/cmd/vsim/instrument.go). If a tree cannot be instrumented, the check runs on the plain tree and says so. KNOWN_FINDINGS.txt lists what was repaired."}
with open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
