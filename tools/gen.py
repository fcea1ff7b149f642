#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=(), state=(), claimed=True, na=None, technique=None, families=""):
    assert len(title) <= 80, title
    P.append(
        {
            "id": pid,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                "mechanism": [{"name": a, "where": b} for a, b in mech],
                "observe_at": list(observe),
                "hook_needed": None,
            },
            "_claimed": claimed,
            "_na": na,
            "_technique": technique,
        }
    )


SOCK = "ipi/interfaces/sockets.py"
FF = "ipi/engine/forcefields.py"
SIMPY = "ipi/engine/simulation.py"
OUT = "ipi/engine/outputs.py"
SOFT = "ipi/utils/softexit.py"
DRV = "drivers/py/driver.py"
WHY_SCHED = (
    "The tests run a few well-behaved clients over the real loopback network, at whatever schedule the machine gives; "
    "they never control message segmentation, thread interleavings, stalls or deaths, and a failure of this kind would be a rare flake."
)

prop(
    "P01",
    "Every completed force request carries the answer to that very configuration",
    "Whenever a force request sent to external clients is reported as done, its energy, forces, virial and extras are exactly what a client computed for the positions and cell of that request (minus the configured energy offset, and zero on inactive atoms). "
    "This holds for every transport (unix, inet, shared memory), for single and batched exchanges, for consolidated and threaded message handling, for every matching mode, and whatever clients do: connect late, be slow, die, hang up half-way through a message, or reconnect.",
    ["schedules", "fault_sequences", "configurations", "histories"],
    "all interleavings of the i-PI threads and client processes, all splittings of the byte streams, all points at which clients die, stall or connect",
    WHY_SCHED,
    [SOCK, FF, DRV],
    [
        ("requests are handed out once and tracked with the client that serves them", SOCK + ": InterfaceSocket.jobs, dispatch_free_client, _requeue_disconnected"),
        ("results are copied out of the per-client buffers and segments", SOCK + ": Driver._recv_forces_bulk, SHMDriver._read_shm_results"),
        ("a client whose stream is out of step is dropped", SOCK + ": Driver._client_error"),
    ],
    ["the result stored in each request when its status becomes Done"],
)
prop(
    "P02",
    "No force request is ever lost while a healthy client is available",
    "Every force request that is queued is eventually reported as done, provided that at least one well-behaved client stays connected or (re)connects and, for clients that stop answering without closing the connection, a timeout is set. "
    "In particular the requests (single or batched) that were in the hands of a client that died, hung up or timed out are given to another client, and the interface neither blocks nor dies because of such clients.",
    ["schedules", "fault_sequences", "histories"],
    "all schedules, all death, stall and reconnection patterns that leave one healthy client; bounded progress once faults stop",
    WHY_SCHED + " Loss of a request only shows up as a hang.",
    [SOCK, FF],
    [
        ("requests of dead clients are queued again", SOCK + ": InterfaceSocket.pool_update, _requeue_disconnected"),
        ("timeouts", SOCK + ": check_job_finished, _pool_distribute_select, Driver.get_status"),
        ("polling thread", FF + ": ForceField._poll_loop, FFSocket.poll"),
    ],
    ["all requests reach status Done within a bounded virtual time"],
)
prop(
    "P12",
    "A stop request at any instant leaves an exactly resumable run",
    "If a running simulation is asked to stop (SIGINT, SIGTERM, an EXIT file, the wall-clock limit; once or several times) at any instant after start-up, the process ends within a bounded time with a RESTART file that is the exact state of the uninterrupted trajectory at the step it declares, at most the configured safe stride behind the last completed step. "
    "Continuing from RESTART, any number of times, reproduces the uninterrupted run: same final state, and output files that contain every expected record exactly as in the uninterrupted run, where records may be repeated but never missing, torn or different.",
    ["schedules", "crash_points", "histories", "configurations"],
    "every instant (line of Python executed by any thread) at which a stop may arrive, sequences of stops and continuations, all kinds of motion and thermostat",
    "The tests stop at most at the end of a run; the instant of a signal relative to the step, the outputs and the polling threads is never controlled.",
    [SIMPY, SOFT, OUT, "bin/i-pi"],
    [
        ("state stored before each step, and rolled back to on exit", SIMPY + ": Simulation.run, Simulation.softexit"),
        ("emergency procedures run once", SOFT + ": Softexit.trigger, cleanup"),
        ("whole records are written", OUT + ": BaseOutput, CheckpointOutput"),
    ],
    ["RESTART and the output files on disk after each life of the process"],
)

exec(open(os.path.join(ROOT, "tools", "gen_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "gen_more.py")) else None

TECH = (
    "deterministic simulation with fault injection: seeded search over thread schedules and fault sequences of the real code "
    "on simulated locks, clocks, sockets and files, judged against a reference model, with replayable minimised failures"
)
NOTE = (
    "Held on every simulated execution explored (counts in the evidence file); not exhaustive. Runs i-PI's real code; trusts the "
    "simulated kernel (threads switch between Python lines and at blocking calls), network and disk models described in DESIGN.md."
)
P.sort(key=lambda p: p["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python tools/setup.py",
    "checks": [
        {
            "property": p["id"],
            "level": "exploration",
            "level_note": p.get("_note") or NOTE,
            "technique": p["_technique"] or TECH,
            "quick_cmd": "/opt/venv/bin/python check.py %s --tier quick" % p["id"],
            "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % p["id"],
        }
        for p in P
        if p["_claimed"]
    ],
    "not_applicable": [{"property": p["id"], "reason": p["_na"]} for p in P if not p["_claimed"]],
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
