#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED lists the properties that have a check."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
T = "deterministic simulation with fault injection: seeded search over schedules, faults and inputs; "
CLAIMED = {
 "C01": "block, bitfield and target content checked against the torrent on every run",
 "C02": "kill and power loss at random system calls, reopen, compare with a durability model",
 "C03": "target inspected after every namespace or data change of the simulated disk",
 "C04": "concurrent storage calls, per-piece linearizability, hang and panic detection",
 "C05": "whole client against a faulty swarm; once faults end the download must finish within a bound",
 "C06": "hostile, slow and malformed peers against the whole client; crash, freeze and allocation oracles",
 "C07": "corrupting peers against the whole client; dials and disconnections compared with who sent what",
 "C08": "every byte the client sends is parsed and matched against the requests it received",
 "C09": "bitfields and HAVEs on every connection compared with what the client holds",
 "C10": "connection table reconstructed from the simulated network, refusals and slot reuse checked",
 "C11": "scripted failing trackers; order of contacts compared with a model of the tiers",
 "C12": "announced and accounted totals compared with a model of the history",
 "C13": "concurrent announces, time and wall clock jumps; answers compared with a model of the live peers",
 "C14": "Stop at arbitrary points; bounded return, port, connections and goroutines checked, restart follows",
 "C15": "streams in arbitrary fragments with failures, both directions, compared with an independent parser",
 "C16": "decoder and encoder over failing, fragmenting streams, compared with an independent model",
 "C17": "every request on the simulated wire checked against choke, bitfield, grid, pipeline and ownership state",
 "C18": "every fetch compared with the availability all peers had announced",
 "C19": "hostile names and paths on a disk with bystander files, every mutation checked",
 "C24": "the simulated swarm's leeches and a late new peer must be unchoked and served within a bound",
 "C25": "every healthy connection that offers a missing piece must see interest and requests within a bound",
 "C26": "open files of every simulated process bounded per call and per state; after all peers left, goroutines, connections and files counted; memory by weak references",
 "C27": "gaps between the requests each tracker saw and dials to each address counted against the intervals and listings it gave out",
 "C28": "every message on every connection timed, every close by the client judged against what the peer did, over long quiet tails",
 "C20": "race detector over simulated schedules of every world",
}
NOTES = json.load(open(os.path.join(here, "tools", "level_notes.json"))) if os.path.exists(os.path.join(here, "tools", "level_notes.json")) else {}
NA = {
 "C21": "pure function of its input: no schedule, clock, I/O or fault can influence it, so simulation adds nothing over input generation",
 "C22": "pure function of its input (one in-memory document in, fields out): nothing for a simulator to control",
 "C23": "pure functions of their input: nothing for a simulator to control",
}
BASE = ("Seeded exploration, not proof: the property held in every simulated run of the real packages. "
        "Assumes the simulated kernel (disk, network, clock) behaves as described in DESIGN.md.")
m = {"version": 1, "setup_cmd": "./run.sh setup",
     "hooks": {"guard": "none", "enable": "nothing in /repo is hooked: seams are inserted by go build -overlay from /repo's current tree", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
            "technique": T + CLAIMED[i], "level": "exploration", "level_note": NOTES.get(i, BASE)})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not built yet")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
