#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
only = sys.argv[1] if len(sys.argv) > 1 else "PCJT"
NA = {}
P_NOTE = ("seeded search, not proof: the program's real entrypoint and real SPL Token code run in-process natively (not as SBF) on a simulated runtime; "
          "system, ATA and loader programs, sysvars, fees and rollback are the simulator's own models")
C_NOTE = ("seeded search, not proof: real Rust client and real solana_client::RpcClient over a simulated RPC node in front of the simulated cluster running the real program; "
          "the node's JSON encoding and fault behaviour are models")
J_NOTE = ("seeded search, not proof: the real JavaScript client, bundled from source, runs in a node process without clock, timers, randomness or network of its own, "
          "in lockstep with the simulated RPC node and cluster running the real program; @solana/kit and @solana-program/token are not installed offline, so small stand-ins of what the client imports are bundled in")
T_NOTE = ("seeded search, not proof: the real scripts, bundled from source, run in a node process whose arguments, files, disk, clock, timers, exit and output are simulated, "
          "in lockstep with the simulated RPC node and cluster running the real program; @solana/web3.js and @solana/spl-token are not installed offline, so stand-ins of what scripts use are bundled in")
LVL = {"P14": "the reference model decides which refused instructions had to be accepted",
       "P17": "replicas are simulated executions with differing memory layout, heap contents, threads and process environment",
       "P15": "liveness as progress within a bounded number of transactions after faults stop"}
T = {
 "P": "deterministic simulation with fault injection of the program on a simulated cluster (seeded schedules, faults, forks; invariant oracle)",
 "C": "deterministic simulation with fault injection of the Rust client over a simulated faulty RPC transport and cluster (seeded; history oracle)",
 "T": "deterministic simulation with fault injection of the command-line scripts in lockstep with a simulated faulty RPC transport, key files and disk, local clock and cluster (seeded; history oracle)",
 "J": "deterministic simulation with fault injection of the JavaScript client in lockstep with a simulated faulty RPC transport, answer order, timers and cluster (seeded; history oracle)",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    if i[0] not in only:
        na.append({"property": i, "reason": "check under construction"})
        continue
    note = {"P": P_NOTE, "C": C_NOTE, "J": J_NOTE, "T": T_NOTE}[i[0]] + (("; " + LVL[i]) if i in LVL else "")
    checks.append({"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
                   "technique": T[i[0]], "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "bash build.sh core && bash build.sh rpc && bash build.sh js && bash build.sh ts",
     "hooks": {"guard": "--cfg xorca_sim", "enable": "RUSTFLAGS=\"--cfg xorca_sim\" (set by build.sh); off by default", "source_commits": ["4d7cc73"]},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
