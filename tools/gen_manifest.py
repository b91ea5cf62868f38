#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the simulator's list of checks and properties.jsonl."""
import json, os, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = [l.split()[0] for l in subprocess.check_output([R + "/sim/target/debug/prpc-sim", "list"], text=True).splitlines()]
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
NA = {
 "C40": "The WebUSB transport only compiles for wasm32 and runs on a browser's JavaScript promises through wasm-bindgen; there is no wasm toolchain, browser or JS host here to simulate it in, so no seam reaches the real code.",
 "C41": "A pure compile-time (const fn) computation without concurrency, time, I/O or faults: deterministic simulation has nothing to schedule or inject. Its effect at run time (servers at all four widths) is exercised by C02, C03 and C11.",
 "C42": "Pure compile-time type lists without any run-time nondeterminism; their visible effect, the schema report, is checked by C12.",
}
HOOK = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], text=True).split()
NOTE = "Seeded search over schedules, inputs and faults of the real code in a single-process simulator: evidence for every run explored, no proof beyond them. Trusted: the simulated scheduler, clock and transports, the independent reference codec and the history oracles. Interleavings are at await points and, for the host-client and server worlds, also in the middle of a step wherever one task wakes another or touches a shared counter or lock. "
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "checks": [{
   "property": c,
   "quick_cmd": f"bash check.sh {c}",
   "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {c}",
   "technique": "deterministic simulation with fault injection (seeded search, history oracles)",
   "level": "exploration",
   "level_note": NOTE,
 } for c in claimed],
 "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in props if p["id"] not in claimed],
 "hooks": {
   "guard": "--cfg prpc_sim",
   "enable": "sim/.cargo/config.toml passes --cfg prpc_sim to rustc; shared counters and locks of the host client are then the stand-ins of src/sim_sync.rs, which call the simulator's scheduler before each access and let it choose where counters start",
   "source_commits": HOOK,
 },
 "notes": "All other seams are public (host WireTx/WireRx/WireSpawn, server WireTx/WireRx/WireSpawn, the embassy-usb driver trait, embassy-time's driver, tokio's paused clock) or a dependency replaced by cargo [patch] (nusb, tokio-serial). Replay a failure with: sim/target/debug/prpc-sim replay <file>.",
}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(claimed), "claimed")
