#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the table below.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: seeded search over inputs, schedules and faults"
N = {
 "C01": "model-free invariant at quiescence plus the reference model's latched layers",
 "C02": "conservation and order of the event stream, plus the reference model",
 "C03": "lockstep refinement against an independent reference model",
 "C04": "lockstep refinement against an independent reference model",
 "C05": "lockstep refinement against an independent reference model, timers included",
 "C06": "lockstep refinement against an independent reference model",
 "C07": "lockstep refinement against an independent reference model",
 "C08": "lockstep refinement against an independent reference model",
 "C09": "lockstep refinement against an independent reference model, timing of every macro step included",
 "C10": "every deadline of the reference model must be served within a bound of simulated time",
 "C11": "independent id matcher against the simulated kernel's grab state",
 "C12": "descriptor, heap, zombie and connection accounting by the simulated kernel over repeated cycles",
 "C13": "exit exactly on the panic sequence, over devices, LEDs and remaps",
 "C14": "survival and bounded-time service after faults stop",
 "C15": "history check: one truthful reply and one effect per request",
 "C16": "history check: lines written are the model's layer history",
 "C17": "refinement against a fresh model of the files read at the reload",
 "C18": "mutual exclusion and service after restart, kill at any system call",
 "C19": "conservation and order of pointer events plus the reference model",
 "C20": "exactly-once execution against the reference model; standard streams and zombies from the simulated kernel",
 "C21": "LED history of each managed device against the desktop's LED events",
 "C22": "the real Python mapper against a simulated compositor, socket and keyd client",
 "C23": "reports accepted by a simulated HID endpoint against the key state",
 "C24": "exit status, output and termination of the real client against the daemon's reply",
 "C25": "lines printed against the events injected; no grab ever",
 "C26": "text decoded from the virtual keyboard by a compose-file client against the text given",
 "C27": "lockstep refinement against an independent reference model with its own parser, over the ways of delivering a configuration",
 "C29": "seeded search over layouts, keys and timings; a simulated desktop with the compose file against the characters listed in the layout files; lockstep refinement for the examples",
 "C28": "the real extensions in a simulated shell: lines the mapper reads against the focus changes",
}
CLAIMED = [l.strip() for l in os.environ.get("CLAIMED", "").split()] or ["C%02d" % i for i in range(1, 30)]
doc = {
 "version": 1,
 "setup_cmd": "python3 tools/build.py",
 "checks": [{
   "property": p,
   "quick_cmd": "VERIF_TIER=quick python3 check.py run " + p,
   "thorough_cmd": "VERIF_TIER=thorough python3 check.py run " + p,
   "evidence_file": "evidence/%s.json" % p,
   "technique": T,
   "level": "exploration",
   "level_note": "Oracle: " + N[p] + ". Sampled, not exhaustive: a clean run is evidence over the plans executed. Trusts the simulated kernel and, where used, the reference model; the keyd code under test is the unmodified working tree.",
 } for p in CLAIMED],
 "not_applicable": [
 ] + [{"property": p, "reason": "check under construction"} for p in N if p not in CLAIMED],
 "notes": "No hooks in /repo: libc calls are redirected at link level by tools/build.py. See DESIGN.md.",
}
json.dump(doc, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
