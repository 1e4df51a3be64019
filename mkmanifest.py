#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
NOTE = {
 "C01": "seeded read-size, EINTR and delivery schedules over generated files of every format; reference: the same load with one big read",
 "C02": "seeded and, for small files, exhaustive placement of open/read/stat errors; reference: the undisturbed document",
 "C03": "seeded (every position for small files) truncations; reference: the undisturbed document and the format's optional tails",
 "C04": "seeded storage corruption (bit flips, sectors, stale data, counts); monitors panics, exits, memory; checksummed archives compared with the undamaged document",
 "C05": "seeded create/write/close/rename errors, short writes, full disk, deferred close errors; reference: the bytes of a run on a perfect disk",
 "C06": "seeded histories of saves, loads, faults, crashes and restarts against a path-to-document reference model",
 "C07": "seeded faults at every operation of the command, with older outputs present; whole-disk comparison",
 "C08": "seeded faults during package extraction, scanning and conversion; the temporary directory is inspected at exit",
 "C09": "hostile generated packages and projects, with faults; every mutating call of the run is checked",
 "C10": "seeded faults at every operation; open handles of the simulated kernel counted when the call returns",
 "C11": "seeded map iteration orders, hash seeds, directory orders, clocks, process ids and temporary names; byte comparison",
 "C12": "seeded interleavings (preemption at system calls, function entries and loop iterations) and orders of several conversions in one process; reference: each alone in a fresh process",
 "C13": "step and operation bounds enforced while damaged, truncated, cyclic inputs and slow I/O are run",
 "C14": "seeded texture damage and read faults; an independent glTF reader validates the output and compares it with an undisturbed run",
 "C15": "seeded crash points (with torn writes), repeated, followed by an undisturbed run; reference: the output of a run that was never interrupted",
 "C16": "seeded well-formed files of every format under seeded read schedules, directory and map orders; reference: the description each file was generated from, or an independent decoder",
 "C17": "seeded models through seeded chains of one to three conversions with seeded options, under seeded read schedules, map and directory orders, older outputs, and a first attempt disturbed by faults or a crash; reference: a model of the scene in one space, made from the generator's description and independent decoders",
 "C18": "seeded models and seeded configurations (by option, beside the input, presets of all kinds), under seeded read schedules, map and directory orders, older outputs, and a first attempt disturbed by faults or a crash; reference: the configuration, interpreted independently on the independently decoded output for an empty configuration",
 "C19": "seeded models and seeded motions with seeded options, under seeded read schedules, map and directory orders, older outputs, and a first attempt disturbed by faults or a crash; reference: the tracks computed from an independent decoding of the motion",
 "C20": "seeded models, options and ways to the output, under seeded read schedules, map and directory orders, older outputs, and a first attempt disturbed by faults or a crash; reference: the materials as the generator described them",
}
TECH = "deterministic simulation with fault injection (seeded search)"
m = {
 "version": 1,
 "setup_cmd": "bash /verif/run.sh selftest",
 "hooks": {"guard": "go build -overlay (no file of /repo is changed for the hooks; they exist only in the simulator's build)",
           "enable": "bash /verif/run.sh build DIR", "source_commits": []},
 "checks": [{"property": i, "quick_cmd": "bash /verif/run.sh %s quick" % i, "thorough_cmd": "bash /verif/run.sh %s thorough" % i,
             "technique": TECH, "level": "exploration", "level_note": NOTE[i]} for i in ids],
 "not_applicable": [],
}
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
