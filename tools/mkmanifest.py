#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties that have a check."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python -m dst check "
SIM = "deterministic simulation with fault injection: "

TECH = {
    "C01": (SIM + "seeded lookup histories on a simulated disk, refinement against a reference model",
            "Every answer and error list of sampled histories over sampled disk layouts equals the reference model's. "
            "Trusts the model (dst/model.py) and Babel's public formatting functions."),
    "C02": (SIM + "seeded histories with edits, damage and read failures on a simulated disk; file-access log checked",
            "Samples histories and faults. Sees file accesses made through Python's open/io/codecs/os functions."),
    "C03": (SIM + "I/O errors, decode errors, interruptions and vanishing files at seeded operations of a simulated disk",
            "Samples fault placements and recovery histories. One recorded finding (incomplete UTF-8 at end of file)."),
    "C04": (SIM + "seeded preemption of simulated threads at byte-code instructions, simulated locks, disk stalls",
            "Samples interleavings at byte-code granularity of fluent.runtime; library code outside it runs atomically."),
    "C05": (SIM + "seeded preemption of simulated threads on one bundle, outcomes checked against all definitions in force",
            "Samples interleavings at byte-code granularity of fluent.runtime."),
    "C06": (SIM + "seeded histories of interleaved clients, refinement against a reference model",
            "Samples histories; every retrieval and formatting of a history is compared with the model."),
    "C07": (SIM + "seeded interleaving and nesting of calls on bundles sharing resources, functions and arguments",
            "Samples interleavings and nestings; results are compared with the model and with calls made alone."),
    "C08": (SIM + "failing functions, formatters, locale and time-zone data at seeded invocations",
            "Samples failure placements; texts compared with the model of the undisturbed call, errors by identity."),
    "C09": (SIM + "interrupts delivered at seeded byte-code positions, later behaviour checked against the model",
            "Samples interruption points (all places at which CPython delivers interrupts) and histories."),
    "C10": (SIM + "seeded hostile reference graphs at seeded stack depths, interleaved with ordinary calls; step counts bounded",
            "The bound is checked as a number of executed lines and a text length that grow linearly with the source. "
            "Samples graphs, stack depths and interleavings."),
    "C11": (SIM + "simulated clock, zone, locale variables and hash seeds changed between calls, refinement against a model",
            "Samples environments and values; zone conversions are compared with zoneinfo's on the same data."),
    "C12": (SIM + "torn, truncated, overwritten and mangled stored resources; surviving entries compared, fallback followed",
            "Samples texts and damages whose surviving stretches are known by construction."),
    "C13": (SIM + "storage damage of resources; conservation of every character over entries and junk",
            "Samples texts and damages."),
    "C14": (SIM + "tools run on a simulated file system and output with short and failing reads and writes",
            "Samples contents, damages, I/O schedules and locales. Faults enter through Python's file objects."),
    "C15": (SIM + "documentation builds with a simulated git and sphinx whose steps fail or are killed at seeded points",
            "Samples histories of builds, tags and faults; git and sphinx are replaced by models of the commands used."),
    "C16": (SIM + "documentation builds failing or killed at seeded steps, run again, against an undisturbed first build",
            "Samples histories of builds and faults; git and sphinx are replaced by models of the commands used."),
    "C17": (SIM + "seeded preemption and interruption of calls on shared syntax trees, against calls made alone",
            "Samples interleavings at byte-code granularity of fluent.syntax and fluent.runtime."),
    "C18": (SIM + "callbacks failing, interrupts and stack ends at seeded points of a transformation; tree compared part by part",
            "Samples trees, transformations and points of failure."),
    "C28": (SIM + "damaged and hostile texts at doubling sizes and long faulty histories, steps counted under the simulator against proportional growth",
            "Samples texts of some hundred thousand characters and histories of hundreds of calls; work inside C functions is seen by CPU time only, which is measured and not simulated, in an eighth of the runs."),
    "C27": (SIM + "seeded long-running applications with failing, interrupted, overriding and concurrent calls; objects kept are counted as the history grows",
            "Samples histories of up to 5000 calls; growth below one object in many calls is not seen."),
    "C19": (SIM + "seeded editing histories with crashes, interrupts and reloads, refinement against a reference model of the resource",
            "Samples histories; texts are limited to those Fluent can express."),
}
NA = {
    "C20": "to_json/from_json are pure functions of one tree: no schedule, time, I/O, fault or history for a simulation to vary; that is input generation (property testing), a different technique. That they do not disturb shared trees is in C17.",
    "C21": "Spans are a pure function of the text; there is nothing to schedule or fail. Only the effect of storage damage on positions is simulated (C13).",
    "C22": "Dedenting is a pure function of the text, with no state, I/O or schedule.",
    "C23": "Number formatting options are a pure function of number, locale and options; independence from the host and from other calls is simulated in C11 and C07.",
    "C24": "Variant selection is a pure function of value, locale and variants, with no state, I/O or schedule.",
    "C25": "Unescaping is a pure function of the literal.",
    "C26": "Tree equality is a pure function of two trees; that it changes neither of them is in C17.",
}

props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    pid = p["id"]
    if pid in TECH and os.path.exists(os.path.join(HERE, "dst", "props", pid.lower() + ".py")):
        t, note = TECH[pid]
        checks.append({"property": pid, "quick_cmd": PY + pid,
                       "thorough_cmd": "VERIF_TIER=thorough " + PY + pid,
                       "evidence_file": f"evidence/{pid}.json", "technique": t, "level": "exploration",
                       "level_note": note})
na = [{"property": p["id"], "reason": NA.get(p["id"], "its check is still being built")}
      for p in props if p["id"] not in {c["property"] for c in checks}]
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -m dst setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams are import hooks, sys.monitoring, lock factories, file functions and an "
              "LD_PRELOAD clock, all installed from /verif/dst. One run is one seed."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
