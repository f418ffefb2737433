#!/usr/bin/env python3
"""Writes MANIFEST.json (kept as a script so that the wording stays next to the list of properties)."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
T = "deterministic simulation with fault injection (seeded search)"
COMMON = (" The command line and the library run unmodified on a simulated kernel (file system, streams, clock, locale, "
          "signals); evidence, not proof: schedules, faults and documents are sampled. Trusts the simulated kernel's "
          "reading of POSIX and the disk model in DESIGN.md.")
NOTES = {
    "C01": "Process kills at every system call and power loss with unsynced state dropped, torn or reordered; contents judged "
           "against the old bytes and the text the real library gives in a fresh interpreter.",
    "C02": "Failing, partial, late-failing system calls, full disks, interrupts and failed allocations at any call or line; "
           "contents judged as in C01.",
    "C03": "Undisturbed runs judged exactly (status and report), disturbed runs by 'status 0 implies done'; bounded number "
           "of steps.",
    "C04": "The whole simulated tree (inodes, times) must be untouched; verdict compared with a formatting run on an "
           "identical machine.",
    "C05": "Histories of crashed, failed and interrupted runs followed by undisturbed ones; compared with a single run on "
           "the original documents.",
    "C06": "Formatters are made to misbehave (buggify) so that a second pass differs; nothing unstable may be delivered.",
    "C07": "Two or three simulated processes interleaved at every system call by the seeded scheduler, some killed; judged "
           "by serialisability over the real library's results.",
    "C08": "Threads interleaved at line and bytecode granularity by the seeded scheduler; each call compared with its "
           "result alone in a fresh incarnation of the package.",
    "C09": "Threads of formatting calls and host logging interleaved, calls struck by exceptions; every record of the host "
           "and every level is checked.",
    "C10": "Histories of calls with asynchronous exceptions at any function entry; later calls compared with a fresh "
           "incarnation.",
    "C11": "Input in arbitrary pieces, read errors, write errors, short writes, closed pipes; output judged byte for byte.",
    "C12": "Destinations new, existing, aliased and shared; faults and crashes; every destination judged old or complete.",
    "C13": "Trees with odd names, links and special files under several listing orders; compared with a model of what a "
           "directory stands for.",
    "C14": "A model of which command lines must be refused; the tree must be untouched and standard input unread.",
    "C15": "The same command on identical machines that differ in verbosity, environment, locale, clock, randomness and "
           "diagnostics; hash seeds in fresh interpreters.",
    "C16": "Batches in several orders; each document's fate compared with its own.",
    "C17": "Complete file-system state (kind, mode, owner, links, times) before and after, with failing system calls.",
}
NA = {
    "C18": "a pure function of the document: no schedule, clock, fault or history in it (differential rendering would "
           "decide it)",
    "C19": "a pure function of the text and width: nothing for a simulator to vary (fuzzing would decide it)",
    "C20": "a pure function of the text and width",
    "C21": "a pure function of the text and width",
    "C22": "a pure function of the text and width",
    "C23": "a pure function of the text",
}
checks = [{"property": p, "quick_cmd": f"python3 check.py {p}",
           "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}", "evidence_file": f"evidence/{p}.json",
           "technique": T, "level": "exploration", "level_note": n + COMMON} for p, n in NOTES.items()]
m = {"version": 1, "setup_cmd": "test -x /opt/venv/bin/python", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
     "notes": "No hooks in /repo: every seam (os, io, time, logging, uuid, random, locale, threads) is taken in the "
              "simulator's own process. Replays: python3 replay.py <file>."}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
