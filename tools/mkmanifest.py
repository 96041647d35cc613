#!/usr/bin/env python3
"""Writes MANIFEST.json. The notes per property are kept here."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ("Seeded exploration of the real release binary under a simulated kernel, not exhaustive: sampled scenarios, "
          "faults and schedules. Trusted: the shim forwards every libc call the binary makes, the simulated file system behaves like a "
          "journalling Linux file system (ordered atomic metadata per file system, unsynced data may be lost, cut, zeroed or kept). ")
NOTES = {
 "C01": "Every disk state after every mutation (process kill), halfway through every write, and sampled power-loss states are judged against {old content, complete new content}.",
 "C02": "Journal replay: no existing output path changes and no directory appears before the matching question got y or Y; scripted, failing and closed terminals, failing look-ups.",
 "C03": "In every reachable crash and power-loss state the old file or the complete new program exists; aliases by path, link and hard link included.",
 "C04": "Exit status and messages compared with the disk, under injected errors, full disk, refused answers; message text checked against the files.",
 "C05": "Each scenario is run again with other hash seeds, pids, listing orders, read/write splits, interruptions, clocks, environments and unrelated files nearby; files, text and status must not differ.",
 "C06": "Every calculator file on every intermediate, final and power-loss disk of a random history is parsed by an independent checker of the layout, lengths and checksum.",
 "C07": "Histories of edits with faults, kills, restarts and power loss are checked step by step against a small reference model of the file format.",
 "C08": "Histories of conversions between all formats are checked against an independent reference codec and reference renderings; circles must close.",
 "C09": "Damaged files of every kind, with injected read errors, short reads and failing allocations: orderly refusal or success, never a panic, signal, or written output on refusal.",
 "C10": "Hostile program names, links and directories in mass conversions: no journal entry outside the output directory, and the documented name.",
 "C11": "Every output of a mass conversion must equal what converting that file alone gives, for any listing order, also when saves of other files fail.",
 "C12": "Between the initial and every reachable crash state only the files the command was told to write differ.",
 "C13": "A bound on the number of calls after which a process must have ended, under persistent faults, endless or closed terminals and interruptions.",
 "C14": "Two or three processes interleaved call by call by the seeded scheduler (with kills); the disk must always be one that some serial execution could leave at each output path.",
 "C15": "After one to three failed, killed or power-cut attempts the same command, repeated without faults, must give the result of a fault-free run.",
 "C16": "After a failed save (errors on any call, torn writes followed by errors, full disk, refused paths) the whole disk must be as before.",
 "C22": "After every run that exits 0, sampled power-loss disks at and after its end (names of each file system cut anywhere past its last sync, unsynced data lost, kept, halved or zeroed) must hold every saved output completely.",
 "C21": "Failing, short, interrupted and split writes to the terminal in every command: exit status 0 only with the complete text of the fault-free run, and never anything but a beginning of it.",
}
NA = {
 "C17": "Which tokens a table holds is a pure function of the token sheet, model and version: no schedule, fault, crash point, clock or input history can change it, so simulation has nothing to vary; it would be plain input testing.",
 "C18": "The munching rules are a pure function from text and mode to bytes with no I/O, time, concurrency or failure in them; only their observable independence of chance (C05) and their reversibility across histories (C08) are simulated.",
 "C19": "Which definition a search returns is a pure function of its argument; its independence of the hash seed is covered by C05.",
 "C20": "Argument parsing is a pure function of argv that touches no file, clock or other party; there is nothing to inject.",
}
m = {
 "version": 1,
 "setup_cmd": "./check.sh setup",
 "checks": [
  {"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
   "evidence_file": f"evidence/{p}.json",
   "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and crash points of the real binary",
   "level": "exploration", "level_note": n + " " + COMMON.strip()} for p, n in NOTES.items()],
 "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
 "notes": "No hooks in /repo: the seam is the libc boundary of the unmodified release binary (shim/shim.c, preloaded). "
          "./check.sh replay FILE re-executes a replay file, ./check.sh trace FILE prints every call of it, ./check.sh selftest "
          "runs the same seeds twice with different numbers of workers and compares every call and disk. Known findings: known_findings.txt.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
