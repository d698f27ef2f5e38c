#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the registered harnesses, known_findings.json and tools/seed_results.txt."""
import json
import os
import re
import sys

sys.dont_write_bytecode = True
BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, BASE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
os.chdir(BASE)
from vt import registry

H = registry.load()
SPEC = "a reference scheduler (checks/sim.py, class Spec) fed with the world's events only - forks, exits, signals, looks, trigger files, configurations - which says after every event what must, may and must not happen"
ORACLE = {
    "C01": SPEC + ": the load of each group at every fork, and that no due run with room in a group is left at a look; CONCURRENCY_GROUP is one of the job's groups",
    "C02": SPEC + ": runs of one job in progress at every fork, and that nothing else holds a due run back",
    "C03": SPEC + ": due times against the instant of the fork; for blocked runs the gap between two tries (5 s .. max(5 s, age), at most 5 min, growing). Waits are at most 60 s, so a longer backoff cannot be seen from outside; the backoff function itself is asked where it exists",
    "C04": SPEC + ": the number of recurring occurrences pending or in progress, and that each next time is after the start and an answer of the schedule",
    "C05": "the trigger's content, symbolic, against the forked run's recorded data and environment; removals against forks; pending runs before and after",
    "C06": "the daemon's loop does not end, another job's pending run starts on time, a later good trigger is carried out, and forks happen only for usable content",
    "C07": "the instant computed from the text by the harness (wall clock, offset, zone) against the fork's time, the recorded schedule time and SCHEDULE_TIME",
    "C08": "the tables against the list of children at every wait: in progress XOR recorded once, with the times, code, type and data the child had",
    "C09": "the shell's rule on the symbolic wait status",
    "C10": SPEC + ": when SIGTERM and SIGKILL are due, at the latest look in time, once each, to the run's process, and never otherwise",
    "C11": SPEC + ": no fork after the request, the loop ends at the look after the last exit and not before, kill_runs escalation with its own grace",
    "C12": SPEC + ": pending, running and recorded runs before and after the reload; the new limits, groups, commands and schedules from then on",
    "C13": "any_point delivers the signal before any one of the daemon's bytecode-level yield points (a symbolic index); two_signals delivers pairs with nothing between; oracle: children against tables at every wait",
    "C14": SPEC + ": the end of each sleep the daemon asks for against the earliest thing it has to do, and at most 60 s",
    "C15": "the documented levels applied to symbolic names and values, against every variable of the exec'd environment (completeness in both directions)",
    "C16": "every documented variable from the run, tables and history by independent formulas; nothing else is present",
    "C17": "the recorded exec call, working directory, descriptors (dup2 chains), process group and signal dispositions of the child",
    "C18": "the value tree in the file against the recorded run_data",
    "C20": "latest of the rows satisfying the condition, over symbolic rows",
    "C21": "the values written against the values read, by the same and by another connection",
    "C22": "a crash, an error of the database or another reader at every database operation (a symbolic index): the run is in exactly one table",
    "C23": "the documented selection applied to symbolic rows, as a set, without duplicates",
    "C24": "the tables before and after a start",
    "C30": "the documented regular expression, reserved names and length on symbolic texts, per character and as a whole",
    "C31": "a 6-line documented merge of the symbolic trees",
    "C32": "the documented type table over every YAML kind; defaults from the documentation",
    "C33": "the same configuration with the group written out",
    "C34": "a daemon started with any accepted configuration makes several looks without failing",
    "C35": "a text, number or refusal per kind of value and name",
    "C36": "loads and maxima seen by a running daemon, and the configuration objects",
    "C40": "fields of a fully symbolic CRC (or random number): inside the field's or the given range, equal for equal names, every value reached by some name (existential queries)",
    "C41": "the expanded field as an arithmetic progression: its step, first value and last value",
    "C42": "croniter by contract and, for wall clock times, the time zone's transition as a symbolic instant; the next time is later, matches, and its part of a second is the name's",
    "C43": "dateutil's rrule by its real code on concrete rules; the answers asked at two symbolic instants have to agree",
    "C50": "rank interpolation on sorted symbolic values",
    "C51": "counts, sums, extremes over symbolic rows",
    "C52": "the metrics a fresh exporter would give at the time the cache was filled, ages against the cache time",
    "C53": "status, headers and body per path and method as documented; the exposition format parsed by the harness",
    "C54": "the output split at symbolic lengths: the shown text is all of it, or its ends around the mark",
    "C55": "every symbolic character of a value which reaches a page is escaped in it (jinja2 by its real code)",
    "C56": "the stored bytes (plain or compressed, valid UTF-8 or not) against the text shown",
    "C57": "the effect (all options of all objects) of the first and of the reloaded configuration",
    "C58": "the pages' links and rows against the configured jobs and symbolic rows",
    "C59": "a rendering interrupted at a symbolic file operation and completed by the next, against an uninterrupted one",
    "C60": "the documented selection applied to symbolic rows, and each entry against its row in every format",
    "C61": "the daemon's own next start for the same configuration and time; file names for running runs",
    "C62": "the URL standard's resolution of relative references (trimming, schemes, dot segments) against the files written",
    "C63": "what the same command prints elsewhere, cut where the reader stopped",
    "C64": "the order in the property over symbolic existence of every file",
    "C65": "the configuration and rows put into the world",
}
LIMIT = {
    "C03": "the logarithm in the backoff is any monotone function agreeing with the real one at 40 points",
    "C17": "descriptors other than 0-2 (Python's are not inherited in any case) and the exec'd program itself",
    "C21": "SQLite only: the drivers of PostgreSQL, MySQL and MongoDB are not installed, so their classes cannot be run, replayed or validated. By reading: PostgreSQL's `timestamp` drops offsets and an empty IN () is invalid SQL; MySQL keeps a stale snapshot; MongoDB returns naive datetimes and its insert_run is not atomic",
    "C22": "SQLite only (see C21)",
    "C23": "SQLite only (see C21)",
    "C32": "infinite loops in a parser; the contents of opaque options",
    "C34": "SECONDLY rules that can never match (dateutil searches for very long), strings no process can take",
    "C40": "wider name texts than 6 characters are covered through the CRC being any 32-bit value",
    "C43": "the known finding below; rules are concrete, names and instants symbolic",
    "C52": "the exporter keeps its database connection across reloads",
    "C56": "a file compressed between the check and the opening by a third program",
    "C57": "raw dumps of values JSON cannot hold (dates, sets of YAML) raise TypeError",
    "C59": "interrupted --regenerate followed by plain rendering",
    "C60": "COLUMNS narrower than the first column; --job together with --run (run ids win)",
}
seeds, results = {}, {}
for s in sorted(os.listdir("seeded")) if os.path.isdir("seeded") else []:
    m = json.load(open("seeded/{}/meta.json".format(s)))
    seeds.setdefault(m["property"], []).append((s, m["what_it_breaks"]))
if os.path.exists("tools/seed_results.txt"):
    for l in open("tools/seed_results.txt"):
        m = re.match(r"(\S+) (C\d+) tests=0 demo clean=0 patched=[1-9]\d* check rc=(\d+) \(\d+s\) ?(.*)", l)
        if m:
            results[m.group(1)] = (m.group(3), m.group(4).strip())
known = json.load(open("known_findings.json"))
out = [open("tools/design_head.md").read().rstrip(), "", "## Properties", ""]
for line in open("properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    out += ["### {} {}".format(i, p["title"]), "", p["statement"], ""]
    out += ["Anchors: {}. ".format("; ".join("{} ({})".format(m["name"], m["where"]) for m in p["anchors"]["mechanism"])) + "Oracle: {}.".format(ORACLE[i]), ""]
    out += ["Why tests cannot settle it: {}".format(p["why_tests_cant"].split("; ", 1)[-1]), ""]
    done = []
    for h in H.get(i, []):
        base = h.name.split("[")[0]
        if base in done:
            continue
        done.append(base)
        v = [x.name.split("[")[1][:-1] for x in H[i] if x.name.startswith(base + "[")]
        out.append("- `{}`{}{}: {}".format(base, " [{}]".format(", ".join(v)) if v else "", " (thorough only)" if h.tier == "thorough" else "", h.bounds))
    out.append("")
    if i in LIMIT:
        out += ["Outside: {}.".format(LIMIT[i]), ""]
    for f in known["fixed"]:
        if "property={} ".format(i) in f:
            out.append("- fixed in /repo: " + f.split(" ", 2)[2])
    for k in known["known"]:
        if k["property"] == i:
            out.append("- known finding ({}: {}): {}".format(k["harness"], k["label"], k["what"]))
    for s, what in seeds.get(i, []):
        r = results.get(s)
        how = "" if r is None else " -> {}".format("caught: " + r[1] if r[0] == "1" else "NOT caught (exit {})".format(r[0]))
        out.append("- planted `{}`: {}{}".format(s, what, how))
    out.append("")
open("DESIGN.md", "w").write("\n".join(out).rstrip() + "\n")
print(len(out), "lines;", sum(len(v) for v in seeds.values()), "seeds,", len(results), "results")
