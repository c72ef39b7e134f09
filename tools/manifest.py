"""Source of /verif/MANIFEST.json: run `python3 tools/manifest.py`.

A property is claimed when dst/props/<id>.py exists."""
import importlib.util
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import properties  # noqa

NOT_APPLICABLE = {
    "T09": "known not to hold and not repairable by a patch: the collector keeps one current activation for all threads of a "
           "script, so that threads interleave their records; a check would have nothing that it can show to hold",
    "P05": "not claimed: no simulation of the routes for experiments, users, groups and annotations has been built",
}
NOTES = {}


def main():
    properties.main()
    checks, rest = [], []
    for item in properties.PROPS:
        pid = item["id"]
        path = os.path.join(HERE, "dst", "props", pid + ".py")
        if not os.path.exists(path):
            rest.append({"property": pid, "reason": NOT_APPLICABLE.get(
                pid, "not claimed: no simulation of it has been built yet")})
            continue
        with open(path) as fil:
            text = fil.read()
        level = re.search(r'^LEVEL = "(\w+)"', text, re.M).group(1)
        assumes = re.search(r'^NOTE = \(?((?:.|\n)*?)\)?\n[A-Z\n]', text, re.M)
        note = eval("(" + assumes.group(1) + ")") if assumes else ""
        checks.append({
            "property": pid,
            "quick_cmd": "./check %s quick" % pid,
            "thorough_cmd": "./check %s thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "deterministic simulation with fault injection: seeded search over schedules and faults, "
                         "invariant and history checks, replayable minimised failures",
            "level": level,
            "level_note": note or "seeded sampling of schedules and faults; assumptions in the evidence file"})
    body = {
        "version": 1,
        "setup_cmd": "python3 -c 'from dst import native; native.library()'",
        "checks": checks,
        "not_applicable": rest,
        "notes": "No hooks in /repo: every seam is outside it (LD_PRELOAD library for system calls, clock and "
                 "randomness; simulated multiprocessing, threading, HTTP transport). Fix commits in /repo are listed "
                 "in known_findings.json. ./check replay FILE re-executes a recorded failure."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fil:
        json.dump(body, fil, indent=1)
        fil.write("\n")


if __name__ == "__main__":
    main()
