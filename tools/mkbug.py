"""mkbug.py ID PROPERTY: read a JSON list of [file, old, new] from stdin, write seeded/ID/patch.diff.

The demonstration (demo.sh, demo.py) and meta.json are written beside it."""
import json
import os
import subprocess
import sys
import shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(ident, prop, edits, needs, breaks, demo_py=None, demo_sh=None, extra=None):
    work = "/tmp/mkbug"
    shutil.rmtree(work, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", work])
    for name, old, new in edits:
        path = os.path.join(work, "capture/noworkflow/now", name)
        with open(path) as fil:
            text = fil.read()
        assert text.count(old) == 1, (ident, name, text.count(old), old)
        with open(path, "w") as fil:
            fil.write(text.replace(old, new))
    diff = subprocess.check_output(["git", "-C", work, "diff"])
    shutil.rmtree(work)
    folder = os.path.join(HERE, "seeded", ident)
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, "patch.diff"), "wb") as fil:
        fil.write(diff)
    with open(os.path.join(folder, "meta.json"), "w") as fil:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, fil, indent=1)
        fil.write("\n")
    with open(os.path.join(folder, "demo.sh"), "w") as fil:
        fil.write(demo_sh or DEMO)
    if demo_py:
        with open(os.path.join(folder, "demo.py"), "w") as fil:
            fil.write(demo_py)
    for name, text in (extra or {}).items():
        with open(os.path.join(folder, name), "w") as fil:
            fil.write(text)


DEMO = '''#!/bin/bash
# exit 0: the property holds here; anything else: broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 9
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 9
export PYTHONPATH=$repo/capture PYTHONDONTWRITEBYTECODE=1 HOME=$work/home MPLBACKEND=Agg
mkdir "$work/home" "$work/box"
cd "$work/box"
timeout 240 /opt/venv/bin/python -W ignore "$here/demo.py"
'''
