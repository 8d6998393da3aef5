"""plant(id, prop, edits, needs, breaks, demo): write seeded/<id> from exact text edits of /repo's HEAD.

edits: [(file, old, new), ...]; every old text must occur exactly once in its file."""
import json, os, subprocess, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def diff(edits):
    with tempfile.TemporaryDirectory() as t:
        subprocess.run("git -C /repo archive HEAD | tar x -C %s" % t, shell=True, check=True)
        g = lambda *a: subprocess.run(["git", "-C", t, "-c", "user.email=a@b", "-c", "user.name=x", *a], check=True, capture_output=True, text=True).stdout
        g("init", "-q")
        g("add", "-A", "-f")
        g("commit", "-qm", "x")
        for f, old, new in edits:
            p = os.path.join(t, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        return g("diff")


def plant(id, prop, edits, needs, breaks, demo=None):
    d = os.path.join(HERE, "seeded", id)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff(edits))
    if demo is None:
        return
    open(os.path.join(d, "meta.json"), "w").write(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1))
    open(os.path.join(d, "demo.py"), "w").write(demo)
    p = os.path.join(d, "demo.sh")
    open(p, "w").write('#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(p, 0o755)
