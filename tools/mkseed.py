#!/usr/bin/env python3
"""Writes one planted bug: mkseed(id, property, edits, demo, needs, breaks, ...). Used by hand while planting."""
import json, os, shutil, subprocess, tempfile
SEEDED = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf -- "$d"' EXIT
%s
g++ %s -DCPPTRACE_STATIC_DEFINE -I/repo/include -I/repo/src "$here/demo.cpp" /repo/_build/%s/libcpptrace.a -o "$d/demo" %s || exit 3
cd "$d" && timeout 120 ./demo
'''
def mkseed(id, prop, edits, demo, needs, breaks, config="gcc-debug", flags="-std=c++17 -g -O0", libs="-ldl -pthread", pre=":", script=None, files=None):
    """edits: [(file, old, new)] against /repo's HEAD"""
    d = os.path.join(SEEDED, id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", t + "/w", "HEAD"])
    try:
        for f, old, new in edits:
            p = os.path.join(t, "w", f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", t + "/w", "diff"]).decode()
        assert diff
        base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"]).decode().strip()
        removed = 0
        for f in set(e[0] for e in edits): # all changed lines have to be the original repository's
            old = subprocess.check_output(["git", "-C", "/repo", "show", base + ":" + f]).decode().split("\n")
            part = diff[diff.index("--- a/" + f):].split("\ndiff ")[0]
            for l in part.split("\n")[2:]:
                if l.startswith("-"):
                    removed += 1
                    assert l[1:] in old, (id, "not an original line", l)
        assert removed, (id, "removes no line")
        open(os.path.join(d, "patch.diff"), "w").write(diff)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", t + "/w"])
        shutil.rmtree(t)
    if demo is not None: open(os.path.join(d, "demo.cpp"), "w").write(demo.lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(script if script else DEMO % (pre, flags, config, libs))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for n, c in (files or {}).items(): open(os.path.join(d, n), "w").write(c)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
