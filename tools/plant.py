#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from a spec module: SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python source)].
Confirms in a scratch copy of /repo: patch applies, stable tests pass, demo passes clean and fails patched."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/sh
d="$(cd "$(dirname "$0")" && pwd)"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
SRC="$(pwd)" WORK="$w" HOME="$w" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$d/demo.py" 2>/dev/null
"""
HEAD = """import os, sys, logging
sys.path.insert(0, os.environ["SRC"])
os.chdir(os.environ["WORK"])
sys.argv = ["x"]
logging.disable(50)
from syncanysql import ScriptEngine


def engine(**tables):
    e = ScriptEngine(None)
    e.setup()
    for k, v in tables.items():
        e.push_memory_datas(k, v)
    return e


def q(e, sql):
    e.execute("INSERT INTO `demo_out` " + sql)
    return e.pop_memory_datas("demo_out")


def expect(got, want):
    if got != want:
        print("got", got, "want", want)
        sys.exit(1)


"""


def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=env, timeout=300)


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    only = set(sys.argv[2:])
    for s in seeds:
        if only and s["id"] not in only:
            continue
        d = os.path.join(V, "seeded", s["id"])
        base = tempfile.mkdtemp(prefix="plant-")
        repo = os.path.join(base, "repo")
        try:
            sh("cp -a /repo %s" % repo, "/")
            sh("git checkout -q -- . && git clean -fdq", repo)
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "demo.py"), "w").write((HEAD if not s.get("raw") else "") + s["demo"])
            open(os.path.join(d, "demo.sh"), "w").write(s.get("sh") or DEMO)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            clean = sh("sh %s/demo.sh" % d, repo)
            for f, old, new in s["edits"]:
                p = os.path.join(repo, f)
                t = open(p).read()
                if t.count(old) != 1:
                    raise LookupError("%s: %d occurrences in %s of %r" % (s["id"], t.count(old), f, old[:300]))
                open(p, "w").write(t.replace(old, new))
            diff = sh("git diff -U8", repo).stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            orig = all_original(s["id"], repo)
            bad = sh("sh %s/demo.sh" % d, repo)
            t = sh("/opt/venv/bin/python -m pytest -q -x tests -p no:cacheprovider 2>&1 | tail -3", repo,
                   env=dict(os.environ, PYTHONPATH=repo))
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            print("%-28s clean=%d patched=%d original_lines=%s tests=%s" % (s["id"], clean.returncode, bad.returncode, orig, t.stdout.strip().splitlines()[-1:]))
            keep = clean.returncode == 0 and bad.returncode != 0 and orig and "40 passed" in t.stdout
            if clean.returncode:
                sh("git checkout -q -- .", repo)
                r = sh("WORK=%s SRC=%s HOME=%s /opt/venv/bin/python %s/demo.py" % (base, repo, base, d), repo)
                print("   ", r.stdout[-300:], r.stderr[-600:])
            if not keep:
                print("   NOT KEPT")
                shutil.rmtree(d)
                continue
            if not bad.returncode:
                print("   DEMO DOES NOT FAIL", bad.stdout[-500:])
            else:
                print("   ", bad.stdout.strip()[-300:])
        except LookupError as e:
            print(e, "\n   NOT KEPT")
            shutil.rmtree(d)
        finally:
            shutil.rmtree(base)


def all_original(sid, repo):
    """Lines removed by the patch exist in the base commit's version of the file."""
    out = sh("git diff -U0", repo).stdout
    base = sh("git rev-list --max-parents=0 HEAD", repo).stdout.strip()
    cur, lines, ok = None, [], True
    for l in out.splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]
            lines = sh("git show %s:%s" % (base, cur), repo).stdout.splitlines()
        elif l.startswith("-") and not l.startswith("---") and l[1:] not in lines:
            ok = False
    return ok


main()
