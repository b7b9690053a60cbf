#!/usr/bin/env python3
"""tryseeds.py [seed-id-prefix ...]: runs the check of each planted bug's property (all checks with --all) on a scratch copy with the bug applied."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    if args and not any(s.startswith(a) for a in args):
        continue
    d = os.path.join(V, "seeded", s)
    meta = json.load(open(os.path.join(d, "meta.json")))
    base = tempfile.mkdtemp(prefix="try-")
    try:
        repo = os.path.join(base, "repo")
        subprocess.run("cp -a /repo %s && cd %s && git checkout -q -- . && git apply %s/patch.diff" % (repo, repo, d), shell=True, check=True)
        props = [meta["property"]] if "--all" not in sys.argv else [f[:3].upper() for f in sorted(os.listdir(os.path.join(V, "checks"))) if f[0] == "c"]
        for p in props:
            r = subprocess.run([os.path.join(V, "check"), p], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=repo))
            first = [l for l in r.stdout.splitlines() if l.startswith("  [")][:1]
            print("%-34s %s %s %s" % (s, p, {0: "MISSED", 1: "caught"}.get(r.returncode, "rc=%d" % r.returncode), first[0][:140] if first else ""), flush=True)
    finally:
        shutil.rmtree(base)
