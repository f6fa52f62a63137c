#!/usr/bin/env python3
"""mkseed.py [ID...]: (re)generate /verif/seeded/<id> from tools/seeds_data.py and confirm each in a scratch copy:
the patch applies, builds, keeps the stable tests passing; demo.sh passes without it and fails with it; says if the check catches it."""
import json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
S = []
def seed(id, prop, edits, pkg, demo, needs, breaks, race=False):
    S.append(dict(id=id, prop=prop, edits=edits, pkg=pkg, demo=demo, needs=needs, breaks=breaks, race=race))
exec(open(os.path.join(HERE, "seeds_data.py")).read())
assert len({s["id"] for s in S}) == len(S)
want = [a for a in sys.argv[1:] if not a.startswith("-")]
DEMO = '''#!/bin/bash
# run in the repository: exit 0 when the property holds in the demonstrated case
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap '/bin/rm -rf "$T"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$D/demo_test.go" > "$T/overlay.json"
TMPDIR="$T" go test -overlay "$T/overlay.json" %(race)s-vet=off -count=1 -timeout=120s -run '^TestDemo' "./%(pkg)s"
'''
env = dict(os.environ, GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local")
def sh(cmd, cwd, **kw): return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, env=kw.pop("env", env), **kw)
stable = json.load(open("/opt/vp/BASELINE.json"))
for s in S:
    if want and s["id"] not in want: continue
    if not want and os.path.exists(os.path.join(ROOT, "seeded", s["id"], "ok")): continue
    d = os.path.join(ROOT, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed.", dir="/tmp"); r = os.path.join(w, "repo")
    sh("cp -a /repo %s" % r, "/")
    try:
        open(d + "/demo_test.go", "w").write(s["demo"].lstrip())
        open(d + "/demo.sh", "w").write(DEMO % dict(pkg=s["pkg"], race="-race " if s["race"] else "")); os.chmod(d + "/demo.sh", 0o755)
        a = sh([d + "/demo.sh"], r)
        if a.returncode: print(s["id"], "DEMO FAILS ON THE UNCHANGED TREE", a.stdout[-1500:], a.stderr[-1500:]); continue
        for f, old, new in s["edits"]:
            p = os.path.join(r, f); t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, old, t.count(old))
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", r).stdout; open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        b = sh("go build ./... && go vet ./... 2>/dev/null; go build ./...", r)
        if b.returncode: print(s["id"], "NO BUILD", b.stderr); continue
        a = sh([d + "/demo.sh"], r)
        if a.returncode == 0: print(s["id"], "DEMO PASSES WITH THE PATCH"); continue
        dm = a.stdout
        fails = 0
        for k in range(2):
            t = sh("go test -vet=off -count=1 ./... 2>&1 | grep -E '^(--- FAIL|FAIL|panic)'", r, env=dict(env, TZ="Asia/Tokyo"))
            if t.stdout.strip(): fails += 1; last = t.stdout
        if fails: print(s["id"], "EXISTING TESTS FAIL %d/2:" % fails, last); 
        c = sh(["python3", ROOT + "/check.py", s["prop"]], ROOT, env=dict(env, VERIF_REPO=r))
        v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        u = [l for l in c.stdout.splitlines() if l.startswith(("undischarged", "failing input"))]
        cj = os.path.join(ROOT, "tools", "caught.json"); res = json.load(open(cj)) if os.path.exists(cj) else {}
        res[s["id"]] = "missed" if c.returncode != 1 or not v else "proof only" if v[0].endswith("no-failing-input-found") else "failing input"
        json.dump(res, open(cj, "w"), indent=0, sort_keys=True)
        print(s["id"], "CAUGHT" if c.returncode == 1 and v else "MISSED", v[:1], "\n    ".join([""] + [x[:200] for x in u[:3] + u[-1:]]) if u else c.stdout[-500:] + c.stderr[-500:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
