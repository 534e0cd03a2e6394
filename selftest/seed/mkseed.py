#!/usr/bin/env python3
"""mkseed.py [ID...]: makes /verif/seeded/<id> from seeds.py, checking everything asked of a planted bug."""
import sys, os, json, subprocess, shutil, tempfile
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from seeds import SEEDS
OUT = os.path.join(os.path.dirname(os.path.dirname(H)), "seeded")
STABLE = json.dumps(json.load(open("/opt/vp/BASELINE.json")))
STABLE = __import__("re").findall(r'"(run_command/[^"]*)"', STABLE)
def sh(cmd, cwd, env=None):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def main():
    ids = sys.argv[1:]
    for s in SEEDS:
        if ids and s["id"] not in ids: continue
        d = tempfile.mkdtemp(prefix="/tmp/seed.")
        o = os.path.join(OUT, s["id"])
        try:
            sh("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x" % (d, d), "/")
            os.makedirs(o, exist_ok=True)
            shutil.copy(os.path.join(H, "demo.sh"), o)
            open(os.path.join(o, "main.go"), "w").write(s.get("main") or open(os.path.join(H, "main.go")).read())
            if "internal" in s: open(os.path.join(o, "internal.go"), "w").write(s["internal"])
            if "cli" in s: open(os.path.join(o, "cli.sh"), "w").write(s["cli"])
            cases = s.get("cases", [])
            if cases: open(os.path.join(o, "cases.txt"), "w").write("".join("%s %s\n" % (k, json.dumps(t, ensure_ascii=False)) for k, t in cases))
            r = sh("bash %s/demo.sh" % o, d, {"WRITE_EXPECTED": "1"})
            if r.returncode: print(s["id"], "DEMO FAILS ON ORIGINAL", r.stdout); continue
            if sh("bash %s/demo.sh" % o, d).returncode: print(s["id"], "DEMO UNSTABLE"); continue
            for f, old, new in s["subs"]:
                p = os.path.join(d, f); t = open(p).read()
                if t.count(old) != 1: print(s["id"], "COUNT", t.count(old), old[:60]); raise SystemExit(1)
                open(p, "w").write(t.replace(old, new))
            r = sh("go vet -vettool= ./... >/dev/null; go build ./...", d)
            if r.returncode: print(s["id"], "BUILD", r.stdout); continue
            diff = subprocess.run(["git", "diff"], cwd=d, stdout=subprocess.PIPE, text=True).stdout
            open(os.path.join(o, "patch.diff"), "w").write(diff)
            r = sh("bash %s/demo.sh" % o, d)
            demo = r.returncode != 0
            # the tests as test.sh runs them
            t = sh("go test -vet=off -count=1 ./... 2>&1 | grep -v '^ok\\|no test files'; go build -o /tmp/st.vp ./cmd/vimlparser && timeout 150 bash test/run_command.sh timeout 5 /tmp/st.vp >/dev/null 2>&1; for f in test/test*.vim; do b=${f%%.vim}; [ -f $b.skip ] && continue; cmp -s $b.out $b.ok || echo FAIL $b; done" % (), d)
            known = {x[len("run_command/"):] for x in STABLE if x.startswith("run_command/")}
            fails = [l for l in t.stdout.splitlines() if not l.startswith("FAIL test/") or os.path.basename(l) in known]
            open(os.path.join(o, "meta.json"), "w").write(json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
            b = sh("git -C /repo blame -s -- %s | head -0" % s["subs"][0][0], d)
            print(s["id"], "demo-detects" if demo else "DEMO DOES NOT DETECT", "tests:", fails[:2] or "pass")
            if not demo or fails: shutil.rmtree(o)
        finally:
            shutil.rmtree(d)
main()
