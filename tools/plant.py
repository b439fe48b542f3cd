"""Plants the bugs of a spec file in scratch copies of /repo, confirms them and keeps the good ones in /verif/seeded.

    python3 tools/plant.py SPEC.py [ID ...]

SPEC.py defines BUGS = [dict(id=, property=, edits=[(file, old, new), ...], demo="python text", needs=, breaks=)].
For each: copy /repo to /tmp/pl/ID/repo, run the demo (must pass), apply, build if C++ changed, run the demo (must fail), run the
stable tests (must pass), then run this property's check from a copy of /verif.  Everything under /tmp/pl/ID is removed afterwards.
"""
import glob
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def inns(base, cmd, **kw):
    """runs cmd with the scratch copy in the place of /repo, in a mount namespace of its own"""
    pre = "mount --bind %s/repo /repo && mount --bind %s/reports /opt/vp/reports && cd /repo && " % (base, base)
    return subprocess.run(["unshare", "-m", "bash", "-c", pre + cmd], capture_output=True, text=True, **kw)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for b in ns["BUGS"]:
        if want and b["id"] not in want:
            continue
        base = "/tmp/pl/" + b["id"]
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        repo = base + "/repo"
        out = V + "/seeded/" + b["id"]
        try:
            sh("cp -a /repo %s" % repo)
            os.makedirs(base + "/demo")
            os.makedirs(base + "/reports")
            open(base + "/demo/demo.py", "w").write(b["demo"].lstrip("\n"))
            open(base + "/demo/demo.sh", "w").write(
                '#!/bin/bash\nset -e\nHERE="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexec /opt/venv/bin/python -W ignore "$HERE/demo.py"\n')
            r = inns(base, "bash %s/demo/demo.sh" % base)
            if r.returncode:
                print(b["id"], "DEMO FAILS ON CLEAN TREE", r.stdout[-500:], r.stderr[-1500:], flush=True)
                continue
            cpp = False
            bad = False
            for f, old, new in b["edits"]:
                p = os.path.join(repo, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b["id"], "edit of", f, "matches", s.count(old), flush=True)
                    bad = True
                    break
                open(p, "w").write(s.replace(old, new))
                cpp |= not f.endswith(".py")
            if bad:
                continue
            sh("git diff > %s/patch.diff" % base, cwd=repo)
            root = sh("git rev-list --max-parents=0 HEAD", cwd=repo).stdout.split()[0]
            ours = []
            for f, _, _ in b["edits"]:
                orig = set(sh("git show %s:%s" % (root, f), cwd=repo).stdout.splitlines())
                ours += [l for l in sh("git diff -U0 -- %s" % f, cwd=repo).stdout.splitlines()
                         if l.startswith("-") and not l.startswith("---") and l[1:] not in orig]
            if ours:
                print(b["id"], "CHANGES LINES WHICH ARE NOT ORIGINAL", ours, flush=True)
                continue
            if cpp:
                r = inns(base, "bash /opt/vp/build.sh")
                if r.returncode:
                    print(b["id"], "BUILD FAILS", (r.stdout + r.stderr)[-2000:], flush=True)
                    continue
            r = inns(base, "timeout 280 bash %s/demo/demo.sh" % base)
            if r.returncode == 0:
                print(b["id"], "DEMO PASSES WITH THE BUG", flush=True)
                continue
            msg = (r.stdout + r.stderr).strip().splitlines()[-1:]
            open(base + "/test.sh", "w").write(open("/opt/vp/test.sh").read().replace("bash /opt/vp/build.sh", "true").replace("rm -rf \"$REPORTS\"", "true"))
            r = inns(base, "bash %s/test.sh %s/out.json" % (base, base))
            res = json.load(open(base + "/out.json"))
            missing = sorted(stable - set(res["passed"]))
            if missing:
                print(b["id"], "TESTS FAIL", missing[:5], flush=True)
                continue
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(base + "/demo", out)
            shutil.copy(base + "/patch.diff", out)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
            sh("mkdir %s/verif && cd %s && cp -a run.sh mc checks known_findings.txt properties.jsonl MANIFEST.json tools %s/verif/ && mkdir -p %s/verif/evidence %s/verif/replays" % (base, V, base, base, base))
            verdict = "no check"
            if glob.glob("%s/verif/checks/%s_*.py" % (base, b["property"].lower())):
                r = inns(base, "cd %s/verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh %s --tier quick" % (base, b["property"]))
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + b["property"])]
                verdict = "CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode
                det = [l for l in r.stdout.splitlines() if l.startswith("  case")][:1]
                verdict += " " + (det[0][:250] if det else r.stderr[-300:] if r.returncode else "")
            print(b["id"], b["property"], "kept;", verdict, "| demo:", msg, flush=True)
        finally:
            shutil.rmtree(base, ignore_errors=True)


main()
