"""usage: seed.py SPEC.py [check]   build (and verify) seeded bugs in /verif/seeded from a spec

A spec defines BUGS = {id: dict(property=, needs=, breaks=, edits=[(file, old, new)], demo=python text)}.
"""
import json, os, shutil, subprocess, sys, runpy
REPO, OUT, SB = os.environ.get("SEED_REPO", "/repo"), os.environ.get("SEED_OUT", "/verif/seeded"), "/tmp/seedbox"
SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec timeout 120 /opt/venv/bin/python -W ignore "$here/demo.py" </dev/null
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, stdin=subprocess.DEVNULL, **kw)


def fresh():
    shutil.rmtree(SB, ignore_errors=True)
    subprocess.run(["cp", "-a", REPO, SB], check=True)


def tests():
    base = json.load(open("/opt/vp/BASELINE.json"))
    r = sh(f"cd {SB} && PYTHONPATH={SB} timeout 300 /opt/venv/bin/python -m pytest -q -x --no-header -p no:cacheprovider mandala/tests 2>&1 | tail -5")
    return r.stdout.strip().splitlines()[-1] if r.stdout.strip() else "?"


def main():
    spec = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[3:] if len(sys.argv) > 3 else None
    for bid, b in spec.items():
        if only and bid not in only:
            continue
        fresh()
        for f, old, new in b["edits"]:
            p = f"{SB}/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (bid, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        d = f"{OUT}/{bid}"
        os.makedirs(d, exist_ok=True)
        diff = sh(f"git -C {SB} diff").stdout
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/demo.py", "w").write(b["demo"])
        open(f"{d}/demo.sh", "w").write(SH)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        ok = sh(f"cd {REPO} && bash {d}/demo.sh")
        bad = sh(f"cd {SB} && bash {d}/demo.sh")
        t = tests()
        line = f"{bid} {b['property']} clean={ok.returncode} buggy={bad.returncode} tests={t}"
        if ok.returncode: line += "\n   CLEAN DEMO: " + (ok.stdout + ok.stderr)[-800:]
        if not bad.returncode: line += "\n   BUG NOT SHOWN"
        elif bad.returncode > 100 or "Error" in bad.stderr: line += "\n   " + bad.stderr.strip()[-200:]
        print(line, flush=True)
        if len(sys.argv) > 2 and sys.argv[2] == "check":
            r = sh(f"cd {os.path.dirname(os.path.dirname(os.path.abspath(__file__)))} && MC_REPO={SB} MC_MAX=3 timeout 900 bash run.sh {b['property']}")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(f"   check rc={r.returncode} {v[:1]} {'' if v else r.stdout[-300:] + r.stderr[-300:]}", flush=True)
    shutil.rmtree(SB, ignore_errors=True)


main()
