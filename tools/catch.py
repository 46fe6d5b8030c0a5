"""usage: catch.py [ID...]   run each seeded bug against the check of its property (in a scratch copy of /repo)"""
import json, os, shutil, subprocess, sys, time
OUT = "/verif/seeded"
ids = sys.argv[1:] or sorted(os.listdir(OUT))
for bid in ids:
    sb = f"/tmp/catch.{os.getpid()}"
    shutil.rmtree(sb, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", sb], check=True)
    meta = json.load(open(f"{OUT}/{bid}/meta.json"))
    r = subprocess.run(["git", "-C", sb, "apply", f"{OUT}/{bid}/patch.diff"], capture_output=True, text=True)
    if r.returncode:
        print(bid, "DOES NOT APPLY", r.stderr[:200], flush=True); continue
    t = time.time()
    r = subprocess.run(["bash", "run.sh", os.environ.get("PROP", meta["property"])], cwd="/verif", env={**os.environ, "MC_REPO": sb, "MC_MAX": "2"}, capture_output=True, text=True, stdin=subprocess.DEVNULL, timeout=1500)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    ok = r.returncode == 1 and v
    print(f"{bid:32} {meta['property']} rc={r.returncode} {'caught' if ok else 'MISSED'} {time.time()-t:.0f}s", "" if ok else r.stdout[-400:] + r.stderr[-400:], flush=True)
    shutil.rmtree(sb, ignore_errors=True)
