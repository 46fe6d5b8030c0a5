"""addfixed.py PROPERTY 'start of commit subject' 'what failed' : adds a fixed entry"""
import json, subprocess, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
for prop, subj, what in zip(*[iter(sys.argv[1:])] * 3):
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
    h = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("fix: " + subj)]
    assert len(h) == 1, (subj, h)
    s = open(p).read().rstrip()
    assert s.endswith("\n]}")
    e = json.dumps({"property": prop, "fixed": f"fixed: property={prop} {h[0]} {what}"})
    open(p, "w").write(s[:-3] + ",\n " + e + "\n]}\n")
json.load(open(p))
