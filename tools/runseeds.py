"""runseeds.py [ID...]: runs each planted bug's own check (quick) on its scratch copy /tmp/seed/<id> and prints the outcome."""
import json, os, subprocess, sys, time
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = R + "/seeded"
ids = sys.argv[1:] or sorted(os.listdir(V))
for i in ids:
    c = "/tmp/seed/" + i
    if not os.path.isdir(c):
        subprocess.check_call(["cp", "-a", "/repo", c])
        subprocess.check_call(["git", "-C", c, "apply", "%s/%s/patch.diff" % (V, i)])
    p = json.load(open("%s/%s/meta.json" % (V, i)))["property"]
    t = time.time()
    r = subprocess.run([R + "/check", p, "quick"], env=dict(os.environ, PIPIT_REPO=c), capture_output=True, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    first = next((l.strip() for l in r.stdout.splitlines() if l.startswith("  ")), "")
    print("%-28s %s rc=%d violations=%d %4.0fs %s" % (i, "CAUGHT" if r.returncode == 1 and v else "MISSED", r.returncode, len(v), time.time() - t, first[:170]), flush=True)
