#!/usr/bin/env python3
"""seedrun.py [ids...]: runs every planted bug under seeded/ against the check
of its property, each in a scratch copy of /repo, and says which are caught.
Development aid; no check uses it."""
import concurrent.futures as cf, json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
jobs = int(os.environ.get("JOBS", "2"))

def one(i):
    d = V + "/seeded/" + i
    prop = os.environ.get("PROP") or json.load(open(d + "/meta.json"))["property"]
    w = "/tmp/seedrun_%d_%s" % (os.getpid(), i)
    subprocess.run(["rm", "-rf", w])
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
    for _ in range(5):
        if subprocess.run(["git", "-C", "/repo", "worktree", "add", "--detach", "-f", w, "HEAD"], capture_output=True).returncode == 0:
            break
        time.sleep(1)
    a = subprocess.run(["git", "-C", w, "apply", d + "/patch.diff"], capture_output=True, text=True)
    t = time.time()
    if a.returncode:
        res, msg = "NOAPPLY", a.stderr[:200]
    else:
        p = subprocess.run([sys.executable, V + "/bin/check.py", prop], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w))
        hit = p.returncode == 1 and "VIOLATION property=%s " % prop in p.stdout
        res = "caught" if hit else "MISSED(%d)" % p.returncode
        msg = (p.stdout + p.stderr).strip().split("\n")[0][:160]
    subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", w], capture_output=True)
    return "%-28s %s %-10s %4.0fs %s" % (i, prop, res, time.time() - t, msg)

with cf.ThreadPoolExecutor(jobs) as ex:
    for x in ex.map(one, ids):
        print(x, flush=True)
