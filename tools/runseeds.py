"""Run the checks against planted bugs, each in a scratch copy of /repo (development only).
   python3 tools/runseeds.py [ID ...] """
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
for i in ids:
    d = os.path.join(HERE, "seeded", i)
    pid = json.load(open(os.path.join(d, "meta.json")))["property"]
    if not os.path.exists(os.path.join(HERE, "props", pid.lower() + ".py")):
        print("%-28s %s no check yet" % (i, pid)); continue
    w = tempfile.mkdtemp(prefix="seedrun")
    try:
        repo = os.path.join(w, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        subprocess.check_call(["git", "apply", os.path.join(d, "patch.diff")], cwd=repo)
        t = time.time()
        p = subprocess.run(["python3-vt", os.path.join(HERE, "check.py"), pid, os.environ.get("TIER", "quick")],
                           env=dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE=os.path.join(w, "ev")),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = p.stdout.decode()
        hit = p.returncode == 1 and "VIOLATION property=%s " % pid in out
        print("%-28s %s %s rc=%d %.0fs %s" % (i, pid, "caught" if hit else "MISSED", p.returncode, time.time() - t,
              [l for l in out.splitlines() if l.startswith("counterexample")][:1] if hit else out[-1500:]), flush=True)
    finally:
        shutil.rmtree(w)
