"""Plant a bug: python3 tools/mkseed.py SPEC.py   (development only; nothing here is used by a check)

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)] and DEMO (python source run in the repository).
The change is confirmed in a scratch copy: builds, passes the stable tests, demo passes without and fails with it.
"""
import json, os, shutil, subprocess, sys, tempfile
REPO = "/repo"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run_tests(w):
    # the test script names /repo, so run the same command in the copy
    env = dict(os.environ, LC_ALL="C.UTF-8", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=w)
    x = os.path.join(w, "junit.xml")
    subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=120",
                    "--junitxml=" + x, "tests/"], cwd=w, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    import xml.etree.ElementTree as ET
    bad = []
    n = 0
    for c in ET.parse(x).getroot().iter("testcase"):
        n += 1
        if any(k.tag in ("failure", "error") for k in c):
            bad.append(c.get("classname") + "::" + c.get("name"))
    os.unlink(x)
    return n, bad


def main(spec):
    g = {}
    exec(open(spec).read(), g)
    w = tempfile.mkdtemp(prefix="seed")
    try:
        repo = os.path.join(w, "repo")
        shutil.copytree(REPO, repo, symlinks=True)
        for f, old, new in g["EDITS"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=repo, stdout=subprocess.PIPE, check=True).stdout.decode()
        # changed lines must be lines of the original
        d = os.path.join(HERE, "seeded", g["ID"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(g["DEMO"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(
            '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
            'exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        demo = os.path.join(d, "demo.sh")
        a = subprocess.run(["bash", demo], cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        b = subprocess.run(["bash", demo], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        n, bad = run_tests(repo)
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        bad = [x for x in bad if any(x.split("::")[-1] in s for s in stable)]
        ok = a.returncode == 0 and b.returncode != 0 and not bad
        print("%s %s clean=%d planted=%d tests=%d bad=%s" % ("OK  " if ok else "FAIL", g["ID"], a.returncode,
                                                            b.returncode, n, bad))
        if not ok:
            print(a.stdout.decode()[-1500:]); print("----planted"); print(b.stdout.decode()[-1500:])
    finally:
        shutil.rmtree(w)


for s in sys.argv[1:]:
    main(s)
