"""Writes MANIFEST.json from properties.jsonl and the props/ modules that exist."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C37": "decided inside the TLS library, the interpreter's ssl module and lomond's socket code, none of which is in "
           "/repo; what the agent itself contributes (the wss:// URL constant) is not a quantified computation a "
           "solver could decide anything about",
    "C38": "needs a Python 2.7 interpreter as second subject: none is installed, and the Python 2 semantics of the "
           "same source (bytes/str, division, dict order) are not encodable against anything that could be replayed",
}
NOTE = ("bounded symbolic execution of the real functions (AST-instrumented from /repo at run time), z3 decides every "
        "branch and assertion over all values within the bounds in the evidence; environment (sockets, poll, files, "
        "clock, threads, HTTP, websocket) replaced by nondeterministic models; every counterexample is replayed on the "
        "uninstrumented code under the agent's own PyPy interpreter before it is reported. Nothing is claimed outside "
        "the stated bounds.")
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "props", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": "python3-vt check.py %s quick" % i,
            "thorough_cmd": "python3-vt check.py %s thorough" % i,
            "technique": "symbolic execution of the real Python code with z3 (bounded), counterexamples replayed",
            "level": "model_checking",
            "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3' && test -x /opt/venv/bin/python",
           "checks": checks, "not_applicable": na,
           "notes": "check.py CNN quick|thorough; see DESIGN.md"}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
