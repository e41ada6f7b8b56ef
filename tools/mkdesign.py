"""Assembles DESIGN.md (development only)."""
import ast, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
WORD = {}
exec(open(os.path.join(HERE, "tools", "design_words.py")).read(), WORD)


def plan(pid, tier):
    return check.load_plan(pid, tier)


def docs(pid):
    p = os.path.join(HERE, "props", pid.lower() + ".py")
    t = ast.parse(open(p).read())
    return {n.name: " ".join((ast.get_docstring(n) or "").split()) for n in t.body if isinstance(n, ast.FunctionDef)}


out = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if not os.path.exists(os.path.join(HERE, "props", i.lower() + ".py")):
        continue
    q, t = plan(i, "quick"), plan(i, "thorough")
    d = docs(i)
    out.append("### %s %s\n" % (i, p["title"]))
    out.append(WORD["HOW"].get(i, "").strip() + "\n")
    fns = []
    for j in q["jobs"] + t["jobs"]:
        f = j["fn"]
        if f not in fns:
            fns.append(f)
    out.append("*Harnesses*: " + "; ".join("`%s`%s" % (f, " (%s)" % d[f].rstrip(".") if d.get(f) else "") for f in fns) + ".\n")
    out.append("*Bounds (quick)*: %s.\n" % q["bounds"])
    if t["bounds"] != q["bounds"]:
        out.append("*Bounds (thorough)*: %s.\n" % t["bounds"])
    if q.get("outside"):
        out.append("*Outside*: %s.\n" % q["outside"])
find = "\n".join("* " + l[len("fixed: property="):].strip() for l in open(os.path.join(HERE, "known_findings.txt"))
                 if l.startswith("fixed:"))
rows = ["| id | property | needs | missed at first |", "|---|---|---|---|"]
sd = os.path.join(HERE, "seeded")
for s in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, s, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "/"), WORD["MISSED"].get(s, "")))
a = open(os.path.join(HERE, "tools", "design_intro.md")).read().replace("@@FINDINGS@@", find)
b = open(os.path.join(HERE, "tools", "design_end.md")).read().replace("@@SEEDS@@", "\n".join(rows))
open(os.path.join(HERE, "DESIGN.md"), "w").write(a + "\n".join(out) + "\n" + b)
