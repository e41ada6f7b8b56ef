"""C26: the m2m identity is announced until the server accepts it."""
from props.agent import *
from sxenv.fs import fs
from dataplicity import constants


def told(cx, back, since):
    """The identities announced since then, with whether the server accepted."""
    out = []
    for e in back.log[since:]:
        cx.check(sorted(e["calls"]) == ["m2m.associate"], "an announcement associates one identity")
        out.append((e["calls"]["m2m.associate"]["identity"], e["accepted"]))
    return out


def history(cx, n, answers, ops, cells=1, same=""):
    """Identities given by the server, polls and disconnections, any answers to the announcements."""
    back = Backend(cx, answers)
    agent = new_agent(cx)
    conn = agent.m2m.m2m_client
    ids = [cx.chars("identity", cells, 97, 122) for _ in range(2)]
    if same == "start":
        ids = ["0123456789abcdef" * 8 + i for i in ids]
    elif same == "end":
        ids = [i + "0123456789abcdef" * 8 for i in ids]

    def script():
        current = None
        known = None                # what the server has accepted, as far as the agent can know
        for _ in range(n):
            op = cx.pick("op", ops)
            k = len(back.log)
            if op in ("first", "second", "empty"):
                current = "" if op == "empty" else ids[0 if op == "first" else 1]
                yield binary(SET_ID, current.encode("utf-8"))
            elif op == "poll":
                yield event("poll")
            elif op == "drop":
                current = None
                yield event("disconnected")
            elif op == "other":
                yield binary(PING, b"x")
            new = told(cx, back, k)
            due = op in ("first", "second", "empty", "poll") and current and current != known
            if due:
                cx.check(len(new) == 1, "an identity the server has not accepted is announced, once")
                cx.check(new[0][0] == current, "the identity announced is the one the server gave")
                known = current if new[0][1] else None
                if new[0][1]:
                    cx.reach("accepted")
                else:
                    cx.reach("failed")
            else:
                cx.check(not new, "an accepted identity, or none, is not announced")

    drive(cx, conn, script())
    cx.reach("history")


def lasting(cx, fails, how):
    """The server accepts an identity only after very many attempts; then very many polls change nothing."""
    k = [0]
    back = Backend(cx, lambda calls: ["accept"] if k[0] >= fails else [how])
    agent = new_agent(cx)
    conn = agent.m2m.m2m_client
    i = cx.chars("identity", 2, 97, 122)

    def script():
        for n in range(2 * fails):
            seen = len(back.log)
            k[0] = n
            if n == 0:
                yield binary(SET_ID, i.encode("utf-8"))
            else:
                yield event("poll")
            new = told(cx, back, seen)
            if n <= fails:
                cx.check(len(new) == 1 and new[0][0] == i, "an identity the server has not accepted is announced, once")
            else:
                cx.check(not new, "an accepted identity, or none, is not announced")

    drive(cx, conn, script())
    cx.reach("lasting")


def direct(cx, answers):
    """One announcement with any outcome."""
    errors = ERRORS + [OSError(111, "x"), EOFError(), UnicodeError("x")]
    token = cx.pick("token", [TOKEN, "", " "])
    fs().put(constants.AUTH_LOCATION, b" \n")      # read when no token is given
    back = Backend(cx, answers, errors=errors, codes=(-32603, 7), token=token)
    agent = new_agent(cx, token=token)
    i = cx.cells("identity", 2)
    r, e = caught(agent.set_m2m_identity, i)
    cx.check(e is None, "no failure of an announcement escapes")
    new = told(cx, back, 0)
    ok = len(new) == 1 and new[0][1]
    text, bad = caught(i.decode, "utf-8")
    if bad is None:
        cx.check(len(new) == 1 and new[0][0] == text, "the identity is announced")
    else:
        cx.check(not ok, "no other identity is announced")
        cx.reach("not text")
    cx.check((r == i) if ok else r is None, "an identity counts as announced exactly if the server accepted it")
    cx.reach("direct")
    if ok:
        cx.reach("ok")


def plan(tier):
    t = tier == "thorough"
    few = ["accept", "call error", "unreachable", "auth error"]
    rest = ["accept", "auth missing", "call missing", "empty", "read fails", "not a list", "not json", "no ids",
            "both errors", "error not an object", "wrong ids"]
    return {
        "bounds": "every sequence of %d (all answers: %d) events out of: one of two identities (any values, also long ones that differ only at the start or the end) given, an "
                  "empty one, poll, disconnection, other packet; every announcement answered in any of 14 ways; %d failed attempts in a row; one "
                  "announcement of any two-byte identity with any of 16 exception types" % (
                      5 if t else 4, 4 if t else 3, 3000 if t else 1100),
        "outside": "longer histories; answers cut off in the middle of the JSON (C24)",
        "jobs": [
            {"fn": "history", "cases": [
                {"n": 5 if t else 4, "answers": few[:3], "ops": ["first", "second", "poll"]},
                {"n": 4 if t else 3, "answers": few, "ops": ["first", "second", "poll", "drop", "empty", "other"]},
                {"n": 3, "answers": few[:2], "ops": ["first", "second", "poll"], "same": "start"},
                {"n": 3, "answers": few[:2], "ops": ["first", "second", "poll"], "same": "end"},
                {"n": 4 if t else 3, "answers": rest, "ops": ["first", "poll"]},
                {"n": 3 if t else 2, "answers": rest, "ops": ["first", "second", "poll", "drop"]}],
             "reach": ["history", "accepted", "failed"], "weight": 2},
            {"fn": "lasting", "cases": [{"fails": 3000 if t else 1100, "how": h} for h in ("unreachable", "call error", "auth error")],
             "reach": ["lasting"], "max_steps": 4000000},
            {"fn": "direct", "cases": [{"answers": ["accept", "auth error", "call error", "unreachable"]},
                                       {"answers": rest}], "reach": ["direct", "ok", "not text"]},
        ]}
