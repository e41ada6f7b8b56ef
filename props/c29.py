"""C29: the clock watch restarts the agent exactly on large forward jumps."""
from sxenv import threads
from sxenv.lib import And, Not, Or, caught
from dataplicity.clockcheck import ClockCheckThread


class Killed(BaseException):
    pass


def watch(cx, n, lo, hi):
    """n periods over which the clock moves by any amount; told to stop during any of them."""
    cx.st["now"] = cx.real("start", 0, 10 ** 6)
    t = ClockCheckThread()
    stop_at = cx.choice("stopped in period", n + 1)     # n: before it starts
    st = {"period": 0, "jump": None, "stopped": False, "kills": []}

    def sleep(d):
        cx.check(d == 1, "the wait is one second")
        if st["jump"] is not None:
            cx.check(Not(st["jump"] > 180), "a wait of more than 180 seconds kills the agent")
            cx.check(not st["stopped"], "the watch ends once it is told to stop")
        d = cx.real("elapsed", lo, hi)
        cx.st["now"] = cx.st["now"] + d
        st["jump"] = d
        if st["period"] == stop_at or st["period"] >= n - 1:
            t.running = False
            st["stopped"] = True
        st["period"] += 1

    def kill(pid, sig):
        cx.check(pid == 777 and sig == 9, "the agent's own process is killed, with the unblockable signal")
        cx.check(st["jump"] is not None, "nothing is killed before a wait")
        cx.check(st["jump"] > 180, "a wait of 180 seconds or less does not kill the agent")
        st["kills"].append(pid)
        raise Killed()

    cx.st["sleep"] = sleep
    cx.st["kill"] = kill
    if stop_at == n:
        t.running = False
    t.start()
    cx.check(t.daemon, "the watch does not keep the agent from ending")
    try:
        threads.run_threads()
    except Killed:
        cx.check(len(st["kills"]) == 1, "the agent is killed once")
        cx.reach("killed")
        return
    cx.check(not cx.st.get("crashes"), "the watch does not fail")
    cx.check(not t.is_alive(), "the watch ends once it is told to stop")
    if stop_at == n:
        cx.check(st["period"] == 0, "a watch told to stop before it starts does nothing")
    else:
        cx.check(st["stopped"], "the watch goes on until it is told to stop")
    cx.observe(st["period"])
    cx.reach("ended")


def lasting(cx, n, step):
    """The watch goes on for a very long time, and still sees a jump."""
    cx.st["now"] = 1000.0
    t = ClockCheckThread()
    st = {"period": 0, "jump": None}
    end = cx.pick("end", ["jump", "stop"])

    def sleep(d):
        st["period"] += 1
        if st["period"] < n:
            cx.st["now"] = cx.st["now"] + step
            return
        cx.check(st["jump"] is None, "a wait of more than 180 seconds kills the agent" if end == "jump" else
                 "the watch ends once it is told to stop")
        st["jump"] = d = cx.real("elapsed", 181, 1000) if end == "jump" else step
        cx.st["now"] = cx.st["now"] + d
        if end == "stop":
            t.running = False

    def kill(pid, sig):
        cx.check(st["jump"] is not None and end == "jump", "a wait of 180 seconds or less does not kill the agent")
        raise Killed()

    cx.st["sleep"] = sleep
    cx.st["kill"] = kill
    t.start()
    killed = False
    try:
        threads.run_threads()
    except Killed:
        killed = True
    cx.check(killed == (end == "jump"), "a wait of more than 180 seconds kills the agent")
    cx.check(st["period"] == n, "the watch goes on until it is told to stop")
    cx.check(not cx.st.get("crashes"), "the watch does not fail")
    cx.reach("lasting")


def plan(tier):
    t = tier == "thorough"
    n = 10 if t else 6
    return {
        "bounds": "up to %d periods, in each of which the clock moves by any amount (multiples of 1/1024 s) between "
                  "-1000000 and 1000000 s; told to stop before the start or during any period; 100000 periods of a second, "
                  "3000 of 179 s and of -5 s" % n,
        "outside": "clock jumps outside the waits; a jump in the very wait during which the watch is told to stop",
        "jobs": [{"fn": "watch", "cases": [{"n": n, "lo": -10 ** 6, "hi": 10 ** 6},
                                           {"n": 3, "lo": 170, "hi": 190}],
                  "reach": ["killed", "ended"], "hang": True, "max_steps": 5000},
                 {"fn": "lasting", "cases": [{"n": 100000, "step": 1.0}, {"n": 3000, "step": 179.0},
                                             {"n": 3000, "step": -5.0}], "reach": ["lasting"], "hang": True,
                  "max_steps": 8000000}]}
