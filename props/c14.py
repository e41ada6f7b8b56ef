"""C14: port forwarding connects only to the requested local service."""
from props.stack import *

P_PORTS = {"web": 80, "ext": 81, "extalt": 8000, "alt": 8080}


def quiet_end(cx, n):
    """Every connection ends at once."""
    def ended(sock, addr):
        pass
    n.on_step = lambda: [setattr(p.inp, "closed", True) for p in n.peers]


def check_connection(cx, n, addr, port):
    cx.check(isinstance(addr, tuple) and len(addr) == 2 and addr[0] == "127.0.0.1",
             "connections are made to the loopback address only")
    cx.check(addr[1] == port, "the connection is made to the port asked for")


def service(cx, n, lo):
    """A request by any service name, over any channel."""
    st = Stack(cx)
    net_ = Net(cx)
    quiet_end(cx, net_)
    name = cx.cells("name", n, lo, 127)
    chan = cx.int("channel", 100, 999)
    other = cx.int("route", 10, 99)
    text = name.decode("ascii")
    st.instruct(action=b"open-portforward", service=name, route=[b"n1", other, b"n2", chan])
    started = len(cx.st["started"])
    net_.on_connect = lambda s, a: None
    st.run()
    for known in P_PORTS:
        if text == known:
            cx.check(len(net_.connects) == 1, "one connection is made")
            check_connection(cx, net_, net_.connects[0], P_PORTS[known])
            for p in st.packets():
                cx.check(p[1] == chan, "the channel of the request is used")
            cx.check(st.sent_on(chan)[2] == 1, "the channel of the request is used")
            cx.reach("known")
            return
    cx.check(not net_.connects and not started and not st.ws.sent,
             "an unknown service name opens no connection and no channel traffic")
    cx.check(not st.client.port_forward.get_service(text), "a service not registered is unknown")
    cx.reach("unknown")


def named(cx, name, clo=100, chi=999):
    st = Stack(cx, past=9)
    net_ = Net(cx)
    chan = cx.int("channel", clo, chi)
    other = cx.int("route", 10, 99)
    data = cx.bytes("data", 1, 99)
    up = cx.bytes("up", 1, 99)

    def step():
        for p in net_.peers:
            if not p.inp.closed:
                p.inp.put(data)
            p.inp.closed = True

    net_.on_step = step
    st.instruct(action=b"open-portforward", service=name.encode("ascii"), route=[b"n1", other, b"n2", chan])
    st.deliver(binary(ROUTE, chan, up))
    st.run()
    cx.check(len(net_.connects) == 1, "one connection is made")
    check_connection(cx, net_, net_.connects[0], P_PORTS[name])
    got, control, closes = st.sent_on(chan)
    cx.check(got == [data] and closes == 1, "the channel of the request is used")
    cx.check(net_.peers[0].received == up, "the channel of the request is used")
    cx.check(len(st.packets()) == 2, "no other channel is used")
    cx.reach("named")


def odd_name(cx, kind):
    """Service names that are no names: numbers (such as the port of a service), nothing, lists."""
    st = Stack(cx)
    net_ = Net(cx)
    quiet_end(cx, net_)
    name = {"number": lambda: cx.int("name", 0, 9999), "negative": lambda: cx.int("name", -999, -100), "list": lambda: [b"web"],
            "not ascii": lambda: cx.cells("name", 4, 128, 255), "none": lambda: b"None",
            "listed": lambda: [80]}[kind]()
    st.instruct(action=b"open-portforward", service=name, route=[b"n1", 4, b"n2", 5])
    started = len(cx.st["started"])
    st.run()
    cx.check(not net_.connects and not started and not st.ws.sent,
             "an unknown service name opens no connection and no channel traffic")
    cx.reach("odd")


def out_of_range(cx, lo, hi):
    """A redirect to something that is no port: no other connection is made."""
    st = Stack(cx)
    net_ = Net(cx)
    quiet_end(cx, net_)
    port = cx.int("port", lo, hi)
    st.instruct(action=b"open-portredirect", m2m_port=6, device_port=port)
    st.run()
    for addr in net_.connects:
        check_connection(cx, net_, addr, port)
    for p in st.packets():
        cx.check(p[1] == 6, "the channel of the request is used")
    cx.reach("out")


def redirect(cx, lo=1, hi=65535, clo=100, chi=999):
    """A redirect to any port."""
    st = Stack(cx, past=9)
    net_ = Net(cx)
    quiet_end(cx, net_)
    port = cx.int("port", lo, hi)
    chan = cx.int("channel", clo, chi)
    up = cx.bytes("up", 1, 99)
    st.instruct(action=b"open-portredirect", m2m_port=chan, device_port=port)
    st.deliver(binary(ROUTE, chan, up))
    st.run()
    cx.check(len(net_.connects) == 1, "one connection is made")
    check_connection(cx, net_, net_.connects[0], port)
    for p in st.packets():
        cx.check(p[1] == chan, "the channel of the request is used")
    cx.check(net_.peers[0].received == up, "the channel of the request is used")
    cx.reach("redirect")


def several(cx, count):
    """A sequence of requests: each connection goes where its own request says, over its own channel."""
    st = Stack(cx)
    net_ = Net(cx)
    want = []
    for i in range(count):
        k = cx.pick("request", ["web", "ext", "extalt", "alt", "none", "redirect"])
        chan = 10 + i
        if k == "redirect":
            port = cx.int("port", 1, 65535)
            st.instruct(action=b"open-portredirect", m2m_port=chan, device_port=port)
            want.append((chan, port))
        else:
            st.instruct(action=b"open-portforward", service=k.encode("ascii"), route=[b"a", 1, b"b", chan])
            if k != "none":
                want.append((chan, P_PORTS[k]))
    late = cx.fault("data later")
    if not late:
        for chan, port in want:
            st.deliver(binary(ROUTE, chan, b"%d" % chan))
    if cx.fault("reverse"):
        cx.st["queue"].reverse()
        want.reverse()
    n = [0]

    def step():
        for p in net_.peers:
            p.inp.closed = True
        if late and n[0] < len(net_.peers):
            chan = want[n[0]][0]
            n[0] = len(net_.peers)
            st.interfere(binary(ROUTE, chan, b"%d" % chan))

    net_.on_step = step
    st.run()
    cx.check(len(net_.connects) == len(want), "one connection is made for each request")
    for i, (chan, port) in enumerate(want):
        check_connection(cx, net_, net_.connects[i], port)
        cx.check(net_.peers[i].received == b"%d" % chan, "each connection uses the channel of its request")
        cx.check(st.sent_on(chan)[2] == 1, "each connection uses the channel of its request")
    cx.reach("several")


def lasting(cx, rounds, burst):
    """Very many forwards and redirects in one life, a few at a time: each connects to its own port."""
    st = Stack(cx)
    net_ = Net(cx)
    quiet_end(cx, net_)
    names = sorted(P_PORTS)
    up = cx.cells("up", 3)
    i = 0
    for r in range(rounds):
        want = []
        for b in range(burst):
            i += 1
            chan = 5 + i
            if i % 3 == 0:
                port = 1 + (i * 7919) % 65535
                st.instruct(action=b"open-portredirect", m2m_port=chan, device_port=port)
                want.append((chan, port))
            elif i % 7 == 1:
                st.instruct(action=b"open-portforward", service=b"no%d" % i, route=[b"a", 1, b"b", chan])
            else:
                st.instruct(action=b"open-portforward", service=names[i % 4].encode("ascii"), route=[b"a", i, b"b", chan])
                want.append((chan, P_PORTS[names[i % 4]]))
        for chan, port in want:
            st.deliver(binary(ROUTE, chan, up))
        n = len(net_.connects)
        k = len(st.ws.sent)
        st.run()
        cx.check(len(net_.connects) == n + len(want), "one connection is made for each request")
        for j, (chan, port) in enumerate(want):
            check_connection(cx, net_, net_.connects[n + j], port)
            cx.check(net_.peers[n + j].received == up, "each connection uses the channel of its request")
            cx.check(st.sent_on(chan, k)[2] == 1, "each connection uses the channel of its request")
            st.close(chan)
    cx.reach("lasting")


def plan(tier):
    t = tier == "thorough"
    return {
        "bounds": ("service names of up to %d arbitrary ASCII characters and the registered ones; service names that are numbers, lists or not ASCII; every port from 0 to "
                  "65535 and integers that are no port; channel numbers 0 to 9, 100 to 999 and of ten digits; sequences of %d requests" % (5 if t else 4, 3 if t else 2)) +
                  "; a life of hundreds of connections",
        "outside": "longer names",
        "jobs": [
            {"fn": "service", "cases": [{"n": k, "lo": 0} for k in range(0, 6 if t else 5)],
             "reach": ["unknown"]},
            {"fn": "named", "cases": [{"name": k} for k in P_PORTS] +
                [{"name": "ext", "clo": 0, "chi": 9}, {"name": "alt", "clo": 10 ** 9, "chi": 10 ** 10 - 1}],
             "reach": ["named"]},
            {"fn": "redirect", "cases": [{}, {"lo": 0, "hi": 0}, {"clo": 0, "chi": 9}, {"clo": 10 ** 9, "chi": 10 ** 10 - 1}],
             "reach": ["redirect"]},
            {"fn": "out_of_range", "cases": [{"lo": 65536, "hi": 99999}, {"lo": 100000, "hi": 999999},
                                             {"lo": -99999, "hi": -10000}, {"lo": -9, "hi": -1}], "reach": ["out"]},
            {"fn": "lasting", "cases": [{"rounds": 300 if t else 80, "burst": 3}], "reach": ["lasting"], "hang": True,
             "max_steps": 4000000},
            {"fn": "odd_name", "cases": [{"kind": k} for k in ("number", "negative", "list", "not ascii", "none", "listed")],
             "reach": ["odd"]},
            {"fn": "several", "cases": [{"count": 2}] + ([{"count": 3}] if t else []), "reach": ["several"]},
        ]}
