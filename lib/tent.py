"""Workloads and checks for the services: T01 - T15."""
import json
import os
import random
import re
import core

VERS = [["1"], ["2"], ["1", "2"], ["1", "2", "3"], ["2", "3"], ["0.1", "0.2"]]


class Gen:
    def __init__(self, seed, name):
        self.r = random.Random("%s/%s" % (seed, name))
        self.name, self.n = name, 0

    def prog(self, nodes, ops, react=(), **kw):
        self.n += 1
        r = self.r
        p = {"id": "%s-%d" % (self.name, self.n), "seed": r.randrange(1 << 40), "jitter": r.choice([0, 0, 20, 50, 80]),
             "cap": r.choice([65536, 65536, 4096, 300]), "chunk": r.randrange(2), "naps": r.choice([0] * 7 + [1, 5, 30]), "eager": r.choice([0] * 5 + [1]), "nodes": nodes, "ops": ops, "react": list(react)}
        p.update(kw)
        ways(p)
        return p


def ways(p):
    """The ways in which the program asks for things: control, asynchronous control, the context of a callback."""
    r = random.Random(p["seed"])
    way = lambda o: dict(o, via=r.choice([0, 0, 1, 2]), nar=r.randrange(2))
    p["ops"] = [way(o) for o in p["ops"]]
    p["react"] = [dict(x, do=[dict(way(o), via=r.choice([0, 1, 2, 2])) for o in x["do"]]) for x in p["react"]]


def handlers(r, bias=None):
    k = bias or r.choice(["svc", "svc", "ses", "both", "ev", "all", "spn", "sesev"])
    return {"svc": {"svc": "cb"}, "ses": {"ses": "cb"}, "both": {"svc": "cb", "ses": "cb"}, "ev": {"svc": "ev"},
            "all": {"svc": "both", "ses": "both"}, "spn": {"spn": 1}, "sesev": {"ses": "both"}}[k].copy()


def protos(r, nodes, names=None, compat=0.85, bias=None):
    """Protocol lists for all nodes: mostly the same protocols with common versions."""
    names = names or ["p%d" % i for i in range(1, 1 + r.choice([1, 1, 2, 3]))]
    out = []
    base = {x: r.choice(VERS) for x in names}
    for _ in range(nodes):
        l = []
        ids = list(range(1, len(names) + 1))
        if r.random() < 0.3:
            r.shuffle(ids)
        for i, x in zip(ids, names):
            if r.random() > compat and r.random() < 0.3 and len(names) > 1:
                continue
            p = {"id": i, "name": x, "versions": base[x] if r.random() < compat else r.choice(VERS)}
            p.update(handlers(r, bias))
            if r.random() < 0.15:
                p["bs"] = 1
            if r.random() < 0.15:
                p["br"] = 1
            if r.random() < 0.1:
                p["poll"] = "".join(r.choice("SSP") for _ in range(r.randint(0, 4))) + r.choice("PN")
            if r.random() > compat:
                p["select"] = r.choice(["low", "low", "none"])
            l.append(p)
        if not l:
            l.append(dict(handlers(r, bias), id=1, name=names[0], versions=base[names[0]]))
        out.append(l)
    return out


def nodes(r, n, keys=None, **kw):
    pl = protos(r, n, **{k: kw.pop(k) for k in ("names", "compat", "bias") if k in kw})
    if keys is None:
        k = r.random()
        keys = list(range(n)) if k < 0.7 else [-1] * n
    ns = [dict(kw, key=keys[i], protos=pl[i]) for i in range(n)]
    for c in ns:
        if r.random() < 0.15:
            c["keep"] = 1
    return ns


def want(r, cfg):
    ids = [p["id"] for p in cfg["protos"]]
    k = r.random()
    if k < 0.6:
        return {}
    if k < 0.8:
        return {"protos": r.choice(ids)}
    return {"protos": r.sample(ids, r.randint(1, len(ids)))}


class Scene:
    """Builds one program step by step."""

    def __init__(self, g, ns):
        self.g, self.r, self.ns = g, g.r, ns
        self.ops, self.react = [], []
        self.v = [2] * (len(ns) + 1)
        self.port = [1000] * len(ns)
        self.maxs = [0] * len(ns)
        self.addrs = []
        self.tok = 0
        # one kind of transport for all
        self.kind = {"kind": "ws"} if g.r.random() < 0.12 else {}

    def op(self, **kw):
        self.ops.append(kw)

    def listen(self, n, **kw):
        self.op(**dict(dict(op="listen", n=n, port=self.port[n]), **dict(self.kind, **kw)))

    def dial(self, a, b, **kw):
        v = self.v[b]
        self.v[b] += 1
        d = dict(op="dial", n=a, to=b, v=v, port=kw.pop("port", (self.port + [1000])[b]))
        d.update(want(self.r, self.ns[a]) if "protos" not in kw else {})
        d.update(dict(self.kind, **kw))
        self.ops.append(d)
        self.addrs.append(d)
        self.maxs[a] += 1
        if b < len(self.ns):
            self.maxs[b] += 1
        return d

    def settle(self, ms=None):
        self.op(op="settle", **({"ms": ms} if ms else {}))

    def start(self):
        r = self.r
        for n in range(len(self.ns)):
            self.listen(n)
        self.settle()

    def sid(self, n):
        m = max(1, self.maxs[n])
        return self.r.randint(1, m)

    def pid(self, n):
        return self.r.choice(self.ns[n]["protos"])["id"]

    def random_op(self, weights):
        r = self.r
        kinds = list(weights)
        k = r.choices(kinds, [weights[x] for x in kinds])[0]
        n = r.randrange(len(self.ns))
        o = self.one(k, n)
        if o is not None:
            self.ops.append(o)

    def one(self, k, n, s=None):
        r = self.r
        s = s if s is not None else self.sid(n)
        if k == "send":
            o = dict(op="send", n=n, s=s, p=self.pid(n), size=r.choice([9, 20, 20, 200, 3000]), quick=int(r.random() < 0.25), count=r.choice([1, 1, 2, 4]))
            return o
        if k == "big":
            return dict(op="send", n=n, s=s, p=self.pid(n), size=r.choice([20000, 70000, 300000, 600000]), quick=int(r.random() < 0.25), count=r.choice([1, 2, 3]))
        if k == "empty":
            return dict(op="send", n=n, s=s, p=self.pid(n), size=0)
        if k == "sendmany":
            ss = "all" if r.random() < 0.5 else sorted(r.sample(range(1, max(1, self.maxs[n]) + 2), r.randint(1, max(1, self.maxs[n]))))
            return dict(op="send", n=n, ss=ss, p=self.pid(n), size=r.choice([9, 20, 3000]), quick=int(r.random() < 0.25))
        if k == "openp":
            return dict(dict(op="openp", n=n, s=s), **want(r, self.ns[n]))
        if k == "closep":
            return dict(op="closep", n=n, s=s, p=self.pid(n))
        if k == "disconnect":
            return dict(op="disconnect", n=n, s=s)
        if k == "dial":
            b = r.choice([x for x in range(len(self.ns)) if x != n])
            if r.random() < 0.2 and any(a["n"] == n for a in self.addrs):
                return dict(r.choice([a for a in self.addrs if a["n"] == n]))
            kw = {}
            if self.ns[b]["key"] >= 0 and self.ns[n]["key"] >= 0 and r.random() < 0.3:
                kw["peer"] = self.ns[b]["key"] if r.random() < 0.6 else r.randrange(5)
            if r.random() < 0.1:
                kw["port"] = 2000
            self.dial(n, b, **kw)
            return None
        if k == "listen":
            if r.random() < 0.5:
                self.port[n] += 1
            return dict(self.kind, op="listen", n=n, port=r.randint(1000, self.port[n]), v=r.choice([1, 1, 1, 2]))
        if k == "notify":
            self.tok += 1
            return dict(op="notify", n=n, s=r.choice([0, 0, s]), p=self.pid(n), tok=r.choice([self.tok, r.randint(1, max(1, self.tok))]), ms=r.choice([300, 500, 700, 1100]))
        if k == "unnotify":
            return dict(op="unnotify", n=n, s=r.choice([0, 0, s]), p=self.pid(n), tok=r.randint(1, max(1, self.tok)))
        if k == "task":
            return dict(op="task", n=n, kind=r.choice(["done", "done", "sleep", "forever", "panic"]), k=r.randint(0, 5), ms=r.choice([1, 100, 3000]))
        if k == "cut":
            return dict(op="cut", c=-r.randint(1, 3))
        if k == "run":
            return dict(op="run", k=r.choice([1, 2, 5, 10, 30]))
        if k == "sleep":
            return dict(op="sleep", ms=r.choice([1, 10, 400, 1000]))
        if k in ("close", "shutdown"):
            return dict(op=k, n=n)
        raise ValueError(k)

    def reaction(self, do, on=None, h=None, n=None):
        """Something done from inside a callback."""
        r = self.r
        n = r.randrange(len(self.ns)) if n is None else n
        p = r.choice(self.ns[n]["protos"])
        hs = [x for x in ("svc", "ses") if p.get(x) in ("cb", "both")] + (["ev"] if "both" in (p.get("svc"), p.get("ses")) or "ev" in (p.get("svc"), p.get("ses")) else []) + (["spn"] if p.get("spn") else [])
        h = h or r.choice(hs + ["hdl"])
        if h == "hdl":
            self.react.append({"n": n, "h": h, "p": 0, "on": on or r.choice(["open", "close", "dial", "lstart"]), "nth": r.choice([0, 0, 1, 2]), "do": do(n)})
        else:
            self.react.append({"n": n, "h": h, "p": p["id"], "on": on or r.choice(["conn", "recv", "disc"]), "nth": r.choice([0, 0, 1, 2]), "do": do(n)})

    def done(self, **kw):
        return self.g.prog(self.ns, self.ops, self.react, **kw)


BASE = {"send": 6, "big": 0.5, "empty": 0.3, "sendmany": 2, "openp": 2, "closep": 2, "disconnect": 1.2, "dial": 2, "notify": 0.6, "unnotify": 0.4,
        "task": 0.6, "cut": 0.6, "run": 5, "sleep": 0.6, "listen": 0.3}


def mixed(g, weights=None, n=None, phases=None, closing=0.4, react=0.3, calm=0.5, **kw):
    r = g.r
    w = dict(BASE)
    w.update(weights or {})
    ns = nodes(r, n or r.choice([2, 2, 3]), **kw)
    sc = Scene(g, ns)
    sc.start()
    for _ in range(r.choice([1, 1, 2])):
        a = r.randrange(len(ns))
        b = r.choice([x for x in range(len(ns)) if x != a])
        sc.dial(a, b)
    sc.settle()
    while r.random() < react:
        sc.reaction(lambda m: [sc.one(r.choice(["send", "send", "closep", "openp", "disconnect", "sendmany", "task", "notify"]), m, -1)])
    for _ in range(phases or r.randint(2, 5)):
        for _ in range(1 if r.random() < calm else r.randint(2, 8)):
            sc.random_op(w)
        sc.settle()
    if r.random() < closing:
        for _ in range(r.randint(1, 3)):
            sc.ops.append(sc.one(r.choice(["close", "shutdown"]), r.randrange(len(ns))))
            if r.random() < 0.5:
                sc.random_op(w)
        sc.settle()
        sc.random_op(w)
        sc.settle()
    return sc.done()


def pair(g, n=2, dial=None, **kw):
    """Nodes that listen, with a session between the first two."""
    sc = Scene(g, nodes(g.r, n, **kw))
    sc.start()
    sc.dial(0, 1, **(dial or {}))
    sc.settle()
    return sc


def ends(g):
    """Sessions that end for several reasons at nearly the same moment."""
    r = g.r
    sc = Scene(g, nodes(r, r.choice([2, 2, 3])))
    sc.start()
    for _ in range(r.choice([1, 2, 3])):
        a = r.randrange(len(sc.ns))
        sc.dial(a, r.choice([x for x in range(len(sc.ns)) if x != a]))
        if r.random() < 0.5:
            sc.op(op="run", k=r.randint(1, 60))
    if r.random() < 0.7:
        sc.settle()
    if r.random() < 0.3:
        sc.reaction(lambda m: [sc.one(r.choice(["disconnect", "send", "closep"]), m, -1)])
    for _ in range(r.randint(1, 3)):
        for _ in range(r.randint(1, 4)):
            n = r.randrange(len(sc.ns))
            sc.ops.append(sc.one(r.choice(["disconnect", "disconnect", "cut", "send", "big", "closep", "shutdown" if r.random() < 0.2 else "send"]), n))
            if r.random() < 0.5:
                sc.op(op="run", k=r.randint(1, 20))
        sc.settle()
    return sc.done()


def brackets(g):
    """Protocols opened and closed from both sides, with messages that cannot be sent or read."""
    r = g.r
    sc = Scene(g, nodes(r, 2, compat=1))
    for c in sc.ns:
        for p in c["protos"]:
            if r.random() < 0.3:
                p["fail"] = 1
            if r.random() < 0.2:
                p["frame"] = 1000
    sc.start()
    sc.dial(0, 1)
    sc.settle()
    if r.random() < 0.4:
        sc.reaction(lambda m: [sc.one(r.choice(["closep", "openp", "send"]), m, -1)])
    for _ in range(r.randint(2, 6)):
        for _ in range(r.randint(1, 4)):
            n = r.randrange(2)
            k = r.choice(["openp", "closep", "send", "send", "bad", "run", "big" if r.random() < 0.3 else "send"])
            o = sc.one("send" if k == "bad" else k, n)
            if k == "bad":
                o["size"] = r.choice([13, 13, 3000])
            sc.ops.append(o)
        sc.settle()
    if r.random() < 0.3:
        sc.ops.append(sc.one(r.choice(["disconnect", "cut", "shutdown"]), 0))
        sc.settle()
    return sc.done()


def stream(g):
    """Many messages of all sizes under little room."""
    r = g.r
    ns = nodes(r, r.choice([2, 2, 3]), compat=1, window=r.choice([256 * 1024, 256 * 1024, 300000]), **({"bias": "spn"} if r.random() < 0.25 else {}))
    sc = Scene(g, ns)
    sc.start()
    sc.dial(0, 1)
    if len(ns) > 2:
        sc.dial(2, 1)
    sc.settle()
    # every sender has something to say when a message arrives
    if r.random() < 0.3:
        sc.reaction(lambda m: [sc.one("send", m, -1)], on="recv")
    quick = r.choice([None, None, None, 1])
    for _ in range(r.randint(1, 3)):
        stalled = r.random() < 0.4
        if stalled:
            sc.op(op="stall", c=-r.randint(1, 2), dir=r.choice([0, 1, 2]), on=1)
        for _ in range(r.randint(3, 12)):
            n = r.randrange(len(ns))
            k = r.choice(["send", "send", "send", "big", "empty", "sendmany", "run"])
            o = sc.one(k, n)
            if o["op"] == "send" and quick:
                o["quick"] = quick
            if o["op"] == "send" and r.random() < 0.3:
                o["count"] = r.choice([10, 40, 150]) if o["size"] < 5000 else 4
            sc.ops.append(o)
        if stalled:
            if r.random() < 0.5:
                sc.settle(ms=500)
            sc.op(op="stall", c=-1, dir=2, on=0)
            sc.op(op="stall", c=-2, dir=2, on=0)
        sc.settle(ms=5000)
    return sc.done(cap=r.choice([65536, 4096, 300]))


def greetings(g):
    """Messages right behind the opening of their protocol, arriving together with it."""
    r = g.r
    ns = nodes(r, 2, names=["p1", "p2"][:r.choice([1, 2])], compat=1)
    sc = Scene(g, ns)
    sc.start()
    sc.dial(0, 1, protos="all")
    if r.random() < 0.5:
        sc.settle()
    for n in (0, 1):
        for p in ns[n]["protos"]:
            for h in [x for x in ("svc", "ses") if p.get(x) in ("cb", "both")] + (["spn"] if p.get("spn") else []):
                if r.random() < 0.7:
                    sc.react += [{"n": n, "h": h, "p": p["id"], "on": "conn", "nth": k, "do": [dict(sc.one("send", n, -1), p=p["id"], count=r.choice([1, 1, 3]))]} for k in range(3)]
    sc.settle()
    for _ in range(r.randint(1, 3)):
        m = r.randrange(2)
        p = sc.pid(m)
        if r.random() < 0.7:
            sc.op(op="closep", n=r.randrange(2), s=1, p=p)
            sc.settle()
        back = r.random() < 0.7
        if back:
            sc.op(op="stall", c=0, dir=1 - m, on=1)
        sc.op(op="openp", n=m, s=1, protos=[p])
        if back:
            sc.settle(ms=r.choice([100, 500]))
            sc.op(op="stall", c=0, dir=2, on=0)
        sc.settle()
    return sc.done(naps=r.choice([0, 0, 10]), **({"chunk": 0} if r.random() < 0.6 else {}))


def congestion(g):
    """More messages than the queues on the way hold, while some protocols are not read."""
    r = g.r
    ns = nodes(r, 2, names=["p1", "p2", "p3"][:r.choice([2, 2, 3])], compat=1)
    for c in ns:
        for p in c["protos"]:
            if r.random() < 0.7:
                for h in ("svc", "ses"):
                    p.pop(h, None)
                p["spn"] = 1
        if r.random() < 0.3:
            c["sendbuf"] = r.choice([20000, 300000])
    sc = Scene(g, ns)
    sc.start()
    sc.dial(0, 1, protos="all")
    sc.settle()
    quick = r.choice([None, None, 1])
    for _ in range(r.randint(1, 2)):
        m = r.randrange(2)
        held = [p["id"] for p in ns[1 - m]["protos"] if p.get("spn") and r.random() < 0.7]
        names = {p["id"]: p["name"] for p in ns[1 - m]["protos"]}
        for p in held:
            sc.op(op="hold", n=1 - m, s=1, p=p, on=1)
        stalled = r.random() < 0.2
        if stalled:
            sc.op(op="stall", c=-1, dir=r.choice([0, 1, 2]), on=1)
        ps = [p["id"] for p in ns[m]["protos"]]
        # those that are not read fill up the window first
        for p in ns[m]["protos"]:
            if p["name"] in [names[h] for h in held] and r.random() < 0.8:
                sc.op(op="send", n=m, s=1, p=p["id"], size=r.choice([100000, 300000]), count=r.choice([1, 3]), quick=quick or 0)
                sc.op(op="run", k=r.choice([0, 5, 40]))
        for _ in range(r.randint(1, 4)):
            q = r.choice([0, 0, 1])
            sc.op(op="send", n=m, s=1, p=r.choice(ps), size=r.choice([9, 20, 20, 100]), quick=quick if quick is not None else q, count=r.choice([40, 300, 560, 700]))
            sc.op(op="run", k=r.choice([0, 1, 3, 10, 30, 100]))
        # now and then all at once
        if r.random() < 0.5:
            for p in r.sample(ps, len(ps)):
                sc.op(op="send", n=m, s=1, p=p, size=20, quick=0, count=650)
                sc.op(op="run", k=40)
        if r.random() < 0.3:
            sc.settle(ms=5000)
        if r.random() < 0.2:
            sc.ops.append(dict(op=r.choice(["disconnect", "closep"]), n=r.randrange(2), s=1, p=r.choice(ps)))
        if r.random() < 0.5:
            sc.settle(ms=5000)
        if stalled:
            sc.op(op="stall", c=-1, dir=2, on=0)
        r.shuffle(held)
        for p in held:
            sc.op(op="hold", n=1 - m, s=1, p=p, on=0)
            if r.random() < 0.6:
                sc.settle(ms=5000)
        sc.settle(ms=5000)
    return sc.done(cap=r.choice([65536, 4096]), naps=r.choice([0, 0, 5, 30]))


def jam(g):
    """Every protocol is full before one after the other is read again."""
    r = g.r
    ns = nodes(r, 2, names=["p1", "p2", "p3"][:r.choice([2, 2, 2, 3])], compat=1, bias="spn")
    sc = Scene(g, ns)
    sc.start()
    sc.dial(0, 1, protos="all")
    sc.settle()
    m = r.randrange(2)
    ps = [p["id"] for p in ns[1 - m]["protos"]]
    for p in ps:
        sc.op(op="hold", n=1 - m, s=1, p=p, on=1)
    for p in [p["id"] for p in ns[m]["protos"]]:
        sc.op(op="send", n=m, s=1, p=p, size=300000, count=2, quick=0)
        sc.op(op="run", k=50)
        sc.op(op="send", n=m, s=1, p=p, size=20, count=r.choice([620, 700]), quick=0)
        sc.op(op="run", k=r.choice([1, 40]))
    sc.settle()
    r.shuffle(ps)
    for p in ps:
        sc.op(op="hold", n=1 - m, s=1, p=p, on=0)
        sc.settle(ms=5000)
    return sc.done(cap=r.choice([65536, 4096]))


def targets(g):
    """Several sessions per node, with different protocols open."""
    r = g.r
    n = r.choice([3, 3, 4])
    ns = nodes(r, n, names=["p1", "p2"], compat=0.95)
    for c in ns:
        for p in c["protos"]:
            p["bs"], p["br"] = int(r.random() < 0.3), int(r.random() < 0.3)
    sc = Scene(g, ns)
    sc.start()
    for a in range(n):
        for b in range(a + 1, n):
            if r.random() < 0.75:
                x, y = (a, b) if r.random() < 0.5 else (b, a)
                sc.dial(x, y)
    sc.settle()
    for _ in range(r.randint(2, 4)):
        for _ in range(r.randint(1, 5)):
            m = r.randrange(n)
            k = r.choice(["sendmany"] * 5 + ["send", "openp", "closep", "run", "disconnect" if r.random() < 0.4 else "sendmany"])
            o = sc.one(k, m)
            if k == "sendmany" and o["ss"] != "all" and r.random() < 0.2:
                o["ss"] = o["ss"] + [777]
            sc.ops.append(o)
        sc.settle()
    return sc.done()


def overrun(g):
    """Messages for several sessions while one of them has a backlog."""
    r = g.r
    ns = nodes(r, 3, keys=r.choice([None, [0, 1, 2]]), names=["p1", "p2"][:r.choice([1, 1, 2])], compat=1, bias="spn")
    for c in ns:
        for p in c["protos"]:
            p.pop("select", None)
    sc = Scene(g, ns)
    sc.start()
    for b in (1, 2):
        sc.dial(0, b, protos="all")
        sc.settle()
    ps = [p["id"] for p in ns[0]["protos"]]
    s = r.choice([1, 2])
    held = [p["id"] for p in ns[s]["protos"]]
    for p in held:
        sc.op(op="hold", n=s, s=1, p=p, on=1)
    for p in ps:
        sc.op(op="send", n=0, s=s, p=p, size=300000, count=2, quick=0)
        sc.op(op="run", k=50)
        sc.op(op="send", n=0, s=s, p=p, size=20, count=r.choice([620, 700, 1300]), quick=0)
        if r.random() < 0.4:
            sc.op(op="run", k=r.choice([1, 40, 200]))
    for _ in range(r.randint(2, 5)):
        sc.op(op="send", n=0, ss=r.choice(["all", "all", [1, 2], [2, 1]]), p=r.choice(ps), size=r.choice([9, 20, 3000]), quick=int(r.random() < 0.3))
        if r.random() < 0.4:
            sc.op(op="run", k=r.choice([1, 20, 100]))
    if r.random() < 0.5:
        sc.settle()
    for p in held:
        sc.op(op="hold", n=s, s=1, p=p, on=0)
    sc.settle(ms=5000)
    return sc.done(cap=r.choice([65536, 4096]), eager=r.choice([0, 1, 1]))


def identities(g):
    """Dials that cross, nodes that share an identity, expected peers."""
    r = g.r
    n = r.choice([2, 3, 3, 4])
    keys = list(range(n))
    if r.random() < 0.3 and n > 2:
        keys[n - 1] = keys[r.randrange(n - 1)]
    if r.random() < 0.1:
        keys[r.randrange(n)] = -1
    ns = nodes(r, n, keys=keys, compat=1)
    sc = Scene(g, ns)
    sc.start()
    for _ in range(r.randint(1, 3)):
        for _ in range(r.randint(1, 5)):
            a = r.randrange(n)
            b = r.choice([x for x in range(n) if x != a])
            kw = {}
            if r.random() < 0.4:
                kw["peer"] = keys[b] if r.random() < 0.5 and keys[b] >= 0 else r.randrange(5)
            sc.dial(a, b, **kw)
            if r.random() < 0.5:
                sc.op(op="run", k=r.randint(1, 80))
        if r.random() < 0.3:
            sc.ops.append(sc.one(r.choice(["disconnect", "cut"]), r.randrange(n)))
        sc.settle()
    return sc.done()


def outcomes(g):
    """Dials and listens that fail in every way, and their retries."""
    r = g.r
    n = r.choice([2, 2, 3])
    ns = nodes(r, n, timeout=r.choice([20000, 3000]), keys=r.choice([None, None, list(range(n)), [0] * n]))
    if r.random() < 0.15:
        ns[1]["key"] = -1
    if r.random() < 0.25:
        ns[r.randrange(n)]["max"] = r.choice([0, 1, 1, 2])
    sc = Scene(g, ns)
    for m in range(n):
        if r.random() < 0.25:
            ns[m]["pre"] = [dict(op="listen", port=sc.port[m])] + ([dict(op="dial", to=(m + 1) % n, port=1000, v=99)] if r.random() < 0.3 else [])
        elif r.random() < 0.9:
            sc.listen(m)
    sc.settle()
    past = []
    for _ in range(r.randint(2, 5)):
        for _ in range(r.randint(1, 4)):
            m = r.randrange(n)
            k = r.choice(["dial", "dial", "again", "again", "odd", "listen", "dark", "acceptfail", "cut", "disconnect", "run", "run", "stall"])
            if k == "dial":
                kw = {}
                b = r.choice([x for x in range(n + 1) if x != m])
                if r.random() < 0.2:
                    kw["port"] = 2000
                if r.random() < 0.3:
                    kw["peer"] = r.randrange(4)
                past.append(sc.dial(m, b, **kw))
            elif k == "again" and past:
                d = dict(r.choice(past))
                sc.ops.append(d)
                sc.maxs[d["n"]] += 1
            elif k == "odd":
                past.append(sc.dial(m, (m + 1) % n, kind=r.choice(["udp", "wss", "bare", "tls", "dns", "dns"])))
            elif k == "listen":
                o = sc.one("listen", m)
                if r.random() < 0.2:
                    o["kind"] = r.choice(["udp", "wss", "bare", "tls"])
                sc.ops.append(o)
                if r.random() < 0.4:
                    sc.ops.append(dict(o))
            elif k == "dark":
                sc.op(op="dark", n=m, on=r.choice([1, 0, 0]))
            elif k == "acceptfail":
                sc.op(op="acceptfail", n=m, port=sc.port[m])
            elif k == "stall":
                sc.op(op="stall", c=-1, dir=r.choice([0, 1, 2]), on=r.choice([1, 0]))
            elif k in ("cut", "disconnect", "run"):
                sc.ops.append(sc.one(k, m))
        sc.settle(ms=r.choice([2000, 2000, 9000, 50000]))
    return sc.done()


def versions(g):
    """All kinds of protocol and version lists."""
    r = g.r
    n = r.choice([2, 2, 3])
    names = ["p%d" % i for i in range(1, 1 + r.choice([1, 2, 3, 4]))]
    sc = Scene(g, nodes(r, n, names=names, compat=r.choice([0, 0.4, 0.7])))
    vs = [sorted(r.sample(["1", "2", "3", "4", "10", "1.0"], r.randint(1, 4))) for _ in range(4)]
    for c in sc.ns:
        for p in c["protos"]:
            if r.random() < 0.8:
                p["versions"] = r.choice(vs)
            if r.random() < 0.25:
                p["select"] = r.choice(["low", "low", "none"])
            else:
                p.pop("select", None)
    sc.start()
    sc.dial(0, 1)
    if n > 2:
        sc.dial(2, r.choice([0, 1]))
    sc.settle()
    for _ in range(r.randint(1, 4)):
        for _ in range(r.randint(1, 3)):
            sc.ops.append(sc.one(r.choice(["openp", "openp", "send", "closep"]), r.randrange(n)))
        sc.settle()
    return sc.done()


def lawless(g):
    """A peer of its own kind asks for whatever and answers whatever."""
    r = g.r
    n = r.choice([1, 1, 2])
    names = ["p%d" % i for i in range(1, 1 + r.choice([1, 2, 3]))]
    sc = Scene(g, nodes(r, n, keys=[-1] * n, names=names, compat=r.choice([0.4, 0.7]), timeout=r.choice([20000, 20000, 3000])))
    sc.kind = {}
    pool = ["1", "2", "3", "4", "10", "1.0", ""]
    sc.start()
    raw = lambda: [r.randrange(256) for _ in range(r.choice([0, 1, 4, 8, 30]))]
    for _ in range(r.choice([1, 1, 2])):
        asks = []
        for _ in range(r.choice([0, 1, 1, 2, 4])):
            known = r.choice(sc.ns[0]["protos"])
            if r.random() < 0.1:
                asks.append({"raw": raw()})
            else:
                vs = known["versions"] if r.random() < 0.4 else sorted(r.sample(pool, r.randint(0, 4)))
                asks.append({"name": known["name"] if r.random() < 0.8 else r.choice(["zz", "p1", "p"]), "versions": vs})
        answers = {}
        for x in names:
            k = r.choice(["honest", "as", "as", "as", "raw", "silent", "end"])
            answers[x] = {"kind": k, "name": x if r.random() < 0.7 else r.choice(names + ["zz"]), "raw": raw(),
                          "versions": sorted(r.sample(pool, r.choice([0, 1, 1, 1, 2])))}
        sc.op(op="forge", to=0, port=1000, asks=asks, answers=answers)
        sc.maxs[0] += 1
        if r.random() < 0.7:
            sc.settle()
    sc.settle()
    if n > 1:
        sc.dial(0, 1)
        sc.settle()
    for _ in range(r.randint(1, 3)):
        for _ in range(r.randint(1, 3)):
            sc.ops.append(sc.one(r.choice(["openp", "openp", "openp", "send", "closep", "disconnect"]), 0))
        sc.settle()
    if r.random() < 0.5:
        sc.settle(ms=r.choice([6000, 25000]))
    return sc.done()


def limits(g):
    """Connections come and go around a small limit."""
    r = g.r
    n = r.choice([3, 4, 5])
    ns = nodes(r, n, names=["p1"], compat=1)
    for c in ns:
        if r.random() < 0.5:
            c["max"] = r.choice([1, 1, 2, 2, 3])
    ns[0]["max"] = r.choice([1, 1, 2, 3])
    sc = Scene(g, ns)
    sc.start()
    for _ in range(r.randint(2, 5)):
        for _ in range(r.randint(1, 4)):
            a = r.randrange(n)
            b = r.choice([x for x in range(n) if x != a])
            if r.random() < 0.5:
                a = 0 if b else a
            elif a:
                b = 0
            k = r.choice(["dial", "dial", "dial", "disconnect", "cut", "run", "send"])
            if k == "dial":
                sc.dial(a, b)
            else:
                sc.ops.append(sc.one(k, a))
        sc.settle()
    return sc.done()


def stops(g):
    """A shutdown at every point of the life of a service."""
    r = g.r
    n = r.choice([2, 2, 2, 3, 3, 6])
    ns = nodes(r, n, timeout=r.choice([20000, 3000]))
    sc = Scene(g, ns)
    if n > 3:       # one with many sessions
        sc.start()
        for m in range(1, n):
            sc.dial(*r.choice([(0, m), (m, 0)]))
        sc.op(op="run", k=r.choice([100, 400]))
    elif r.random() < 0.4:
        for m in range(n):
            if r.random() < 0.6:
                ns[m]["pre"] = [dict(op="listen", port=1000)] if r.random() < 0.8 else []
                if r.random() < 0.3 and m:
                    ns[m]["pre"].append(dict(op="dial", to=0, v=90 + m, port=1000))
                if r.random() < 0.4:
                    ns[m]["forever"] = 0
            else:
                sc.listen(m)
        sc.op(op="run", k=r.randint(1, 30))
    else:
        sc.start()
    if r.random() < 0.7:
        sc.dial(0, 1)
        if r.random() < 0.7:
            sc.settle()
    w = dict(BASE, dial=3, listen=1.5, task=2, notify=1, cut=1)
    for _ in range(r.randint(0, 4)):
        sc.random_op(w)
    m = r.randrange(n) if n < 4 else 0
    if r.random() < 0.2:
        sc.reaction(lambda q: [dict(op=r.choice(["close", "shutdown"]))])
    sc.op(op="run", k=r.randint(0, 80))
    sc.op(op=r.choice(["close", "shutdown"]), n=m)
    for _ in range(r.randint(0, 3)):
        sc.op(op="run", k=r.randint(0, 20))
        sc.random_op(w)
        if r.random() < 0.2:
            sc.op(op=r.choice(["close", "shutdown"]), n=r.randrange(n))
    sc.settle(ms=r.choice([2000, 70000]))
    for _ in range(r.randint(0, 3)):
        sc.random_op(w)
    sc.settle()
    return sc.done()


def dwindle(g):
    """Services that run as long as there is something to do."""
    r = g.r
    n = r.choice([2, 3, 3])
    ns = nodes(r, n, timeout=r.choice([20000, 3000, 3000]), keys=r.choice([None, list(range(n)), [0] * n]))
    sc = Scene(g, ns)
    ns[0]["pre"] = [dict(op="listen", port=1000)]
    if r.random() < 0.3:
        ns[0]["max"] = r.choice([1, 2])
    for m in range(1, n):
        ns[m]["pre"] = [dict(op="listen", port=1000)] if r.random() < 0.4 else []
        if r.random() < 0.9 or not ns[m]["pre"]:
            kw = {"peer": r.randrange(3)} if r.random() < 0.2 else {}
            ns[m]["pre"].append(dict(op="dial", to=0, v=90 + m, port=1000, **kw))
            sc.maxs[m] += 1
            sc.maxs[0] += 1
        if r.random() < 0.8:
            ns[m]["forever"] = 0
    sc.op(op="run", k=r.randint(1, 60))
    if r.random() < 0.6:
        sc.settle()
    w = dict(BASE, dial=4, listen=1.5, task=1, notify=0.5, cut=2, disconnect=4)
    for _ in range(r.randint(1, 4)):
        for _ in range(r.randint(1, 4)):
            if r.random() < 0.15:
                sc.op(op="acceptfail", n=r.randrange(n), port=1000)
            elif r.random() < 0.15:
                sc.dial(r.randrange(n), n, port=r.choice([1000, 2000]))
            else:
                sc.random_op(w)
        sc.settle(ms=r.choice([2000, 2000, 9000, 50000]))
    return sc.done()


def accounting(g):
    """Data that cannot leave at once: stalled links, small buffers, closes in between."""
    r = g.r
    n = r.choice([2, 3])
    ns = nodes(r, n, compat=1)
    for c in ns:
        if r.random() < 0.6:
            c["sendbuf"] = r.choice([30000, 200000, 1000000])
    sc = Scene(g, ns)
    sc.start()
    sc.dial(0, 1)
    if n > 2:
        sc.dial(0, 2)
    sc.settle()
    for _ in range(r.randint(1, 4)):
        st = r.random() < 0.6
        if st:
            sc.op(op="stall", c=-r.randint(1, n - 1), dir=r.choice([0, 1, 2]), on=1)
        for _ in range(r.randint(1, 6)):
            m = r.choice([0, 0, 1])
            k = r.choice(["send", "big", "big", "sendmany", "closep", "openp", "run", "run", "sleep", "disconnect" if r.random() < 0.2 else "send"])
            sc.ops.append(sc.one(k, m))
        if st and r.random() < 0.7:
            sc.settle(ms=500)
        if r.random() < 0.7:
            for c in range(1, n):
                sc.op(op="stall", c=-c, dir=2, on=0)
        sc.settle(ms=5000)
    return sc.done(cap=r.choice([65536, 4096]))


def timers(g):
    r = g.r
    n = r.choice([2, 2, 3])
    sc = Scene(g, nodes(r, n, compat=1, bias=r.choice([None, "svc", "ses", "both", "all"])))
    sc.start()
    sc.dial(0, 1)
    if n == 3:
        sc.dial(*r.choice([(0, 2), (2, 0), (2, 1)]))
    if r.random() < 0.8:
        sc.settle()
    if r.random() < 0.3:
        sc.reaction(lambda m: [sc.one(r.choice(["notify", "unnotify"]), m, -1)], on=r.choice(["conn", "recv", "disc"]))
    for _ in range(r.randint(2, 6)):
        for _ in range(r.randint(1, 4)):
            k = r.choice(["notify"] * 4 + ["unnotify"] * 3 + ["send", "sleep", "closep", "openp", "disconnect" if r.random() < 0.3 else "sleep"])
            o = sc.one(k, r.randrange(n))
            if k in ("notify", "unnotify"):
                o["tok"] = r.choice([0, 1, 1, 2, 3, 7])
            sc.ops.append(o)
        sc.settle(ms=r.choice([50, 2000, 3000]))
    if r.random() < 0.2:
        sc.op(op="shutdown", n=0)
        sc.settle()
    return sc.done()


UPGRADE = b"GET / HTTP/1.1\r\nHost: x\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n"


def stalls(g):
    """Peers that stop talking at every point of the set-up; sessions without protocols."""
    r = g.r
    n = r.choice([2, 3])
    ns = nodes(r, n, timeout=r.choice([1000, 3000, 5000]), compat=r.choice([1, 1, 0.3]), keepalive=0)
    sc = Scene(g, ns)
    sc.kind = {}
    if r.random() < 0.5:
        for m in range(n):
            sc.listen(m, port=1001, kind="ws")
    sc.start()
    way = lambda: {"port": 1001, "kind": "ws"} if len(sc.ops) > 0 and sc.ops[0]["port"] == 1001 and r.random() < 0.6 else {}
    for _ in range(r.randint(1, 3)):
        for _ in range(r.randint(1, 3)):
            k = r.choice(["dial", "dial", "none", "raw", "raw", "upgrade", "stall", "stall", "dark", "noaddr", "closed"])
            a = r.randrange(n)
            b = r.choice([x for x in range(n) if x != a])
            if k == "dial":
                sc.dial(a, b, **way())
                sc.op(op="run", k=r.randint(0, 60))
                if r.random() < 0.4:
                    sc.op(op="stall", c=-1, dir=r.choice([0, 1, 2]), on=1)
            elif k == "none":
                sc.dial(a, b, protos=[], **way())
            elif k == "raw":
                data = r.choice([[], [0], [0, 0, 0, 5, 1, 2], [0xff] * 40, [0, 0, 0, 2, 9, 9] * 3, [r.randrange(256) for _ in range(r.randint(1, 80))]])
                sc.op(op="raw", to=b, port=way().get("port", 1000), data=data, hold=int(r.random() < 0.7))
            elif k == "upgrade":
                sc.op(op="raw", to=b, port=way().get("port", 1000), data=list(UPGRADE)[:r.choice([None, None, 50])])
                if r.random() < 0.7:
                    if r.random() < 0.5:
                        sc.settle()
                    # pings, pongs, texts, data without data, then the end
                    sc.op(op="rawsend", data=[x for _ in range(r.randint(0, 3)) for x in [r.choice([0x89, 0x8a, 0x81, 0x82]), 0x80, 0, 0, 0, 0]] + [0x88, 0x80, 0, 0, 0, 0])
            elif k == "stall":
                sc.op(op="stall", c=-r.randint(1, 2), dir=r.choice([0, 1, 2]), on=r.choice([1, 0]))
            elif k == "dark":
                sc.op(op="dark", n=b, on=r.choice([1, 0]))
            elif k == "closed":
                # protocols that were open and are not any more when time is up
                p = r.choice(ns[a]["protos"])["id"]
                sc.dial(a, b, protos=[p], **way())
                sc.settle(ms=100)
                sc.op(op="closep", n=a, s=sc.maxs[a], p=p)
                if r.random() < 0.3:
                    sc.settle(ms=100)
                    sc.op(op="openp", n=a, s=sc.maxs[a])
            elif k == "noaddr":
                sc.op(op="noaddr")
                sc.dial(a, b, **way())
        if r.random() < 0.6:
            sc.ops.append(sc.one(r.choice(["send", "openp", "closep", "disconnect"]), r.randrange(n)))
        sc.settle(ms=r.choice([500, 2000, 7000, 20000]))
    return sc.done()


def panics(g):
    """A handler fails in some callback."""
    r = g.r
    n = r.choice([2, 2, 3])
    sc = Scene(g, nodes(r, n, compat=1, bias=r.choice(["svc", "ses", "both", "all", None])))
    boom = lambda m: [dict(op="panic")]
    for _ in range(r.choice([1, 1, 1, 2])):
        m = r.randrange(n)
        p = r.choice(sc.ns[m]["protos"])
        hs = [x for x in ("svc", "ses") if p.get(x) in ("cb", "both")]
        if not hs:
            continue
        if r.random() < 0.25:
            p["poll"] = "".join(r.choice("SPPP") for _ in range(r.randint(0, 12))) + "X"
            continue
        sc.react.append({"n": m, "h": r.choice(hs), "p": p["id"], "on": r.choice(["conn", "recv", "recv", "disc", "disc", "tick"]), "nth": r.choice([0, 0, 1, 2]), "do": boom(m)})
    sc.start()
    sc.dial(0, 1)
    if n > 2:
        sc.dial(2, r.choice([0, 1]))
    if r.random() < 0.8:
        sc.settle()
    w = dict(BASE, notify=2, closep=3, openp=3, disconnect=2)
    for _ in range(r.randint(1, 5)):
        for _ in range(r.randint(1, 4)):
            sc.random_op(w)
        sc.settle()
    return sc.done()


def chores(g):
    """Tasks, with a shutdown at some point."""
    r = g.r
    n = r.choice([1, 1, 2])
    sc = Scene(g, nodes(r, n))
    for m in range(n):
        sc.listen(m)
    if r.random() < 0.6:
        sc.settle()
    for _ in range(r.randint(1, 4)):
        for _ in range(r.randint(1, 10)):
            sc.ops.append(sc.one(r.choice(["task"] * 5 + ["run", "sleep"]), r.randrange(n)))
        if r.random() < 0.6:
            sc.settle(ms=r.choice([10, 2000, 5000]))
    if r.random() < 0.6:
        sc.op(op=r.choice(["close", "shutdown"]), n=r.randrange(n))
        for _ in range(r.randint(0, 3)):
            sc.ops.append(sc.one(r.choice(["task", "run"]), r.randrange(n)))
    sc.settle(ms=6000)
    return sc.done()


# generators of each property and their shares; the long ones are rare
def places(g):
    """Listeners that come and go while handlers look where the service listens."""
    r = g.r
    n = r.choice([2, 2, 3])
    ns = nodes(r, n, keys=r.choice([None, list(range(n))]))
    for m in range(n):
        for p in ns[m]["protos"]:
            if r.random() < 0.7:
                p.pop("spn", None)
                p["svc"], p["ses"] = r.choice([("cb", "cb"), ("cb", ""), ("", "cb"), ("both", "cb"), ("cb", "both")])
    sc = Scene(g, ns)
    for m in range(n):
        if r.random() < 0.3:
            ns[m]["pre"] = [dict(op="listen", port=1000 + k) for k in range(r.choice([1, 1, 2, 3]))]
            sc.port[m] = 999 + len(ns[m]["pre"])
        else:
            sc.listen(m)
    sc.settle()
    for m in range(n):
        if r.random() < 0.8:
            sc.dial(m, (m + 1) % n, port=1000)
        if r.random() < 0.5:
            sc.ops.append(sc.one("notify", m, 1))
    if r.random() < 0.7:
        sc.settle()
    w = {"send": 4, "sendmany": 2, "notify": 0.5, "listen": 0, "run": 3, "dial": 1.5, "disconnect": 0.7, "openp": 1, "closep": 1}
    for _ in range(r.randint(2, 6)):
        for _ in range(r.randint(1, 3)):
            m = r.randrange(n)
            k = r.choice(["fail", "listen", "swap", "run"])
            if k in ("fail", "swap"):
                sc.op(op="acceptfail", n=m, port=r.randint(1000, sc.port[m]))
                if r.random() < 0.5:
                    sc.op(op="run", k=r.choice([1, 2, 5, 30]))
            if k in ("listen", "swap"):
                sc.port[m] += r.choice([0, 1, 1])
                sc.op(op="listen", n=m, port=r.choice([sc.port[m], r.randint(1000, sc.port[m])]), **sc.kind)
            if k == "run":
                sc.random_op(w)
        if r.random() < 0.7:
            sc.settle(ms=r.choice([None, 700, 2000]))
        for _ in range(r.randint(1, 5)):
            sc.random_op(w)
        if r.random() < 0.5:
            sc.settle()
    if r.random() < 0.3:
        sc.op(op=r.choice(["close", "shutdown"]), n=r.randrange(n))
    sc.settle(ms=2000)
    return sc.done()


KINDS = {"T01": {ends: 1}, "T02": {brackets: 1}, "T03": {stream: 15, congestion: 1, jam: 1, greetings: 9}, "T04": {targets: 50, overrun: 1}, "T05": {identities: 1},
         "T06": {outcomes: 4, dwindle: 1}, "T07": {versions: 3, lawless: 2}, "T08": {limits: 4, dwindle: 1}, "T09": {stops: 3, dwindle: 1},
         "T10": {accounting: 40, congestion: 1}, "T11": {timers: 1}, "T12": {stalls: 6, lawless: 1}, "T13": {panics: 1}, "T14": {chores: 1}, "T15": {places: 5, outcomes: 1}}


def programs(prop, g, count):
    ks = KINDS[prop]
    return [g.r.choices(list(ks), list(ks.values()))[0](g) if g.r.random() < 0.8 else mixed(g) for _ in range(count)]


# closed models of the services, see spec/TentMC.tla
MODELS = {"T01": ["cross"], "T02": ["proto"], "T03": ["send"], "T04": ["send", "stop"], "T05": ["dial", "same"], "T06": ["dial", "cross"], "T07": ["select"],
          "T08": ["limit"], "T09": ["stop"], "T10": ["send"], "T11": ["timer"], "T12": ["late"], "T13": ["panic"], "T14": ["task"], "T15": ["place"]}
# with more requests or more nodes
DEEP = {"T01": ["cross3"], "T02": ["proto3"], "T03": ["send4"], "T04": ["send4"], "T05": ["dial3"], "T06": ["dial3"], "T07": ["select3"], "T08": ["limit3"],
        "T09": ["stop3"], "T10": ["send4"], "T11": ["timer4"], "T12": ["late4", "latep"], "T13": ["panic3"], "T14": ["task4"], "T15": ["place4"]}


def simulated(g, model, num, seed):
    """Programs made of what users and network do in behaviours of TentMC.tla."""
    text = open(os.path.join(core.SPEC, "Tent_%s.cfg" % model)).read()
    c = dict(re.findall(r"(\w+) = (\w+)", text))
    cfg = os.path.join(core.WORK, "TentSim-%s-%d.cfg" % (model, os.getpid()))
    with open(cfg, "w") as fh:
        text = text.replace("EMIT = FALSE", "EMIT = TRUE").replace("ALIAS Short\n", "").replace("VIEW View\n", "")
        fh.write(re.sub("LEFT = \\d+", "LEFT = 6", text).replace("NothingOwed", "NothingOwed Emit"))
    rc, out = core.tlc("TentMC", cfg, workers=1, args=["-simulate", "num=%d" % num, "-depth", "90", "-seed", str(seed)])
    os.unlink(cfg)
    progs = sorted(set(re.findall(r'<<"PROG", "(.*)">>', out)))
    if rc != 0 or not progs:
        raise core.ToolError("simulation of TentMC failed:\n" + out[-3000:])
    r = g.r
    res = []
    for m in progs:
        keys = {"2": [0, 1], "3": [0, 1, 2], "4": [0, 1, 0], "5": [-1, -1]}[c["KEYS"]]
        kinds = {"1": {"svc": "cb"}, "2": {"svc": "cb", "ses": "cb"}, "3": {"svc": "ev"}}[c["HANDLERS"]]
        ns = [{"key": k, "max": int(c["MAXC"]), "protos": [dict(kinds, id=1, name="p1", versions=["1", "2"]), dict(kinds, id=2, name="p2", versions=["1" if n == 0 else "2"])][:int(c["PROTOS"])]}
              for n, k in enumerate(keys)]
        sc = Scene(g, ns)
        sc.kind = {}
        sc.start()
        if c["JOINED"] == "TRUE":
            sc.op(op="dial", n=0, to=1, v=1, port=1000, protos="all")
            sc.settle()
        for o in json.loads(m.replace('\\"', '"')):
            if o["op"] == "dial":
                o.update(v=2 + o["peer"], port=1000, protos="all")        # an address for each identity
                if o["peer"] == -1:
                    del o["peer"]
            elif o["op"] == "run":
                o["k"] = r.choice([0, 1, 1, 2, 5])
            elif o["op"] == "raw":
                o.update(port=1000)
            elif o["op"] == "none":
                continue
            sc.ops.append(o)
        sc.settle(ms=r.choice([2000, 60000]))
        res.append(sc.done())
    return res


def run(prop, tier, seed):
    binary = core.build("tx", cfg_verif=True)
    g = Gen(seed, prop)
    cov = core.Coverage()
    quick = tier == "quick"
    ps = programs(prop, g, (420 if prop == "T03" else 1200) if quick else 5000)
    for m in MODELS[prop] + ([] if quick else DEEP[prop]):
        cov.model(core.model_check("TentMC", "Tent_%s.cfg" % m, timeout=800 if quick else 3600, mem="6g" if quick else "16g", partial=m in DEEP[prop]))
        ps += simulated(g, m, 40 if quick else 400, seed)
    crashes = []
    lines = core.run_harness(binary, "run", ps, prop, crashes=crashes)
    if prop == "T07":       # the other way to write negotiation messages
        qs = [versions(g) if g.r.random() < 0.9 else mixed(g) for _ in range(400 if quick else 2000)]
        lines += core.run_harness(core.build("txf", cfg_verif=True), "run", qs, prop + "f", crashes=crashes)
        ps += qs
    byid = {p["id"]: p for p in ps}
    rej, gs, ds = core.validate("TentTrace", "TentTrace.cfg", lines, timeout=6000)
    cov.traces(lines, gs, ds)
    viol = [core.trace_violation("TentTrace", "TentTrace.cfg", lines[i], byid) for i in rej[:5]]
    viol += [core.crash_violation(c) for c in crashes[:3]]
    return core.Result(cov, viol, len(rej) + len(crashes))
