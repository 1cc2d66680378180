"""Workloads and checks for the yamux properties Y01..Y10."""
import json, random, re
import core

BIG = 1 << 20


class Gen:
    def __init__(self, seed, name):
        self.r = random.Random("%s/%s" % (seed, name))
        self.name = name
        self.n = 0

    def env(self, **kw):
        """Transport and scheduling parameters."""
        r = self.r
        self.n += 1
        p = {"id": "%s-%d" % (self.name, self.n), "kind": "pair",
             "w": r.choice([1, 2, 3, 4, 5, 8, 13]),
             "cap": r.choice([1, 7, 13, 40, 64, BIG, BIG, BIG, BIG]),
             "rchunk": r.choice([0, 0, 1, 5, 13]), "wchunk": r.choice([0, 0, 0, 1, 5, 13]),
             "dchunk": r.choice([0, 0, 1, 9, 30]), "spurious": r.choice([0, 0, 0, 5]),
             "gap": r.choice([0, 2, 4, 12, 30]), "seed": r.randrange(1 << 30),
             "role0": r.choice(["client", "client", "server"]), "meddle": r.choice([0, 0, 2, 6])}
        p.update(kw)
        return p

    def ids(self, p, e, k):
        """k-th stream (from 0) opened by endpoint e."""
        client = (e == 0) == (p["role0"] == "client")
        return 2 * k + (1 if client else 2)


def pair(g, weights, streams=4, length=(10, 34), w=None, quiet=0.08, **kw):
    """A random program for two endpoints; weights: operation -> weight."""
    r = g.r
    p = g.env(**kw)
    if w:
        p["w"] = r.choice(w)
    ops, opened, ids = [], [0, 0], []
    names, ws = zip(*weights.items())
    for _ in range(r.randint(*length)):
        if not ids or (len(ids) < streams and r.random() < 0.15):
            e = r.randint(0, 1)
            ops.append(["open", e, r.choice(["direct", "direct", "ctl"])])
            ids.append(g.ids(p, e, opened[e]))
            opened[e] += 1
            if r.random() < 0.5:
                ops.append(["quiet"])
            continue
        if r.random() < quiet:
            ops.append(["quiet"])
            continue
        op = r.choices(names, ws)[0]
        s, e = r.choice(ids), r.randint(0, 1)
        W = p["w"]
        if op == "write":
            ops.append(["write", e, s, r.choice([1, W, W + 1, r.randint(1, 4 * W + 3)]), r.choice([0, 0, 1, 3])])
        elif op == "read":
            ops.append(["read", e, s, r.choice([1, W, 2 * W, r.randint(1, 2 * W)]), 1])
        elif op == "read1":
            ops.append(["read", e, s, r.randint(1, 2 * W), 0])
        elif op == "both":
            for x in (0, 1):
                ops.append(["read", x, s, r.choice([1, W, 2 * W]), 1])
        elif op == "cut":
            ops.append(["cut", e, r.choice(["eof", "err", "werr"])])
        elif op in ("close", "dropsess", "hold", "unhold"):
            ops.append([op, e])
        elif op == "open":
            ops.append(["open", e, r.choice(["direct", "ctl"])])
            ids.append(g.ids(p, e, opened[e]))
            opened[e] += 1
        elif op == "adv":
            ops.append(["adv", r.choice([1000, 5000, 10000, 12000])])
        else:
            ops.append([op, e, s])
    p["ops"] = ops
    return p


DATA = {"write": 10, "read": 8, "both": 3, "read1": 2, "stopread": 2}
CLOSE = {"write": 8, "read": 7, "both": 1, "read1": 1, "stopread": 1, "shut": 3, "drop": 3}


def drain(p, ids):
    """Append reads everywhere so that all that can flow does."""
    p["ops"] += [["unhold", 0], ["unhold", 1]]
    for s in ids:
        for e in (0, 1):
            p["ops"].append(["read", e, s, 64, 1])
    p["ops"].append(["quiet"])
    return p


UNIT = 1024


def wide(g, n, weights=DATA, raw=False):
    """Windows around and above 64 KiB, the default among them; sizes in units of UNIT bytes."""
    out = []
    r = g.r
    for _ in range(n):
        kw = dict(unit=UNIT, cap=r.choice([1 << 28, 1 << 28, 70000]), rchunk=r.choice([0, 0, 40000]),
                  wchunk=r.choice([0, 0, 50000]), dchunk=r.choice([0, 0, 90000]), spurious=0,
                  gap=r.choice([0, 4, 12, 30]))
        if raw:
            p = g.env(kind="raw", w=r.choice([64, 65, 128, 255, 256]), pong=True, raw_ga=True, **kw)
            W = p["w"]
            s = g.ids(p, 1, 0)
            ops = [["raw", {"t": "wu", "fl": 1, "s": s, "n": r.choice([0, W])}], ["quiet"]]
            for _ in range(r.randint(4, 12)):
                x = r.random()
                if x < .4:
                    ops.append(["raw", {"t": "data", "fl": 0, "s": s, "d": [r.randrange(256)] * r.choice([1, W // 2, W - 1, W])}])
                elif x < .55:
                    ops.append(["raw", {"t": "wu", "fl": 0, "s": s, "n": r.choice([1, 64, 65, W, 3 * W, 1000])}])
                elif x < .75:
                    ops.append(["read", 0, s, r.choice([1, W // 2, W]), r.choice([0, 1])])
                elif x < .9:
                    ops.append(["write", 0, s, r.choice([1, W, 2 * W, 5 * W]), r.choice([0, 0, 65])])
                else:
                    ops.append(["quiet"])
            p["ops"] = ops + [["read", 0, s, W, 1]]
            out.append(p)
        else:
            p = pair(g, weights, streams=2, length=(5, 14), w=[63, 64, 65, 128, 256, 257], **kw)
            for o in p["ops"]:
                if o[0] == "write":
                    o[4] = 0 if o[4] < 3 else 65
                if o[0] == "read":
                    o[3] = max(o[3], p["w"] // 3)
            out.append(drain(p, range(1, 5)))
    return out


def clog(g, n, weights=None):
    """A transport that takes nothing for a while, with more to transmit than the frame writer holds."""
    out = []
    r = g.r
    for _ in range(n):
        p = pair(g, weights or {"write": 12, "read": 4, "both": 2, "hold": 2, "unhold": 3}, streams=2, length=(6, 16), w=[16, 24, 64], unit=UNIT,
                 cap=r.choice([500, 3000, 9000, 20000]), rchunk=r.choice([0, 0, 4000]), wchunk=r.choice([0, 0, 700, 5000]),
                 dchunk=r.choice([0, 0, 3000]), spurious=0, gap=r.choice([0, 4, 12, 40]))
        for o in p["ops"]:
            if o[0] == "write":
                o[4] = r.choice([1, 2, 5, 9])
        p["ops"].insert(r.randint(1, 3), ["hold", r.randint(0, 1)])
        out.append(drain(p, range(1, 5)))
    return out


def crowd(g, n, limit=False, end=False):
    """More streams, and more frames waiting, than fit in a byte."""
    out = []
    r = g.r
    for _ in range(n):
        k = r.choice([257, 270, 300])
        p = g.env(w=r.choice([2, 3]), cap=r.choice([64, 1 << 28]), rchunk=0, wchunk=0, dchunk=0, spurious=0, gap=r.choice([0, 3]),
                  backlog=1000, max0=k if limit else 1000, max1=k - 6 if limit else 1000, role0="client")
        ids = [2 * i + 1 for i in range(k)]
        ops = []
        if r.random() < .5:
            ops += [["hold", 0]]
        for s in ids:
            ops.append(["open", 0, "direct"])
            if r.random() < .3:
                ops.append(["write", 0, s, r.randint(1, 3), 1])
        ops += [["unhold", 0], ["quiet"]]
        some = r.sample(ids, 40)
        for s in some:
            ops.append(["write", r.randint(0, 1), s, r.randint(1, 3), r.choice([0, 1])])
        if end:
            ops.append(r.choice([["close", 0], ["close", 1], ["cut", 0, "eof"], ["dropsess", 1]]))
        if r.random() < .5:
            for s in r.sample(ids, 60):
                ops.append([r.choice(["drop", "shut"]), r.randint(0, 1), s])
        else:       # most of them end, the rest goes on
            for s in ids:
                if s not in some:
                    ops += [["drop", 0, s], ["drop", 1, s]]
            ops.append(["quiet"])
            for s in some[:9]:
                ops += [["read", 1, s, 4, 1], ["write", 0, s, 3, 0]]
            ops.append(["quiet"])
        for s in some:
            ops += [["read", 1, s, 4, 1], ["read", 0, s, 4, 1]]
        ops.append(["quiet"])
        if limit:
            ops += [["open", 0, "direct"], ["open", 1, "ctl"], ["quiet"]]
        p["ops"] = ops
        out.append(p)
    return out


def flood(g, n):
    """One stream that nobody reads holds hundreds of frames while others go on."""
    out = []
    r = g.r
    for _ in range(n):
        w = r.choice([300, 600])
        p = g.env(w=w, cap=1 << 28, rchunk=0, wchunk=0, dchunk=r.choice([0, 500]), spurious=0, gap=r.choice([0, 4, 40]), role0="client")
        ops = [["open", 0, "direct"], ["open", 0, "direct"], ["open", 1, "ctl"], ["quiet"]]
        a = r.randint(0, 1)
        slow = r.choice([1, 3, 2])
        other = r.choice([x for x in (1, 3, 2) if x != slow])
        if r.random() < .4:
            ops.append(["hold", a])
        ops += [["write", a, slow, r.randint(270, w), 1], ["steps", 900], ["write", a, other, 5, 1], ["unhold", a],
                ["read", 1 - a, other, 3, 1], ["quiet"]]
        if r.random() < .5:
            ops += [["read", 1 - a, slow, r.choice([1, 7]), 0], ["quiet"]]
        if r.random() < .4:
            ops += [[r.choice(["shut", "drop"]), a, slow], ["quiet"]]
        ops += [["read", 1 - a, slow, r.choice([1, 50, 700]), 1], ["write", a, slow, 300, r.choice([0, 1])], ["quiet"]]
        p["ops"] = ops
        out.append(p)
    return out


def y01(g, n):
    out = wide(g, n // 35) + clog(g, n // 12) + flood(g, n // 60) + crowd(g, 2)
    for _ in range(n):
        p = pair(g, DATA, streams=g.r.choice([1, 2, 4, 6]), length=(10, 40))
        out.append(drain(p, range(1, 13)))
    for _ in range(n // 8):      # long transfers
        r = g.r
        p = g.env(w=r.choice([1, 2, 7, 16, 64]), gap=3)
        ops = []
        for e in (0, 1):
            for k in range(r.randint(1, 2)):
                ops.append(["open", e, "direct"])
        ops.append(["quiet"])
        for _ in range(r.randint(4, 10)):
            s, e = r.randint(1, 4), r.randint(0, 1)
            ops.append(["write", e, s, r.randint(1, 6 * p["w"]), r.choice([0, 1, 5])])
            if r.random() < .5:
                ops.append(["read", 1 - e, s, r.randint(1, 2 * p["w"]), 1])
        p["ops"] = ops
        out.append(drain(p, range(1, 5)))
    return out


def y02(g, n):
    out = wide(g, n // 70) + wide(g, n // 35, raw=True) + flood(g, n // 150)
    r = g.r
    for _ in range(n // 2):
        p = pair(g, {"write": 12, "read": 4, "read1": 8, "both": 1, "stopread": 3, "hold": 1, "unhold": 2},
                 streams=2, length=(12, 40))
        out.append(drain(p, range(1, 7)))
    for _ in range(n // 2):      # a peer that grants and overruns at will
        p = g.env(kind="raw", pong=True, raw_ga=r.random() < .8)
        W = p["w"]
        mine, theirs = g.ids(p, 0, 0), g.ids(p, 1, 0)
        ops = []
        if r.random() < .5:
            ops += [["open", 0, "direct"], ["quiet"], ["raw", {"t": "wu", "fl": 2, "s": mine, "n": 0}]]
            s = mine
        else:
            ops += [["raw", {"t": "wu", "fl": 1, "s": theirs, "n": 0}], ["quiet"]]
            s = theirs
        for _ in range(r.randint(3, 14)):
            x = r.random()
            if x < .45:
                k = r.choice([0, 1, W, W, max(1, W - 1), r.randint(1, W)])
                ops.append(["raw", {"t": "data", "fl": 0, "s": s, "d": [r.randrange(256) for _ in range(k)]}])
            elif x < .55:
                ops.append(["raw", {"t": "wu", "fl": 0, "s": s, "n": r.choice([0, 1, W, 5 * W, 0xffffffff])}])
            elif x < .75:
                ops.append(["read", 0, s, r.randint(1, 2 * W), r.choice([0, 1])])
            elif x < .85:
                ops.append(["write", 0, s, r.randint(1, 3 * W), 0])
            else:
                ops.append(["quiet"])
        if r.random() < .7:
            ops.append(["read", 0, s, 64, 1])
        p["ops"] = ops
        out.append(p)
    return out


def y03(g, n):
    """Streams that nobody reads, filled to the brim, next to active ones."""
    out = flood(g, n // 25) + clog(g, n // 25) + crowd(g, 2)
    r = g.r
    for _ in range(n):
        p = g.env(w=r.choice([1, 2, 4, 9, 12, 20]))
        W = p["w"]
        k = r.randint(2, 5)
        ops, ids = [], []
        for i in range(k):
            e = r.randint(0, 1)
            j = sum(1 for x in ids if x[0] == e)
            ids.append((e, g.ids(p, e, j)))
            ops.append(["open", e, "direct"])
        ops.append(["quiet"])
        stalled = r.sample(ids, r.randint(1, k - 1))
        active = [x for x in ids if x not in stalled]
        for _ in range(r.randint(8, 24)):
            if r.random() < .55:
                _, s = r.choice(stalled)
                ops.append(["write", r.randint(0, 1), s, r.randint(1, 2 * W), r.choice([1, 1, 0])])
                if r.random() < .12:
                    ops.append([r.choice(["drop", "shut"]), r.randint(0, 1), s])
                if r.random() < .08:
                    ops.append(["read", r.randint(0, 1), s, r.randint(1, W), 0])
            else:
                _, s = r.choice(active)
                e = r.randint(0, 1)
                ops.append(["write", e, s, r.randint(1, 3 * W), 0])
                ops.append(["read", 1 - e, s, 64, 1])
            if r.random() < .2:
                ops.append(["quiet"])
            if r.random() < .08:
                e = r.randint(0, 1)
                j = sum(1 for x in ids if x[0] == e)
                ids.append((e, g.ids(p, e, j)))
                active.append(ids[-1])
                ops.append(["open", e, r.choice(["direct", "ctl"])])
        for _, s in active:
            for e in (0, 1):
                ops.append(["read", e, s, 64, 1])
        ops.append(["quiet"])
        p["ops"] = ops
        out.append(p)
    for _ in range(n // 4):     # the peer's pings are answered and its new streams accepted all the same
        p = g.env(kind="raw")
        W = p["w"]
        ops = []
        for k in range(3):
            ops.append(["raw", {"t": "wu", "fl": 1, "s": g.ids(p, 1, k), "n": 0}])
        for _ in range(r.randint(10, 30)):
            x = r.random()
            s = g.ids(p, 1, 0)
            if x < .6:
                ops.append(["raw", {"t": "data", "fl": 0, "s": s, "d": [r.randrange(256)] * r.choice([0, 1])}])
            elif x < .7:
                ops.append(["raw", {"t": "ping", "fl": 1, "s": 0, "n": r.randint(0, 99)}])
            elif x < .85:
                s2 = g.ids(p, 1, 1)
                ops += [["raw", {"t": "data", "fl": 0, "s": s2, "d": [r.randrange(256)]}], ["read", 0, s2, 8, 1], ["quiet"]]
            else:
                ops.append(["quiet"])
        ops += [["raw", {"t": "wu", "fl": 1, "s": g.ids(p, 1, 4), "n": 0}], ["quiet"], ["write", 0, g.ids(p, 1, 4), 1, 0], ["quiet"]]
        p["ops"] = ops
        out.append(p)
    return out


def y04(g, n):
    out = wide(g, n // 60, CLOSE) + clog(g, n // 20, dict(CLOSE, hold=2, unhold=3)) + crowd(g, 2) + flood(g, n // 80)
    for _ in range(n):
        p = pair(g, CLOSE, streams=g.r.choice([1, 1, 2, 3]), length=(8, 30), quiet=0.12)
        if g.r.random() < .6:
            drain(p, range(1, 9))
        out.append(p)
    r = g.r
    for _ in range(n // 2):     # one writer, one reader, a close somewhere
        p = g.env()
        W = p["w"]
        e = r.randint(0, 1)
        s = g.ids(p, e, 0)
        a = r.randint(0, 1)
        ops = [["open", e, "direct"]]
        if r.random() < .5:
            ops.append(["quiet"])
        ops.append(["write", a, s, r.randint(1, W), r.choice([0, 1])])
        for op in r.sample([["shut", a, s], ["read", 1 - a, s, r.randint(1, W + 1), 1], ["quiet"],
                            ["write", 1 - a, s, r.randint(1, W), 0], ["read", a, s, W, 1],
                            ["drop", r.randint(0, 1), s], ["shut", 1 - a, s], ["write", a, s, W, 0]], r.randint(2, 7)):
            ops.append(op)
        ops += [["quiet"], ["read", 1 - a, s, 64, 1], ["read", a, s, 64, 1], ["quiet"],
                ["write", 1 - a, s, 1, 0], ["write", a, s, 1, 0], ["quiet"]]
        p["ops"] = ops
        out.append(p)
    for _ in range(n // 4):     # a peer of another make, which may end the stream with the last data or during it
        p = g.env(kind="raw", sync=r.random() < .5)
        W = p["w"]
        mine = r.random() < .5
        s = g.ids(p, 0 if mine else 1, 0)
        ops = [["open", 0, "direct"], ["quiet"], ["raw", {"t": "wu", "fl": 2, "s": s, "n": 0}]] if mine else [["raw", {"t": "wu", "fl": 1, "s": s, "n": 0}], ["quiet"]]
        left = W
        for _ in range(r.randint(0, 2)):
            k = r.randint(1, max(1, left // 2))
            left -= k
            ops.append(["raw", {"t": "data", "fl": 0, "s": s, "d": [r.randrange(256) for _ in range(k)]}])
            ops += r.sample([["quiet"], ["read", 0, s, r.randint(1, W), 1], ["write", 0, s, r.randint(1, W), 0]], r.randint(0, 2))
        ops.append(["raw", {"t": "data", "fl": 4, "s": s, "d": [r.randrange(256) for _ in range(r.randint(0, max(0, left)))]}])
        for op in r.sample([["quiet"], ["read", 0, s, 1, 1], ["read", 0, s, r.randint(1, W), 1], ["write", 0, s, 2, 0], ["shut", 0, s],
                            ["raw", {"t": "wu", "fl": 0, "s": s, "n": W}], ["drop", 0, s]], r.randint(1, 5)):
            ops.append(op)
        p["ops"] = ops + [["quiet"], ["read", 0, s, 1, 1], ["read", 0, s, 64, 1], ["quiet"], ["write", 0, s, 1, 0], ["shut", 0, s], ["quiet"], ["drop", 0, s], ["quiet"]]
        out.append(p)
    return out


def ending(g, s):
    """The ways a stream ends, seen from one side against a hand-made peer."""
    r, ops = g.r, []
    for x in r.sample(["fin", "rst", "shut", "read", "read", "shut"], r.randint(1, 5)):
        ops.append({"fin": ["raw", {"t": "wu", "fl": 4, "s": s, "n": 0}], "rst": ["raw", {"t": "wu", "fl": 8, "s": s, "n": 0}],
                    "shut": ["shut", 0, s], "read": ["read", 0, s, 4, 1]}[x])
        if r.random() < .6:
            ops.append(["quiet"])
    return ops


def y05(g, n):
    out = crowd(g, max(3, n // 800), limit=True)
    r = g.r
    for _ in range(n // 2):     # settled histories: the limits are exact
        p = g.env(kind="raw", sync=True, max0=r.choice([0, 1, 2, 3]), backlog=r.choice([0, 1, 2, 256, 256]))
        live, ops, k = [], [], 0
        for _ in range(r.randint(6, 24)):
            x = r.random()
            if x < .5 or not live:
                s = g.ids(p, 1, k)
                k += 1
                live.append(s)
                ops.append(["raw", {"t": r.choice(["wu", "wu", "data"]), "fl": 1, "s": s, "n": 0, "d": []}])
            elif x < .7:
                s = r.choice(live)
                live.remove(s)
                ops.append(["drop", 0, s])
            elif x < .8:
                s = r.choice(live)
                ops += ending(g, s)
                if r.random() < .8:
                    live.remove(s)
                    ops += [["drop", 0, s], ["quiet"]]
            elif x < .88:
                ops.append(["open", 0, "direct"])
            elif x < .94:
                s = r.choice(live)
                ops += [["raw", {"t": "data", "fl": 0, "s": s, "d": [7] * r.randint(1, p["w"])}], ["read", 0, s, 8, 1]]
            else:
                ops.append(["shut", 0, r.choice(live)])
            if r.random() < .6:
                ops.append(["quiet"])
        p["ops"] = ops
        out.append(p)
    for _ in range(n // 2):
        p = pair(g, {"write": 4, "read": 4, "drop": 5, "shut": 2, "open": 8}, streams=1, length=(10, 30), quiet=.25,
                 max0=r.choice([1, 2, 4]), max1=r.choice([1, 2, 3]), backlog=r.choice([1, 256]), sync=r.random() < .5)
        out.append(p)
    for _ in range(n // 10):    # one after another, for a long time
        m = r.choice([1, 2])
        p = pair(g, {"write": 1}, length=(1, 1), max1=m, max0=1, sync=False)
        p["role0"] = "client"
        ops = []
        for k in range(r.randint(5, 40)):
            s = 2 * k + 1
            ops += [["open", 0, r.choice(["direct", "ctl"])], ["quiet"], ["write", 0, s, r.randint(1, p["w"]), 0], ["read", 1, s, 9, 1], ["quiet"]]
            end = r.choice([[["drop", 0, s], ["quiet"], ["drop", 1, s]],
                            [["shut", 0, s], ["quiet"], ["drop", 1, s], ["quiet"], ["drop", 0, s]],
                            [["shut", 1, s], ["quiet"], ["drop", 1, s], ["drop", 0, s]],
                            [["drop", 1, s], ["quiet"], ["drop", 0, s]],
                            [["shut", 0, s], ["quiet"], ["shut", 1, s], ["quiet"], ["drop", 1, s], ["drop", 0, s]],
                            [["shut", 1, s], ["read", 0, s, 9, 1], ["quiet"], ["shut", 0, s], ["quiet"], ["drop", 0, s], ["drop", 1, s]],
                            [["shut", 0, s], ["shut", 1, s], ["quiet"], ["drop", 1, s], ["drop", 0, s]]])
            ops += end + [["quiet"]]
        p["ops"] = ops
        out.append(p)
    return out


def y06(g, n):
    out = crowd(g, max(3, n // 800), end=True)
    clogged = clog(g, n // 20)
    r = g.r
    for i in range(n):
        p = clogged[i] if i < len(clogged) else pair(
            g, {"write": 10, "read": 8, "both": 2, "read1": 1, "shut": 1, "drop": 1, "open": 1, "hold": 1},
            streams=r.choice([1, 2, 3]), length=(5, 22), quiet=.12)
        at = r.randint(1, len(p["ops"]))
        end = r.choice([[["cut", r.randint(0, 1), r.choice(["eof", "err", "werr"])]], [["close", r.randint(0, 1)]],
                        [["dropsess", r.randint(0, 1)]], [["close", 0], ["close", 1]],
                        [["cut", 0, "eof"], ["cut", 1, "eof"]]])
        tail = []
        for s in range(1, 5):
            for e in (0, 1):
                tail.append(["read", e, s, r.randint(1, 9), 1])
                if r.random() < .4:
                    tail.append(["write", e, s, r.randint(1, 2 * p["w"]), 0])
        r.shuffle(tail)
        post = []
        for e in (0, 1):
            if r.random() < .5:
                post.append(["open", e, "ctl"])
            if r.random() < .3:
                post.append(["close", e])
        p["ops"] = p["ops"][:at] + end + p["ops"][at:] + [["unhold", 0], ["unhold", 1]] + tail + [["quiet"]] + post + [["quiet"]]
        if r.random() < .3:
            p["ops"] += [["adv", 20000], ["quiet"]]
        out.append(p)
    return out


def rand_frame(r, W, ids):
    t = r.choices(["data", "wu", "ping", "ga", "bad"], [10, 8, 3, .4, .4])[0]
    fl = r.choices([0, 1, 2, 3, 4, 8, 5, 9, 12, 10, 15], [30, 14, 6, 1, 4, 3, 1, 1, 1, 1, 1])[0]
    n = r.choice([0, 0, 1, W, 3 * W, 1000, 0xffffffff]) if t == "wu" else r.choice([0, 1, 2, 5, 300000])
    return ["raw", {"t": t, "fl": fl, "s": r.choice(ids), "n": n,
                    "d": [r.randrange(256) for _ in range(r.choice([0, 1, W, W + 1, r.randint(0, W)]))]}]


def y07(g, n):
    out = []
    r = g.r
    for _ in range(n):
        p = g.env(kind="raw", max0=r.choice([1, 2, 3, 1000]), raw_ga=r.random() < .5, pong=r.random() < .5)
        W = p["w"]
        ids = [1, 2, 3, 4] if r.random() < .7 else [1, 2]
        ops = []
        for _ in range(r.randint(4, 30)):
            x = r.random()
            if x < .6:
                ops.append(rand_frame(r, W, ids))
            elif x < .68:
                ops.append(["open", 0, r.choice(["direct", "ctl"])])
            elif x < .8:
                ops.append(["read", 0, r.choice(ids), r.randint(1, 2 * W), r.choice([0, 1])])
            elif x < .85:
                ops.append(["write", 0, r.choice(ids), r.randint(1, 2 * W), 0])
            elif x < .88:
                ops.append(["drop", 0, r.choice(ids)])
            elif x < .9:
                ops.append(["shut", 0, r.choice(ids)])
            elif x < .98:
                ops.append(["quiet"])
            else:
                ops.append(["bytes", [r.randrange(256) for _ in range(r.randint(1, 40))]])
        for s in ids:
            ops.append(["read", 0, s, 16, 1])
        ops.append(["quiet"])
        if r.random() < .5:
            ops += [["cut", 1, "eof"], ["quiet"]]
        p["ops"] = ops
        out.append(p)
    for _ in range(n // 6):     # plain garbage
        p = g.env(kind="raw")
        b = [r.choice([0, 0, 0, 0, 1, 2, 3, 255, r.randrange(256)]) for _ in range(r.randint(1, 200))]
        p["ops"] = [["bytes", b], ["quiet"], ["read", 0, 0, 16, 1], ["read", 0, 1, 16, 1], ["cut", 1, "eof"], ["quiet"]]
        out.append(p)
    return out


def y08(g, n):
    out = []
    r = g.r
    for _ in range(n):
        ka = r.choice([500, 1000, 3000, 10000, 30000, 40000])
        p = g.env(kind="raw", ka=ka, pong=r.random() < .35, w=r.choice([1, 2, 3, 8]))
        ops = []
        for _ in range(r.randint(4, 30)):
            x = r.random()
            if x < .6:
                ops += [["adv", r.choice([ka, ka, ka // 2, 2 * ka + 1, 1000, 29000])], ["quiet"]]
            elif x < .8:
                ops += [["pong", 0]] * r.choice([1, 1, 3])
            elif x < .9:
                ops.append(["raw", {"t": "ping", "fl": 1, "s": 0, "n": r.choice([0, 1, 7, 9999, 1000000])}])
            else:
                ops.append(["quiet"])
        p["ops"] = ops
        out.append(p)
    for _ in range(n // 2):     # two real endpoints answer each other for as long as they live
        ka = r.choice([100, 1000, 30000])
        p = pair(g, DATA, streams=2, length=(4, 10), ka=ka, w=[1, 2, 5])
        for _ in range(r.randint(5, 40)):
            p["ops"] += [["adv", r.choice([ka, ka, ka // 2, 3 * ka])], ["quiet"]]
        out.append(p)
    return out


def y10(g, n):
    out = []
    r = g.r
    clogged = clog(g, n // 20)
    for i in range(n):
        p = clogged[i] if i < len(clogged) else pair(
            g, {"write": 6, "read": 6, "both": 2, "open": 3, "shut": 1, "drop": 1}, streams=2, length=(3, 16))
        at = r.randint(0, len(p["ops"]))
        p["ops"][at:at] = [["close", r.randint(0, 1)]]
        p["ops"] += [["quiet"], ["open", 0, "ctl"], ["open", 1, "ctl"], ["quiet"], ["close", r.randint(0, 1)], ["quiet"]]
        out.append(p)
    for _ in range(n // 2):     # silent or late peers
        p = g.env(kind="raw", raw_ga=False, wt=r.choice([1000, 10000]), ka=r.choice([0, 0, 700]))
        ops = []
        for k in range(r.randint(0, 2)):
            ops.append(["raw", {"t": "wu", "fl": 1, "s": g.ids(p, 1, k), "n": 0}])
        ops += [["close", 0]] if r.random() < .8 else [["raw", {"t": "ga", "fl": 0, "s": 0, "n": r.choice([0, 1, 2, 9])}]]
        if r.random() < .5:
            ops.append(["quiet"])
        for _ in range(r.randint(0, 4)):
            ops.append(r.choice([["raw", {"t": "wu", "fl": 1, "s": g.ids(p, 1, 5), "n": 0}], ["quiet"],
                                 ["raw", {"t": "data", "fl": 0, "s": g.ids(p, 1, 0), "d": [1]}], ["open", 0, "direct"],
                                 ["raw", {"t": "ga", "fl": 0, "s": 0, "n": 0}], ["adv", p["wt"] // 3], ["close", 0]]))
        ops += [["quiet"], ["adv", p["wt"]], ["quiet"], ["open", 0, "ctl"], ["quiet"]]
        p["ops"] = ops
        out.append(p)
    return out


# property -> (generator, programs quick, programs thorough, model configurations quick, thorough, simulation ops)
ALL = '"open", "write", "read", "stopread", "shut", "drop", "close", "dropsess"'
TABLE = {
    "Y01": (y01, 700, 9000, ["Yamux_data"], ["Yamux_data", "Yamux_two"], '"open", "write", "read", "stopread"'),
    "Y02": (y02, 1000, 12000, ["Yamux_data"], ["Yamux_data", "Yamux_two"], '"open", "write", "read", "stopread"'),
    "Y03": (y03, 500, 6000, ["Yamux_two"], ["Yamux_two", "Yamux_close"], '"open", "write", "read", "drop"'),
    "Y04": (y04, 800, 10000, ["Yamux_close"], ["Yamux_close", "Yamux_two"], '"open", "write", "read", "shut", "drop"'),
    "Y05": (y05, 800, 9000, ["Yamux_limit"], ["Yamux_limit"], '"open", "write", "read", "shut", "drop"'),
    "Y06": (y06, 900, 12000, ["Yamux_end"], ["Yamux_end"], ALL),
    "Y07": (y07, 1400, 20000, ["Yamux_end"], ["Yamux_end", "Yamux_close"], ALL),
    "Y08": (y08, 600, 8000, ["Yamux_data"], ["Yamux_data"], '"open", "write", "read"'),
    "Y10": (y10, 900, 10000, ["Yamux_end"], ["Yamux_end"], '"open", "write", "read", "close", "dropsess"'),
}


def simulated(g, ops, num, depth, seed):
    """Programs made of the user operations of behaviours of Yamux.tla."""
    import os
    cfg = os.path.join(core.WORK, "YamuxSim-%d.cfg" % os.getpid())
    with open(cfg, "w") as fh:
        fh.write("SPECIFICATION Spec\nCONSTANTS W = 3  AllIds = {1, 2, 3}  MAXW = 8  MAXSTREAMS = 4  USERSTEPS = 40  LATE = 7\n"
                 "  DEPTH = %d\n  OPS = {%s}\nCHECK_DEADLOCK FALSE\nINVARIANTS Integrity Conservation Accounting NoViolation EofComplete Limits Emit\n" % (depth, ops))
    rc, out = core.tlc("Yamux", cfg, workers=1, args=["-simulate", "num=%d" % num, "-depth", str(depth + 1), "-seed", str(seed)])
    os.unlink(cfg)
    progs = []
    for m in re.finditer(r'<<"PROG", "(.*)">>', out):
        p = g.env(w=3, role0="client")
        p["ops"] = json.loads(m.group(1).replace('\\"', '"'))
        progs.append(p)
    if rc != 0 or not progs:
        raise core.ToolError("simulation of Yamux failed:\n" + out[-3000:])
    return progs


def y09(g, n):
    """Heavily fragmented transports."""
    r = g.r
    out = clog(g, n // 10)
    for _ in range(n):
        p = pair(g, CLOSE if r.random() < .5 else DATA, streams=3, length=(8, 24),
                 cap=r.choice([1, 2, 5, 12, 13, 25, BIG]), rchunk=r.choice([1, 2, 3, 11, 12, 13, 0]),
                 wchunk=r.choice([1, 2, 11, 12, 13, 0]), dchunk=r.choice([1, 2, 12, 0]))
        out.append(drain(p, range(1, 7)))
    return out


def raw_bytes(r, W):
    """A byte string made of frames, some of them damaged."""
    b = []
    for _ in range(r.randint(1, 4)):
        ty = r.choices([0, 1, 2, 3, 4, 255], [10, 6, 4, 2, 1, 1])[0]
        d = [r.randrange(256) for _ in range(r.choice([0, 1, 2, W, r.randint(0, W)]))]
        n = len(d) if ty == 0 else r.choice([0, 1, W, W + 1, 65536, 0x7fffffff, 0x80000000, 0xffffffff])
        if ty == 0 and r.random() < .08:
            n = r.choice([W + 1, 0xffffffff, 1 << 24])
        sid = r.choice([0, 1, 2, 255, 256, 0x7fffffff, 0x80000000, 0xffffffff])
        b += [0 if r.random() < .96 else r.randrange(1, 256), ty, r.choice([0, 0, 0, 1, 255]), r.choice([0, 1, 2, 4, 8, 3, 255])]
        b += list(sid.to_bytes(4, "big")) + list(n.to_bytes(4, "big")) + (d if ty == 0 else [])
    if r.random() < .3:
        b = b[:r.randint(0, len(b))]
    return b


def codec_cases(g, n):
    r = g.r
    out = []
    for i in range(n):
        W = r.choice([0, 1, 2, 5, 9])
        b = raw_bytes(r, W)
        L = len(b)
        cuts = [[], list(range(1, L)), [r.randint(0, L)]]
        for c in ([k] for k in range(L + 1)) if i % 5 == 0 else ():
            cuts.append(c)
        for _ in range(6):
            cuts.append(sorted(r.choices(range(L + 1), k=r.randint(1, 6))))
        for j, c in enumerate(cuts):
            out.append({"id": "codec-%d-%d" % (i, j), "w": W, "bytes": b, "cuts": c})
    return out


TABLE["Y09"] = (y09, 500, 6000, ["Yamux_data"], ["Yamux_data", "Yamux_close"], ALL)


def run(prop, tier, seed):
    gen, nq, nt, mq, mt, ops = TABLE[prop]
    binary = core.build("yx")
    g = Gen(seed, prop)
    cov = core.Coverage()
    for cfg in (mq if tier == "quick" else mt + [mq[0] + "_big"]):
        cov.model(core.model_check("Yamux", cfg + ".cfg", timeout=800 if tier == "quick" else 3600, mem="6g" if tier == "quick" else "20g", partial=tier != "quick"))
    progs = simulated(g, ops, 150 if tier == "quick" else 1500, 60, seed)
    cov.replayed += len(progs)
    progs += gen(g, nq if tier == "quick" else nt)
    crashes, viol, count = [], [], 0
    lines = core.run_harness(binary, "run", progs, prop, crashes=crashes)
    byid = {p["id"]: p for p in progs}
    rej, gs, ds = core.validate("YamuxTrace", "YamuxTrace.cfg", lines, timeout=3000)
    cov.traces(lines, gs, ds)
    viol += [core.trace_violation("YamuxTrace", "YamuxTrace.cfg", lines[i], byid) for i in rej[:5]]
    count += len(rej)
    if prop == "Y09":
        cases = codec_cases(g, 500 if tier == "quick" else 6000)
        cl = core.run_harness(binary, "codec", cases, prop + "c", crashes=crashes)
        crej, gs, ds = core.validate("YamuxCodec", "YamuxCodec.cfg", cl, timeout=3000)
        cov.traces(cl, gs, ds)
        viol += [{"what": "frame parsing differs from the specification", "case": json.loads(cl[i])} for i in crej[:5]]
        count += len(crej)
    viol += [core.crash_violation(c) for c in crashes[:3]]
    return core.Result(cov, viol, count + len(crashes))
