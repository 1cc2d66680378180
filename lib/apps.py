"""Group A: the ping, identify and discovery protocols on real services (Apps.tla)."""
import json, os, random, re
import core

GLOBAL = ["/ip4/1.2.3.4/tcp/80", "/ip4/8.8.8.8/tcp/1", "/ip4/100.1.2.3/tcp/65535", "/ip6/2001:4860:4860::8888/tcp/443", "/ip4/1.2.3.4/tcp/81", "/ip4/9.9.9.9/tcp/3@4",
          "/ip4/5.6.7.8/tcp/9/ws"] + ["a%d" % i for i in range(1, 12)]
PRIVATE = ["/ip4/127.0.0.1/tcp/1", "/ip4/10.1.2.3/tcp/9", "/ip4/192.168.1.1/tcp/2", "/ip4/172.16.3.4/tcp/5", "/ip4/169.254.1.1/tcp/5", "/ip6/::1/tcp/4", "/ip6/fe80::1/tcp/6"]
NONE = ["/dns4/example.com/tcp/80", "/tcp/80", "/ip4/1.1.1.1"]
TAB = [{"a": a, "c": "global"} for a in GLOBAL] + [{"a": a, "c": "private"} for a in PRIVATE] + [{"a": a, "c": "none"} for a in NONE]
KIND = {"A01": "ping", "A02": "id", "A03": "disc"}


class Gen:
    def __init__(self, seed, prop):
        self.r = random.Random("%s-%s-apps" % (prop, seed))
        self.prop, self.n = prop, 0

    def id(self):
        self.n += 1
        return "%s-%d" % (self.prop, self.n)


def node(kind, real, key, **kw):
    d = {"real": real, "key": key, "auto": False, "interval": 1000, "timeout": 1000, "global": True, "listens": [], "id": "", "disc": [], "store": [],
         "invalid": [], "cycle": 5000, "lport": 1000}
    d.update(kw)
    d["timers"] = {"ping": [{"tok": 0, "ms": d["interval"]}, {"tok": 1, "ms": d["timeout"]}], "id": [{"tok": 100, "ms": 1000}],
                   "disc": [{"tok": 0, "ms": d["interval"]}]}[kind]
    return d


class Scene:
    def __init__(self, g, kind, ns):
        self.g, self.r, self.kind, self.ns, self.ops = g, g.r, kind, ns, []
        self.maxs = [0] * len(ns)
        self.conns = 0
        for n, c in enumerate(ns):
            if c["lport"] != -1:
                self.op(op="listen", n=n, port=c["lport"])
        self.settle(49)

    def op(self, **kw):
        self.ops.append(kw)

    def settle(self, ms=199):
        # with the harness's own millisecond, moments stay on the grid of 50
        self.op(op="settle", ms=ms)

    def dial(self, a, b):
        self.conns += 1
        self.op(op="dial", n=a, to=b, v=1 + self.conns, port=self.ns[b]["lport"])
        self.maxs[a] += 1
        self.maxs[b] += 1

    def sid(self, n):
        return self.r.randint(1, max(1, self.maxs[n]))

    def pause(self, *ms):
        r = self.r
        k = r.random()
        if k < 0.3:
            return
        if k < 0.5:
            self.op(op="run", k=r.choice([1, 3, 10, 40]))
        else:
            self.op(op="sleep", ms=r.choice(ms or (50, 100, 300, 500, 1000)))

    def done(self):
        r = self.r
        self.settle()
        k = r.random()
        return {"id": self.g.id(), "seed": r.randrange(1 << 30), "kind": self.kind, "nodes": self.ns, "tab": TAB, "ops": self.ops,
                "jitter": r.choice([0, 0, 20, 50, 80]), "naps": 5 if k < 0.1 else 0, "cap": r.choice([64, 400, 65536, 65536]), "chunk": int(r.random() < 0.3)}


def keys(r, n):
    return [-1] * n if r.random() < 0.08 else list(range(n))


def join(sc, reals, others):
    """connects everybody with a node under test, one way or the other"""
    r = sc.r
    pairs = [(o, x) for o in others for x in reals if x == reals[0] or r.random() < 0.4] + [(a, b) for a in reals for b in reals if a < b]
    r.shuffle(pairs)
    for a, b in pairs:
        if r.random() < 0.4:
            a, b = b, a
        if sc.ns[b]["lport"] == -1:
            a, b = b, a
        if sc.ns[b]["lport"] != -1:
            sc.dial(a, b)
            if r.random() < 0.3:
                sc.pause(50, 100, 450)


def trouble(sc, x):
    r = sc.r
    k = r.random()
    if k < 0.4:
        sc.op(op="cut", c=r.randrange(max(1, sc.conns)))
    elif k < 0.9:
        n = r.randrange(len(sc.ns))
        sc.op(op="disconnect", n=n, s=sc.sid(n))
    else:
        c = r.randrange(max(1, sc.conns))
        sc.op(op="stall", c=c)
        sc.op(op="sleep", ms=r.choice([50, 700, 1500, 3000]))
        sc.op(op="stall", c=c, on=0)


def ping(g):
    """Pings are numbered by the second: rounds are at least one apart."""
    r = g.r
    nr, no = r.choice([(1, 1), (1, 1), (1, 2), (2, 1), (2, 0), (1, 3)])
    ks = keys(r, nr + no)
    ns = [node("ping", True, ks[i], interval=r.choice([1000, 1000, 1500, 2000, 3000]), timeout=r.choice([500, 1000, 1500, 2500, 4000])) for i in range(nr)]
    ns += [node("ping", False, ks[nr + i], auto=r.random() < 0.45) for i in range(no)]
    sc = Scene(g, "ping", ns)
    join(sc, range(nr), range(nr, nr + no))
    sc.settle()
    wild = r.random() < 0.35
    for _ in range(r.randint(4, 22)):
        k = r.random()
        if k < 0.62 and no:
            n = nr + r.randrange(no)
            x = r.random()
            if x < 0.5:
                m = {"k": "pong", "x": "last"}
            elif x < 0.8 or not wild:
                m = {"k": "ping", "x": str(r.choice([0, 1, 77, 255, 256, 65536, 2 ** 31, 2 ** 32 - 1]))}
                if r.random() < 0.2:
                    m = {"k": "raw", "how": r.choice(["short", "cut", "tail", "odd", "choice", "x"])}
            else:
                m = {"k": "pong", "x": r.choice(["last", "near", "0", "1"])}
            for _ in range(1 if r.random() < 0.9 else 2):
                sc.op(op="put", n=n, s=sc.sid(n), m=m)
        elif k < 0.68:
            trouble(sc, wild)
        else:
            sc.op(op="sleep", ms=r.choice([50, 200, 450, 500, 1000, 1000, 2000, 5000]))
        sc.pause(50, 250, 500, 1000, 2000)
    return sc.done()


def some(r, most=14):
    n = r.choice([0, 1, 1, 2, 3, 5, 9, 10, 11, 12, most])
    return [r.choice(r.choice([GLOBAL, GLOBAL, PRIVATE, NONE])) for _ in range(n)]


def identify(g):
    r = g.r
    nr, no = r.choice([(1, 1), (1, 1), (1, 2), (2, 1), (2, 0), (1, 3)])
    ks = keys(r, nr + no)
    why = ["dup", "timeout", "invalid", "many", "ident", "observed"]
    ns = [node("id", True, ks[i], listens=some(r), id=r.choice(["", "x", "net-1", "v" * 300]), **{"global": r.random() < 0.6},
               disc=r.choice([[], why[:4], [r.choice(why)], r.sample(why, 2)])) for i in range(nr)]
    ns += [node("id", False, ks[nr + i]) for i in range(no)]
    sc = Scene(g, "id", ns)
    join(sc, range(nr), range(nr, nr + no))
    if r.random() < 0.7:
        sc.settle()
    for _ in range(r.randint(1, 9)):
        k = r.random()
        if k < 0.7 and no:
            n = nr + r.randrange(no)
            if r.random() < 0.8:
                m = {"k": "ident", "listens": some(r), "observed": r.choice(r.choice([GLOBAL, PRIVATE, NONE])), "id": r.choice(["", "x", "net-2", "w" * 500])}
            else:
                m = {"k": "raw", "how": r.choice(["short", "cut", "tail", "odd", "address", "x"])}
            sc.op(op="put", n=n, s=sc.sid(n), m=m)
        elif k < 0.76:
            trouble(sc, False)
        else:
            sc.op(op="sleep", ms=r.choice([50, 1000, 3000, 7000, 8000, 9000]))
        sc.pause(50, 1000, 4000)
    return sc.done()


def discovery(g):
    r = g.r
    nr, no = r.choice([(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 0), (1, 5), (2, 0)])
    ks = keys(r, nr + no)
    why = ["dupget", "dupnodes", "items", "many", "invalid"]
    big = r.random() < 0.02
    # where the peers may be found: as they say themselves, or as dialled
    at = lambda j: "@%d" % ks[j] if ks[j] >= 0 else ""
    spots = ["/ip4/10.0.%d.200/tcp/%d%s" % (j, p, k) for j in range(nr + no) for p in (1, 4000, 1000, 1234) for k in sorted({"", at(j)})]
    spots += ["/ip4/10.0.%d.%d/tcp/1000%s" % (j, v, at(j)) for j in range(nr + no) for v in range(1, 7)]
    ns = []
    for i in range(nr):
        store = sorted({r.choice(GLOBAL + PRIVATE + NONE) for _ in range(r.choice([0, 1, 3, 8]))})
        if big and i == 0:
            store = ["a%d" % (100 + j) for j in range(r.choice([999, 1000, 1001, 1300]))]
        ns.append(node("disc", True, ks[i], interval=r.choice([500, 1000, 3000]), cycle=r.choice([500, 2000, 5000, 20000]), store=store,
                       lport=-1 if r.random() < 0.15 else r.choice([1000, 1234, 65535]), disc=r.choice([[], why, [r.choice(why)], r.sample(why, 2)]),
                       invalid=[a for a in spots if r.random() < 0.2]))
    ns += [node("disc", False, ks[nr + i]) for i in range(no)]
    sc = Scene(g, "disc", ns)
    join(sc, range(nr), range(nr, nr + no))
    sc.settle()
    for _ in range(r.randint(2, 14)):
        k = r.random()
        if k < 0.65 and no:
            n = nr + r.randrange(no)
            x = r.random()
            if x < 0.4:
                m = {"k": "get", "version": 0, "count": r.choice([0, 1, 1000, 1001, 1200, 2000000000]) if big else r.choice([0, 1000]), "port": r.choice([-1, 0, 1, 4000, 65535])}
            elif x < 0.9:
                ann = r.random() < 0.6
                c = r.choice([0, 1, 2, 9, 10, 11]) if ann else r.choice([0, 1, 3, 20])
                if big and not ann:
                    c = r.choice([1000, 1001])
                items = [[r.choice(GLOBAL + PRIVATE + NONE) for _ in range(r.choice([0, 1, 1, 1, 2, 3]) if r.random() < 0.95 else 4)] for _ in range(c)]
                m = {"k": "nodes", "ann": ann, "items": items}
            else:
                m = {"k": "raw", "how": r.choice(["short", "cut", "tail", "odd", "choice", "address", "flag", "x"])}
            sc.op(op="put", n=n, s=sc.sid(n), m=m)
        elif k < 0.72:
            trouble(sc, False)
        elif k < 0.78:
            sc.settle()
        else:
            sc.op(op="sleep", ms=r.choice([50, 500, 1000, 2000, 3000, 7000]))
        sc.pause(50, 500, 1000, 3000)
    return sc.done()


MAKE = {"A01": ping, "A02": identify, "A03": discovery}
MODELS = {"A01": ["ping", "honest"], "A02": ["id", "idstop", "plain"], "A03": ["disc", "disc1"]}
DEEP = {"A01": ["ping_big"], "A02": ["id_big"], "A03": ["disc_big"]}
MEANS = {"/g": GLOBAL[0], "/p": PRIVATE[1], "/x": NONE[1]}


def real(x):
    if isinstance(x, list):
        return [real(y) for y in x]
    return MEANS.get(x, x)


def simulated(g, model, num, seed):
    """Programs made of what peers and network do in behaviours of AppsMC.tla."""
    text = open(os.path.join(core.SPEC, "Apps_%s.cfg" % model)).read()
    c = dict(re.findall(r'(\w+) = "?(\w+)', text))
    cfg = os.path.join(core.WORK, "AppsSim-%s-%d.cfg" % (model, os.getpid()))
    with open(cfg, "w") as fh:
        text = text.replace("EMIT = FALSE", "EMIT = TRUE").replace("VIEW View\n", "").replace("Settled", "Settled Emit")
        fh.write(re.sub("LIMIT = \\d+", "LIMIT = 9", re.sub("LEFT = \\d+", "LEFT = 7", text)))
    rc, out = core.tlc("AppsMC", cfg, workers=1, args=["-simulate", "num=%d" % num, "-depth", "90", "-seed", str(seed)])
    os.unlink(cfg)
    progs = sorted(set(re.findall(r'<<"PROG", "(.*)">>', out)))
    if rc != 0 or not progs:
        raise core.ToolError("simulation of AppsMC failed:\n" + out[-3000:])
    kind, peers, plain = c["KIND"], int(c["PEERS"]), c["PLAIN"] == "TRUE"
    why = ["dup", "timeout", "invalid", "many", "dupget", "dupnodes", "items"] if c["STOPS"] == "TRUE" else []
    res = []
    for m in g.r.sample(progs, min(len(progs), 2 * num)):
        ns = [node(kind, n == 0, -1 if plain else n, interval=1000, timeout=2000, listens=real(["/g", "/p", "/x"]), id="me", disc=why,
                   store=real(["/g"]), cycle=2000) for n in range(peers + 1)]
        sc = Scene(g, kind, ns)
        for p in range(1, peers + 1):
            sc.dial(*((1, 0) if p == 1 else (0, p)))
        if g.r.random() < 0.8:
            sc.settle()
        for o in json.loads(m.replace('\\"', '"')):
            if o["op"] == "run":
                o["k"] = g.r.choice([0, 1, 5, 20])
            elif o["op"] == "cut":
                o["c"] -= 1
            elif o["op"] == "put":
                o["m"] = {k: v if k == "k" else real(v) for k, v in o["m"].items()}
                if o["m"]["k"] == "pong" and o["m"]["x"] != "7":
                    o["m"]["x"] = "last"
                elif o["m"]["k"] == "raw":
                    o["m"]["how"] = g.r.choice(["short", "cut", "tail", "odd"])
            sc.ops.append(o)
        res.append(sc.done())
    return res


def run(prop, tier, seed):
    binary = core.build("px", cfg_verif=True)
    g = Gen(seed, prop)
    cov = core.Coverage()
    quick = tier == "quick"
    ps = [MAKE[prop](g) for _ in range(1600 if quick else 12000)]
    for m in MODELS[prop] + ([] if quick else DEEP[prop]):
        cov.model(core.model_check("AppsMC", "Apps_%s.cfg" % m, timeout=800 if quick else 3600, mem="6g" if quick else "16g", partial=m in DEEP[prop]))
        ps += simulated(g, m, 60 if quick else 600, seed)
    crashes = []
    lines = core.run_harness(binary, "run", ps, prop, crashes=crashes)
    byid = {p["id"]: p for p in ps}
    rej, gs, ds = core.validate("AppsTrace", "AppsTrace.cfg", lines, timeout=6000)
    cov.traces(lines, gs, ds)
    viol = [core.trace_violation("AppsTrace", "AppsTrace.cfg", lines[i], byid) for i in rej[:5]]
    viol += [core.crash_violation(c) for c in crashes[:3]]
    return core.Result(cov, viol, len(rej) + len(crashes))
