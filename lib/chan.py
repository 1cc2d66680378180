"""Workloads and checks for the internal queues: C01, C02."""
import json, os, random, re, shutil
import core



def generate():
    """The queue sources of the current tree, on the scheduler's primitives."""
    gen = os.path.join(core.ROOT, "harness", "cx", "src", "gen")
    with open(os.path.join(core.ROOT, "harness", "cx", "Cargo.toml")) as fh:
        m = re.search(r'repo = "(.*)"', fh.read())
    src = os.path.join(m.group(1), "tentacle/src")
    shutil.rmtree(gen, ignore_errors=True)
    for d, _, files in os.walk(os.path.join(src, "channel")):
        if "tests" in d:
            continue
        out = os.path.join(gen, os.path.relpath(d, src))
        os.makedirs(out, exist_ok=True)
        for f in files:
            convert(os.path.join(d, f), os.path.join(out, f))
    convert(os.path.join(src, "buffer.rs"), os.path.join(gen, "buffer.rs"))


def convert(a, b):
    with open(a) as fh:
        s = fh.read()
    s = re.sub(r"(?<![\w:])(::)?std::", "crate::vstd::", s)
    s = re.sub(r"(?<![\w:])(::)?core::", "crate::vstd::", s)
    with open(b, "w") as fh:
        fh.write(s)


class Gen:
    def __init__(self, seed, name):
        self.r = random.Random("%s/%s" % (seed, name))
        self.name, self.n = name, 0

    def prog(self, **kw):
        self.n += 1
        p = {"id": "%s-%d" % (self.name, self.n), "seed": self.r.randrange(1 << 40), "runs": 1, "seq": False, "order": [], "rx": [], "tx": [], "buffered": [], "plain": False}
        p.update(kw)
        p["buffered"] = p["buffered"] or [False] * len(p["tx"])
        return p


def txop(r, unb):
    k = r.random()
    p = r.choice(["hi", "lo"])
    if k < 0.45:
        return ["send", r.randrange(3), p]
    if k < 0.75:
        return ["wait", r.randrange(3), p]
    if k < 0.82:
        return ["clone", r.randrange(3)]
    if k < 0.88:
        return ["drop", r.randrange(3)]
    if k < 0.92:
        return ["len" if unb else "ready", r.randrange(3)]
    if k < 0.95:
        return ["isclosed", 0]
    if k < 0.965:
        return ["cclose", 0]
    return ["send", 0, p]


def concurrent(g, runs):
    """Several senders and the receiver on any schedule."""
    r = g.r
    unb = r.random() < 0.3
    buf = 1000 if unb else r.choice([0, 0, 1, 1, 2, 3])
    n = r.choice([1, 2, 2, 3])
    buffered = [not unb and r.random() < 0.2 for _ in range(n)]
    tx = [[txop(r, unb) for _ in range(r.randint(1, 5 if n < 3 else 3))] for _ in range(n)]
    for t in tx:
        if r.random() < 0.5:
            t.insert(r.randint(1, len(t)), ["sync", 0])
        if r.random() < 0.6:
            t.append(["sync", 0])
    rx = []
    for _ in range(r.randint(0, 6)):
        k = r.random()
        rx.append(["recv"] if k < 0.5 else ["try"] if k < 0.75 else ["poll"] if k < 0.9 else ["close"] if k < 0.96 else ["rdrop"])
    return g.prog(buf=buf, tx=tx, rx=rx, buffered=buffered, runs=runs)


def sequential(g):
    """One task plays everybody: every result is exactly determined."""
    r = g.r
    unb = r.random() < 0.25
    buf = 1000 if unb else r.choice([0, 0, 1, 1, 2, 3, 5])
    n = r.choice([1, 2, 3])
    buffered = [not unb and r.random() < 0.3 for _ in range(n)]
    order = []
    closing = r.random()
    for _ in range(r.randint(4, 30)):
        if r.random() < 0.42:
            k = r.random()
            order.append([0, "try" if k < 0.4 else "close" if k > 0.97 and closing < 0.3 else "rdrop" if k > 0.96 and closing > 0.8 else "poll"])
        else:
            w = r.randint(1, n)
            o = txop(r, unb)
            if o[0] == "wait":
                o = ["send"] + o[1:] if r.random() < 0.6 else ["ready", o[1]]
            if o[0] == "cclose" and closing < 0.8:
                continue
            order.append([w] + o)
    return g.prog(buf=buf, tx=[[] for _ in range(n)], order=order, seq=True, buffered=buffered, plain=not unb and r.random() < 0.15)


def closing(g, runs):
    """Several senders wait for room when the queue is closed, and nothing is taken after that."""
    r = g.r
    buf = r.choice([0, 0, 1, 2])
    n = r.choice([2, 3, 3])
    pr = lambda: r.choice(["hi", "lo"])
    stop = r.choice(["close", "close", "rdrop"])
    if r.random() < 0.5:
        order = []
        for w in range(1, n + 1):
            order += [[w, "send", 0, pr()] for _ in range(r.randint(1, 1 + buf))]
            if r.random() < 0.85:
                order.append([w, "ready", 0])
        for _ in range(r.choice([0, 0, 0, 1])):
            order.append([0, "try"])
        order.append([r.randint(1, n), "cclose", 0] if r.random() < 0.2 else [0, stop])
        for w in range(1, n + 1):
            order += [[w, r.choice(["send", "ready"]), 0, pr()] for _ in range(r.randint(0, 1))]
        return g.prog(buf=buf, tx=[[] for _ in range(n)], order=order, seq=True, buffered=[r.random() < 0.3 for _ in range(n)])
    tx = [[["send", 0, pr()]] + [["wait", 0, pr()] for _ in range(r.randint(1, 2))] for _ in range(n)]
    rx = [["try"] for _ in range(r.choice([0, 0, 1, 2]))] + [[stop], ["hold"]]
    return g.prog(buf=buf, tx=tx, rx=rx, runs=runs)


def progs(prop, g, n, runs):
    out = []
    for _ in range(n):
        out.append(sequential(g))
    for _ in range(n):
        out.append(concurrent(g, runs))
    for _ in range(n // 5):
        out.append(closing(g, runs))
    return out


def run(prop, tier, seed):
    binary = core.build("cx")
    g = Gen(seed, prop)
    cov = core.Coverage()
    quick = tier == "quick"
    cov.model(core.model_check("ChanMC", "Chan_0.cfg" if prop == "C01" else "Chan_1.cfg", timeout=800))
    if not quick:
        cov.model(core.model_check("ChanMC", "Chan_0_big.cfg", timeout=3600, mem="20g", partial=True))
    ps = progs(prop, g, 350 if quick else 4000, 6 if quick else 20)
    crashes = []
    lines = core.run_harness(binary, "run", ps, prop, crashes=crashes)
    byid = {p["id"]: p for p in ps}
    rej, gs, ds = core.validate("ChanTrace", "ChanTrace.cfg", lines, timeout=6000)
    cov.traces(lines, gs, ds)
    viol = [core.trace_violation("ChanTrace", "ChanTrace.cfg", lines[i], byid) for i in rej[:5]]
    viol += [core.crash_violation(c) for c in crashes[:3]]
    return core.Result(cov, viol, len(rej) + len(crashes))
