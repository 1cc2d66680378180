"""Handshake and encrypted stream: programs for harness/sx (molecule) and harness/sxf (flatbuffers)."""
import itertools, json, os, random, re
import core

AG = ["P-256", "P-384", "X25519"]
CI = ["AES-128-GCM", "AES-256-GCM", "CHACHA20_POLY1305"]
DI = ["SHA256", "SHA512"]


class Gen:
    def __init__(self, seed, name):
        self.r = random.Random("%s/%s" % (seed, name))
        self.n = 0

    def prog(self, ops):
        self.n += 1
        return {"id": "s-%d" % self.n, "seed": self.r.randrange(1 << 40), "ops": ops}


def lists(xs):
    return [list(p) for k in range(1, len(xs) + 1) for c in itertools.combinations(xs, k) for p in itertools.permutations(c)]


def prefs(r, same=None):
    """Offered algorithms; now and then the defaults."""
    d = {}
    for k, xs in (("ag", AG), ("ci", CI), ("di", DI)):
        if r.random() < .6:
            d[k] = r.choice(lists(xs))
    # the slowest agreement is rarely alone
    if d.get("ag") == ["P-384"] and r.random() < .7:
        d.pop("ag")
    return d


def start(r, key, chunk=None, **kw):
    return dict({"op": "start", "key": key, "chunk": r.choice([0, 0, r.randrange(1, 1 << 30)]) if chunk is None else chunk}, **kw)


def relays(a=1, b=2, n=3):
    """Both ways until both are through."""
    return [{"op": "relay", "from": x, "to": y} for _ in range(n) for x, y in ((a, b), (b, a))]


def meet(r, k1=1, k2=2, a=1, **kw):
    return [start(r, k1, **kw), start(r, k2, **kw)] + relays(a, a + 1)


def small_talk(r, a=1, b=2):
    ops = []
    for x, y in ((a, b), (b, a)):
        ops += [{"op": "write", "r": x, "n": r.randrange(1, 60)}, {"op": "flush", "r": x}, {"op": "relay", "from": x, "to": y}, {"op": "drain", "r": y, "n": r.choice([1, 7, 64])}]
    return ops


def agree(g, n):
    """Honest pairs: every pair of preference lists per category, then mixtures."""
    r = g.r
    out = []
    cats = [(k, x, y) for k, xs in (("ag", AG), ("ci", CI), ("di", DI)) for x in lists(xs) for y in lists(xs)]
    r.shuffle(cats)
    for k, x, y in cats[:n]:
        a, b = start(r, 1), start(r, 2)
        a[k], b[k] = x, y
        out.append(g.prog([a, b] + relays() + small_talk(r)))
    while len(out) < n:
        ops = [dict(start(r, r.choice([1, 1, 1, 2])), **prefs(r)), dict(start(r, r.choice([2, 2, 3])), **prefs(r))]
        if r.random() < .2:
            ops[r.randrange(2)]["room"] = r.randrange(0, 400)
            ops += relays() + [{"op": "room", "r": 1}, {"op": "room", "r": 2}]
        ops += relays(n=r.choice([2, 3])) + small_talk(r)
        if r.random() < .1:
            ops.insert(r.randrange(2, len(ops)), {"op": "eof", "to": r.choice([1, 2])})
        out.append(g.prog(ops))
    return out


def alter(r, run, f):
    """The frame with something changed."""
    kind = r.choice(["flip", "flip", "flip", "cut", "ext", "ins", "behead", "mix", "key", "name", "set"])
    m = {"m": kind, "at": r.randrange(400), "x": r.randrange(256)}
    if kind == "flip":
        m["x"] = r.choice([1, 2, 4, 8, 16, 32, 64, 128, 255])
    if kind == "mix":
        m["r"], m["f"] = r.randrange(1, 4), f
    if kind == "key":
        m["x"] = r.choice([1, 2, 3, 8, 9])
    if kind == "name":
        m["a"], m["b"] = r.choice([("P-256", "P-384"), ("P-384", "P-256"), ("SHA256", "SHA512"), ("SHA512", "SHA256"), ("AES-128", "AES-256"), ("P-256,P-384", "P-384,P-256"),
                                   ("AES-128-GCM,AES-256-GCM", "AES-256-GCM,AES-128-GCM"), ("P-256", "P-255"), ("AES-256-GCM", "AES-128-GCM"), ("SHA256,SHA512", "SHA512,SHA256"), (",", ";")])
    return {"k": "bad", "r": run, "f": f, "mods": [m]}


def persona(r, m, to):
    return {"k": "prop", "m": m, "key": r.choice([8, 8, 8, 9, 1, 2]), "form": r.choice(["c", "c", "c", "u", "h"]), "nonce": r.choice([0, 0, 0, 1, 2]),
            "ag": r.choice(AG), "ci": r.choice(CI), "di": r.choice(DI)}


def forged(r, m, p, to):
    """Exchange and echo of somebody with keys of their own, often right."""
    x = {"k": "exch", "m": m, "sign": p["key"] if p["key"] >= 8 else 8, "b": to, "swap": 0, "epub": 0, "signed": 0, "alg": p["ag"]}
    y = {"k": "enc", "m": m, "wrong": 0, "swap": 0}
    c = r.random()
    if c < .1:
        x["sign"] = r.choice([8, 9])
    elif c < .2:
        x["swap"] = 1
    elif c < .3:
        x["b"] = r.choice([1, 2])
    elif c < .4:
        x["epub"] = r.choice([1, 2])
    elif c < .5:
        x["epub"], x["signed"] = r.choice([1, 2]), 1
    elif c < .57:
        x["alg"] = r.choice(AG)
    elif c < .64:
        y["wrong"] = 1
    elif c < .71:
        y["swap"] = 1
    return x, y


def attack(g, n, flat=False):
    """Several runs of two or three identities; somebody decides who gets what."""
    r = g.r
    out = []
    for _ in range(n):
        k = r.choice([2, 2, 3, 3, 4])
        keys = [r.choice([1, 2, 2, 3]) for _ in range(k)]
        pr = [prefs(r) if r.random() < .3 else {} for _ in range(k)]
        ops = [dict(start(r, key), **p) for key, p in zip(keys, pr)]
        m = 0
        kind = r.random()
        if kind < .35 and not flat:
            # somebody with keys of their own meets a run, maybe in the name of another
            for _ in range(r.choice([1, 1, 2])):
                to = r.randrange(1, k + 1)
                m += 1
                p = persona(r, m, to)
                x, y = forged(r, m, p, to)
                ts = [p, x, y]
                if r.random() < .15:
                    ts[r.randrange(3)] = {"k": "copy", "r": r.randrange(1, k + 1), "f": r.randrange(1, 4)}
                ops += [{"op": "give", "to": to, "t": t} for t in ts]
        elif kind < .8:
            # a relay with one or two deviations
            a, b = r.sample(range(1, k + 1), 2)
            dev = {(r.choice([a, b]), r.randrange(1, 4)) for _ in range(r.choice([1, 1, 2]))}
            for f in (1, 2, 3):
                for x, y in r.sample([(a, b), (b, a)], 2):
                    t = {"k": "copy", "r": x, "f": f}
                    if (y, f) in dev:
                        c = r.random()
                        if c < .5:
                            t = alter(r, x, f)
                        elif c < .85:
                            t = {"k": "copy", "r": r.randrange(1, k + 1), "f": r.choice([f, f, f, 1, 2, 3])}
                        else:
                            t = {"k": "junk", "n": r.randrange(0, 200), "x": r.randrange(1 << 30)}
                    ops.append({"op": "give", "to": y, "t": t})
        else:
            # anything to anybody
            for _ in range(r.randrange(4, 14)):
                to = r.randrange(1, k + 1)
                fr = r.randrange(1, k + 1)
                f = r.choice([1, 1, 2, 2, 3])
                ops.append({"op": "give", "to": to, "t": {"k": "copy", "r": fr, "f": f} if r.random() < .85 else alter(r, fr, f)})
        out.append(g.prog(ops))
    return out


SIZES = [0, 1, 2, 3, 15, 16, 17, 31, 32, 33, 100, 255, 256, 1000, 4096]


def stream(g, n):
    """Writes and reads of all sizes, in both directions, over any splitting."""
    r = g.r
    out = []
    for _ in range(n):
        p = {"ci": [r.choice(CI)]} if r.random() < .8 else {}
        mx = r.choice([1 << 23, 1 << 23, 1 << 20, 2048, 1024])
        ops = [dict(start(r, 1, max=mx), **p), dict(start(r, 2, max=mx), **p)] + relays()
        tight = r.random() < .3
        for _ in range(r.randrange(4, 25)):
            x = r.choice([1, 2])
            y = 3 - x
            c = r.random()
            if c < .4:
                ops.append({"op": "write", "r": x, "n": r.choice(SIZES + [mx - 17, mx - 16, mx - 15, mx, mx + 1, 3 * mx] if mx < 4096 else SIZES + [20000, 70000]), "same": int(r.random() < .2)})
            elif c < .5:
                ops.append({"op": "flush", "r": x})
            elif c < .7:
                ops.append({"op": "relay", "from": x, "to": y, "n": r.choice([1, 2, 100])})
            elif c < .92:
                ops.append({"op": "read", "r": x, "n": r.choice([0, 1, 2, 5, 16, 100, 1000, 5000, 100000])})
            elif tight:
                ops.append({"op": "room", "r": x, "n": r.choice([0, 1, 3, 4, 5, 19, 20, 21, 100, 1000])})
            else:
                ops.append({"op": "drain", "r": x, "n": r.choice([1, 13, 4096]) if r.random() < .5 else 4096})
        for x in (1, 2):
            end = "close" if r.random() < .2 else "flush"
            if end == "close" and r.random() < .7:
                # closed while what was written still waits for room
                ops += [{"op": "room", "r": x, "n": r.choice([0, 1, 10])}] + [{"op": "write", "r": x, "n": r.choice([1, 40, 3000])} for _ in range(r.randrange(1, 3))]
                ops += [{"op": "close", "r": x}, {"op": "room", "r": x, "n": r.choice([0, 1, 30])}, {"op": "close", "r": x}][:r.choice([1, 3])]
            ops += [{"op": "room", "r": x, "n": -1}, {"op": end, "r": x}]
        if r.random() < .4:
            ops.append({"op": "close", "r": 1})
        for x in (1, 2):
            ops.append({"op": "relay", "from": x, "to": 3 - x})
        if r.random() < .5:
            e = {"op": "eof", "to": r.choice([1, 2])}
            if r.random() < .3:
                e.update(t={"k": "copy", "r": 3 - e["to"], "f": 4}, n=r.randrange(1, 400))
            ops.append(e)
        for x in (1, 2):
            ops += [{"op": "drain", "r": x, "n": r.choice([7, 500, 8192])}, {"op": "read", "r": x, "n": 10}]
        out.append(g.prog(ops))
    return out


def bursts(g, k):
    """The same message so often that the counter of the cipher carries."""
    r = g.r
    return [g.prog([start(r, 1, chunk=0, ci=[c]), start(r, 2, chunk=0, ci=[c])] + relays() + [{"op": "burst", "r": r.choice([1, 2]), "k": k}]) for c in CI]


def tamper(g, n):
    """A stream with one manipulation (or two)."""
    r = g.r
    out = []
    for _ in range(n):
        p = {"ci": [r.choice(CI)]}
        other = r.random() < .4
        ops = [dict(start(r, 1), **p), dict(start(r, 2), **p)] + relays()
        if other:
            ops += [dict(start(r, r.choice([1, 3])), **p), dict(start(r, 2), **p)] + relays(3, 4)
        cnt = {1: 3, 2: 3, 3: 3, 4: 3}
        for _ in range(r.randrange(3, 10)):
            x = r.choice([1, 1, 1, 2] + ([3, 4] if other else []))
            ops.append({"op": "write", "r": x, "n": r.choice([0, 1, 5, 16, 16, 100, 300]), "same": int(r.random() < .5)})
            cnt[x] += 1
        # what 2 gets of 1's frames
        fs = [{"k": "copy", "r": 1, "f": f} for f in range(4, cnt[1] + 1)]
        for _ in range(r.choice([1, 1, 2])):
            if not fs:
                break
            i = r.randrange(len(fs))
            c = r.random()
            if c < .4:
                fs[i] = alter(r, 1, fs[i]["f"]) if fs[i]["k"] == "copy" else fs[i]
            elif c < .5:
                del fs[i]
            elif c < .6:
                fs.insert(i, dict(fs[i]))
            elif c < .7:
                j = r.randrange(len(fs))
                fs[i], fs[j] = fs[j], fs[i]
            elif c < .8:
                fs[i] = {"k": "copy", "r": 2, "f": r.randrange(3, cnt[2] + 1)}
            elif c < .9 and other:
                x = r.choice([3, 4])
                fs[i] = {"k": "copy", "r": x, "f": r.randrange(3, cnt[x] + 1)}
            elif c < .95:
                fs[i] = {"k": "junk", "n": r.randrange(0, 60), "x": r.randrange(1 << 30)}
            else:
                fs[i] = {"k": "over", "n": r.choice([1, 1 << 20]), "x": r.randrange(3)}
        for t in fs:
            ops.append({"op": "give", "to": 2, "t": t})
            if r.random() < .4:
                ops.append({"op": "read", "r": 2, "n": r.choice([1, 20, 1000])})
        if r.random() < .2:
            ops.append({"op": "eof", "to": 2, "t": {"k": "copy", "r": 1, "f": 4}, "n": r.randrange(1, 100)})
        ops += [{"op": "drain", "r": 2, "n": r.choice([3, 1000])}, {"op": "relay", "from": 2, "to": 1}, {"op": "drain", "r": 1, "n": 50}]
        out.append(g.prog(ops))
    return out


def garbage(g, n):
    """Whatever instead of the three messages; the end at any byte."""
    r = g.r
    out = []
    for k in range(n):
        ops = [start(r, 1), start(r, 2)]
        f = r.choice([1, 1, 1, 2, 2, 3])
        for q in range(1, f):
            ops += [{"op": "give", "to": y, "t": {"k": "copy", "r": x, "f": q}} for x, y in ((1, 2), (2, 1))]
        c = r.random()
        if c < .2:
            ops.append({"op": "eof", "to": 1, "t": {"k": "copy", "r": 2, "f": f}, "n": r.randrange(400)})
        elif c < .25:
            ops.append({"op": "eof", "to": 1})
        elif c < .3:
            ops.append({"op": "give", "to": 1, "t": {"k": "over", "n": r.choice([1, 1 << 20, (1 << 32) - 1 - (1 << 23)]), "x": r.randrange(5)}})
        elif c < .45:
            ops.append({"op": "give", "to": 1, "t": {"k": "junk", "n": r.choice([0, 1, 3, 4, 8, 16, 24, 100, 240, 3000]), "x": r.randrange(1 << 30)}})
        else:
            t = {"k": "bad", "r": 2, "f": f, "mods": []}
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                m = alter(r, 2, f)["mods"][0]
                # the structure is at the beginning
                if r.random() < .5:
                    m["at"] = r.randrange(64)
                t["mods"].append(m)
            ops.append({"op": "give", "to": 1, "t": t})
        ops += [{"op": "relay", "from": 2, "to": 1}, {"op": "relay", "from": 1, "to": 2}, {"op": "relay", "from": 2, "to": 1}]
        if r.random() < .5:
            ops += [{"op": "eof", "to": 1}, {"op": "eof", "to": 2}]
        out.append(g.prog(ops))
    return out


def sweep(g, f):
    """Every byte of one message changed, every length of it, in turn."""
    out = []
    for at in range(0, 330 if f == 1 else 180 if f == 2 else 32):
        for m in ({"m": "flip", "at": at, "x": 1 << (at % 8)}, {"m": "set", "at": at, "x": 255 if at % 2 else 0}, {"m": "cut", "at": at}):
            ops = [start(g.r, 1, chunk=0), start(g.r, 2, chunk=0)]
            for q in range(1, f):
                ops += [{"op": "give", "to": y, "t": {"k": "copy", "r": x, "f": q}} for x, y in ((1, 2), (2, 1))]
            ops += [{"op": "give", "to": 1, "t": {"k": "bad", "r": 2, "f": f, "mods": [m]}}, {"op": "relay", "from": 1, "to": 2}, {"op": "relay", "from": 2, "to": 1}]
            out.append(g.prog(ops))
    return out


def programs(prop, g, tier, flat):
    q = tier == "quick"
    k = 1 if q else 12
    if prop == "S01":
        return agree(g, 300 if q else 5000) + attack(g, 60 * k, flat)
    if prop == "S02":
        return attack(g, 450 * k, flat) + garbage(g, 50 * k)
    if prop == "S03":
        return stream(g, 300 * k) + bursts(g, 2000)
    if prop == "S04":
        return tamper(g, 350 * k) + stream(g, 50 * k) + bursts(g, 70000 if q else 1 << 21)
    return garbage(g, 300 * k) + (sum((g.r.sample(sweep(g, f), 60) for f in (1, 2, 3)), []) if q else sum((sweep(g, f) for f in (1, 2, 3)), []))


def simulated(g, num, seed, who, data, flat):
    """Programs made of what somebody does in behaviours of SecioMC.tla."""
    cfg = os.path.join(core.WORK, "SecioSim-%d.cfg" % os.getpid())
    with open(cfg, "w") as fh:
        fh.write("SPECIFICATION Spec\nCONSTANTS WHO = %d  FORGE = %s  ALTER = TRUE  DATA = %d  GIVES = 14  EMIT = TRUE\nCHECK_DEADLOCK FALSE\n"
                 "INVARIANTS Authentic NotSelf OnlyOne Agreed Completes Looks Faithful Emit\n" % (who, "FALSE" if flat or data else "TRUE", data))
    rc, out = core.tlc("SecioMC", cfg, workers=1, args=["-simulate", "num=%d" % num, "-depth", "46", "-seed", str(seed)])
    os.unlink(cfg)
    keys = {2: [1, 2], 3: [1, 2, 2], 4: [1, 2, 3], 5: [1, 2, 1, 2]}[who]
    ags = [["P-256", "X25519"], ["X25519", "P-256"], ["P-256"], ["X25519", "P-256"]]
    progs = []
    for m in re.finditer(r'<<"PROG", "(.*)">>', out):
        ops = json.loads(m.group(1).replace('\\"', '"'))
        for o in ops:
            if o["op"] == "give" and o["t"]["k"] == "bad":
                o["t"] = alter(g.r, o["t"]["r"], o["t"]["f"])
        progs.append(g.prog([start(g.r, k, ag=a, ci=[CI[0]], di=[DI[0]]) for k, a in zip(keys, ags)] + ops))
    if rc != 0 or not progs:
        raise core.ToolError("simulation of SecioMC failed:\n" + out[-3000:])
    return progs


MODELS = {"S01": ["Secio_pair"], "S02": ["Secio_pair", "Secio_three"], "S03": ["Secio_data"], "S04": ["Secio_data"], "S05": ["Secio_pair"]}


def known_crash(c):
    """The reader of the flatbuffers crate follows unaligned offsets, see known_findings.json."""
    return "misaligned pointer dereference" in c["message"] and "flatbuffers-" in c["message"] and "endian_scalar.rs" in c["message"]


# always part of S05
UNALIGNED = [{"op": "start", "key": 1, "chunk": 0}, {"op": "start", "key": 2, "chunk": 0},
             {"op": "give", "to": 1, "t": {"k": "bad", "r": 2, "f": 1, "mods": [{"m": "ext", "at": 36, "x": 241}]}}]


def run(prop, tier, seed):
    quick = tier == "quick"
    cov = core.Coverage()
    for m in MODELS[prop]:
        cov.model(core.model_check("SecioMC", m + ("" if quick else "_big") + ".cfg", timeout=800 if quick else 3600, mem="6g" if quick else "20g", partial=not quick))
    viol, count = [], 0
    for crate, flat in (("sx", False), ("sxf", True)):
        binary = core.build(crate, cfg_verif=True)
        g = Gen(seed, prop + crate)
        ps = []
        data = 3 if prop in ("S03", "S04") else 0
        for who in ((2,) if data else (2, 3, 4)):
            sim = simulated(g, 60 if quick else 800, seed, who, data, flat)
            cov.replayed += len(sim)
            ps += sim
        ps += programs(prop, g, tier, flat)
        if flat and prop == "S05":
            ps.append(g.prog(UNALIGNED))
        byid = {p["id"]: p for p in ps}
        crashes, known = [], []
        lines = core.run_harness(binary, "run", ps, prop, crashes=crashes, known=(known_crash, known))
        rej, gs, ds = core.validate("SecioTrace", "SecioTrace.cfg", lines, timeout=6000)
        cov.traces(lines, gs, ds)
        viol += [core.trace_violation("SecioTrace", "SecioTrace.cfg", lines[i], byid) for i in rej[:5]]
        viol += [core.crash_violation(c) for c in crashes[:3]]
        if prop == "S05":
            viol += [dict(core.crash_violation(c), signature="flatbuffers-unaligned") for c in known[:1]]
        count += len(rej) + len(crashes)
    return core.Result(cov, viol, count)
