"""Workloads and checks for addresses and peer identities: M01, M02, P01."""
import hashlib, itertools, json, random, re
import core

B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
NAMES = ["", "a", "localhost", "a.b-c.example.org", "é", "日本", "tcp", "ws", "x" * 127, "y" * 128, "z" * 200, " ", "%2f", "..", "a\x00b", "𝒳"]


def base58(b):
    n, s = int.from_bytes(b, "big"), ""
    while n:
        n, r = divmod(n, 58)
        s = B58[r] + s
    return "1" * (len(b) - len(b.lstrip(b"\0"))) + s


def ip6text(b):
    """Canonical text of an IPv6 address."""
    if b[:12] == bytes(10) + b"\xff\xff":
        return "::ffff:" + ".".join(map(str, b[12:]))
    g = [b[i] * 256 + b[i + 1] for i in range(0, 16, 2)]
    best = (0, 0)
    i = 0
    while i < 8:
        j = i
        while j < 8 and g[j] == 0:
            j += 1
        if j - i > best[1]:
            best = (i, j - i)
        i = max(j, i + 1)
    h = ["%x" % x for x in g]
    if best[1] < 2:
        return ":".join(h)
    return ":".join(h[:best[0]]) + "::" + ":".join(h[best[0] + best[1]:])


# secp256k1, to know a public key independently of the library
P = 2**256 - 2**32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)


def add(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0:
            return None
        m = 3 * a[0] * a[0] * pow(2 * a[1], -1, P)
    else:
        m = (b[1] - a[1]) * pow(b[0] - a[0], -1, P)
    x = (m * m - a[0] - b[0]) % P
    return x, (m * (a[0] - x) - a[1]) % P


def public(k):
    r, q = None, G
    while k:
        if k & 1:
            r = add(r, q)
        q = add(q, q)
        k >>= 1
    return r


class Gen:
    def __init__(self, seed, name):
        self.r = random.Random("%s/%s" % (seed, name))
        self.name, self.n = name, 0
        self.ids = [b"\x12\x20" + bytes(self.r.randrange(256) for _ in range(32)) for _ in range(6)]
        self.ids += [b"\x12\x20" + bytes(32), b"\x12\x20" + b"\xff" * 32]

    def ip4(self):
        r = self.r
        return r.choice([bytes(r.randrange(256) for _ in range(4)), bytes([127, 0, 0, 1]), bytes(4), b"\xff" * 4])

    def ip6(self):
        r = self.r
        k = r.randrange(6)
        if k == 0:
            return bytes(r.randrange(256) for _ in range(16))
        if k == 1:
            return bytes(10) + b"\xff\xff" + self.ip4()
        if k == 2:
            return bytes(12) + self.ip4()
        if k == 3:
            return bytes(16)
        return bytes(0 if r.random() < 0.6 else r.randrange(256) for _ in range(16))

    def comp(self, slash=0.03):
        r = self.r
        p = r.choice(["ip4", "ip4", "ip6", "ip6", "tcp", "tcp", "tcp", "dns4", "dns6", "tls", "p2p", "p2p", "ws", "wss"])
        if p == "ip4":
            v = self.ip4()
        elif p == "ip6":
            v = self.ip6()
        elif p == "tcp":
            v = r.choice([0, 1, 79, 80, 255, 256, 8080, 65535, r.randrange(65536)]).to_bytes(2, "big")
        elif p == "p2p":
            v = r.choice(self.ids)
        elif p in ("ws", "wss"):
            v = b""
        else:
            v = r.choice(["a/b", "/", "x/tcp/80"]).encode() if r.random() < slash else r.choice(NAMES).encode()
        return {"p": p, "v": list(v)}

    def comps(self, lo=0, hi=7):
        return [self.comp() for _ in range(self.r.randint(lo, hi))]

    def prog(self, ops, leaf=()):
        """A program with the text forms of all IPv6 addresses and identities in it."""
        self.n += 1
        tab = {}
        for k, t, v in leaf:
            tab.setdefault((k, t), (v, False))

        def walk(x):
            if isinstance(x, dict):
                if x.get("p") == "ip6":
                    tab[("ip6", ip6text(bytes(x["v"])))] = (bytes(x["v"]), True)
                elif x.get("p") == "p2p":
                    tab[("p2p", base58(bytes(x["v"])))] = (bytes(x["v"]), True)
                for y in x.values():
                    walk(y)
            elif isinstance(x, list):
                for y in x:
                    walk(y)
        walk(ops)
        for o in ops:
            o.pop("_", None)
        return {"id": "%s-%d" % (self.name, self.n), "ops": ops,
                "leaf": [{"k": k, "t": list(t.encode()), "v": list(v), "c": c} for (k, t), (v, c) in tab.items()]}


def varint(n):
    out = b""
    while n > 127:
        out += bytes([n % 128 + 128])
        n //= 128
    return out + bytes([n])


CODE = {"ip4": 4, "tcp": 6, "ip6": 41, "dns4": 54, "dns6": 55, "p2p": 421, "tls": 448, "ws": 477, "wss": 478}


def enc(c, num=varint):
    v = bytes(c["v"])
    return num(CODE[c["p"]]) + (num(len(v)) if c["p"] in ("dns4", "dns6", "tls", "p2p") else b"") + v


def m01(g, n, lists):
    """Every list of the model and random ones, built in different ways, then edited."""
    r, progs = g.r, []
    pool = [l for l in lists] + [g.comps() for _ in range(n)]
    ops = []
    for cs in pool:
        ops.append({"e": "new", "via": r.choice(["iter", "from", "borrow", "push"]), "cs": cs})
        for _ in range(r.randint(0, 4)):
            k = r.randrange(4)
            if k == 0:
                ops.append({"e": "push", "c": g.comp()})
            elif k == 1:
                ops.append({"e": "pop"})
            else:
                ops.append({"e": "replace", "at": r.randint(0, max(1, len(cs))), "c": [g.comp()] if r.random() < 0.85 else []})
        if r.random() < 0.1:
            ops += [{"e": "pop"} for _ in range(len(cs) + 4)]
        if len(ops) > 60:
            progs.append(g.prog(ops))
            ops = []
    if ops:
        progs.append(g.prog(ops))
    return progs


def m02(g, n, lists):
    r, progs = g.r, []
    strings = []
    # all short strings over an alphabet of interesting bytes
    alpha = [0, 1, 2, 4, 6, 47, 54, 97, 128, 132, 169, 195]
    for k in range(0, 4):
        strings += [bytes(t) for t in itertools.product(alpha, repeat=k)]

    def odd(x):
        """A number in a form that is not the shortest, or beyond the range."""
        k = r.randrange(6)
        if k == 0:
            b = bytearray(varint(x))
            b[-1] |= 128
            return bytes(b) + b"\0" * r.randint(1, 3)
        if k == 1:
            b = bytearray(varint(x)) + bytes(r.choice([1, 3, 4]))
            for i in range(len(b) - 1):
                b[i] |= 128
            b[-1] = r.choice([0, 0x10, 0x7f])
            return bytes(b)
        if k == 2:
            return varint(x + (1 << r.choice([16, 28, 32, 35, 62, 63, 64])))
        if k == 3:
            return b"\xff" * r.randint(1, 11) + bytes([r.choice([0, 1, 127])])
        return varint(x)

    for _ in range(n):
        cs = g.comps(1, 4)
        b = b"".join(enc(c) for c in cs)
        k = r.randrange(8)
        if k == 0:
            b = b[:r.randrange(len(b) + 1)]
        elif k == 1 and b:
            b = bytearray(b)
            for _ in range(r.randint(1, 2)):
                b[r.randrange(len(b))] = r.choice([0, 1, 4, 6, 127, 128, 255, r.randrange(256)])
            b = bytes(b)
        elif k == 2:
            i = r.randrange(len(b) + 1)
            b = b[:i] + bytes([r.randrange(256)]) + b[i:]
        elif k == 3 and b:
            i = r.randrange(len(b))
            b = b[:i] + b[i + 1:]
        elif k in (4, 5):
            b = b"".join(enc(c, odd) for c in cs)
        elif k == 6:
            v = bytearray(r.choice(g.ids))
            m = r.randrange(6)
            v = [v[:r.randrange(35)], v + b"\0", b"\x92\x00" + v[1:], b"\x92\x80\x00" + v[1:], b"\x11" + v[1:], v[:1] + b"\x1f" + v[2:]][m]
            b += varint(421) + varint(len(v)) + bytes(v)
        elif k == 7:
            v = r.choice([b"\xff", b"\xc3", b"a\xc3\xa9", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80", b"\xe2\x82", b"\xf0\x9f\x92\xa9", b"\xe0\x9f\xbf", b"\xef\xbf\xbf"])
            b += varint(r.choice([54, 55, 448])) + varint(len(v)) + v
        strings.append(b)
    for i in range(0, len(strings), 100):
        progs.append(g.prog([{"e": "bytes", "b": list(b)} for b in strings[i:i + 100]]))
    # texts
    good6 = [b"\0" * 15 + b"\1", b"\x20\x01\x0d\xb8" + b"\0" * 11 + b"\5"]
    leaf = [("ip6", "::1", good6[0]), ("ip6", "0:0:0:0:0:0:0:1", good6[0]), ("ip6", "::0001", good6[0]), ("ip6", "::0.0.0.1", good6[0]),
            ("ip6", "2001:DB8::5", good6[1]), ("ip6", "2001:0db8:0000::0:5", good6[1])]
    leaf += [("p2p", base58(i), i) for i in g.ids]
    bad = [base58(b"\x11\x20" + bytes(32)), base58(b"\x12\x20" + bytes(31)), base58(b"\x12\x20" + bytes(33)), base58(b"\x12\x1f" + bytes(32)),
           base58(b"\x92\x00\x20" + bytes(32)), "Qm0", "QmO", "l", "1", base58(g.ids[0])[:-1], base58(g.ids[0]) + "1", " " + base58(g.ids[0])]
    words = ["ip4", "ip6", "tcp", "dns4", "dns6", "tls", "p2p", "ws", "wss"]
    values = ["127.0.0.1", "0.0.0.0", "255.255.255.255", "256.0.0.1", "1.2.3", "1.2.3.4.5", "01.2.3.4", "1.2.3.04", "1..2.3", "0x7f.0.0.1", "1.2.3.4 ",
              "0", "80", "65535", "65536", "+80", "-1", "0080", "00000000080", "99999999999", "8 0", "", "+", "١", "é", "a.b", "::1", "0:0:0:0:0:0:0:1", "::0001", "::0.0.0.1",
              "2001:DB8::5", "2001:0db8:0000::0:5", "::1%1", "1::2::3", ":::", "1:2:3:4:5:6:7", "00001::", "12345::", "g::", "[::1]"] + bad + [base58(i) for i in g.ids]
    fit = {"ip4": values[:11], "tcp": values[11:25], "ip6": values[26:40], "p2p": bad + [base58(i) for i in g.ids]}
    ops = []
    for _ in range(n):
        k = r.random()
        parts = []
        for _ in range(r.randint(0, 4)):
            w = r.choice(words)
            parts.append(w)
            if w not in ("ws", "wss") or r.random() < 0.05:
                parts.append(r.choice(fit[w]) if w in fit and r.random() < 0.8 else r.choice(values))
        if k < 0.15 and parts:
            del parts[r.randrange(len(parts))]
        elif k < 0.3:
            parts.insert(r.randint(0, len(parts)), r.choice(["", "udp", "TCP", "ipfs", "p2p", "tcp ", "ip", r.choice(values)]))
        t = "/".join([""] + parts)
        if 0.3 < k < 0.34:
            t = t[1:]
        elif 0.34 < k < 0.38:
            t += "/"
        ops.append({"e": "text", "b": list(t.encode())})
        if len(ops) == 100:
            progs.append(g.prog(ops, leaf))
            ops = []
    if ops:
        progs.append(g.prog(ops, leaf))
    return progs


RANGES4 = ["10.0.0.0/8", "127.0.0.0/8", "172.16.0.0/12", "192.168.0.0/16", "169.254.0.0/16", "255.255.255.255/32", "0.0.0.0/32", "192.0.2.0/24", "198.51.100.0/24",
           "203.0.113.0/24", "224.0.0.0/4", "240.0.0.0/4", "100.64.0.0/10", "198.18.0.0/15", "192.0.0.0/24", "0.0.0.0/8", "172.0.0.0/8", "192.0.0.0/8"]
RANGES6 = ["::/128", "::1/128", "fe80::/10", "fec0::/10", "fc00::/7", "2001:db8::/32", "ff00::/8", "::ffff:0:0/96", "64:ff9b::/96", "2002::/16", "2001::/16", "fe00::/9", "f000::/5"]


def p01(g, n, lists):
    import ipaddress
    r, progs = g.r, []
    # keys
    ops = []
    special = [1, 2, 3, N - 1, N - 2]
    for k in special + [r.randrange(1, N) for _ in range(11)]:
        q = public(k)
        key = bytes([2 + q[1] % 2]) + q[0].to_bytes(32, "big")
        ops.append({"e": "key", "secret": list(k.to_bytes(32, "big")), "key": list(key), "h": list(hashlib.sha256(key).digest()),
                    "long": [4] + list(q[0].to_bytes(32, "big") + q[1].to_bytes(32, "big"))})
    keyops = ops
    ids = [b"\x12\x20" + bytes(o["h"]) for o in ops] + g.ids
    progs.append(g.prog(ops))
    # identities
    ops = []
    for _ in range(n):
        v = bytearray(r.choice(ids))
        k = r.randrange(9)
        v = [v, v, v[:r.randrange(35)], v + bytes([r.randrange(256)]), b"\x92\x00" + v[1:], bytes([r.randrange(256)]) + v[1:],
             v[:1] + bytes([r.randrange(256)]) + v[2:], b"\x92\x80\x00" + v[1:], b"\x92\x80\x04" + v[1:]][k]
        ops.append({"e": "pid", "b": list(v)})
    good = [("p2p", base58(i), i) for i in ids]
    for _ in range(n // 2):
        t = base58(r.choice(ids))
        k = r.randrange(6)
        i = r.randrange(len(t))
        t = [t, t, t[:i], t[:i] + r.choice("0OIl+ é") + t[i:], "1" + t, base58(bytes(r.randrange(256) for _ in range(34)))][k]
        ops.append({"e": "pidtext", "b": list(t.encode())})
    for i in range(0, len(ops), 100):
        progs.append(g.prog(ops[i:i + 100], good))
    # socket addresses, reachability
    ops = []
    for net in [ipaddress.ip_network(x) for x in RANGES4 + RANGES6]:
        size = 4 if net.version == 4 else 16
        lo, hi = int(net[0]), int(net[-1])
        for x in {lo, hi, lo - 1, hi + 1, lo + 1, hi - 1} | {r.randint(lo, hi) for _ in range(3)}:
            if 0 <= x < 1 << (8 * size):
                ops.append({"e": "reach", "ip": list(x.to_bytes(size, "big"))})
    for s in range(256):       # every multicast scope, with all flags
        ops.append({"e": "reach", "ip": [255, s] + [r.randrange(256) for _ in range(14)]})
    for _ in range(n):
        ops.append({"e": "reach", "ip": list(r.choice([g.ip4(), g.ip6(), bytes(r.randrange(256) for _ in range(4))]))})
        ops.append({"e": "sock", "ip": list(r.choice([g.ip4(), g.ip6()])), "port": [r.randrange(256), r.randrange(256)]})
    for cs in lists + [g.comps(0, 6) for _ in range(n)]:
        ops.append({"e": "tosock", "cs": cs})
        ops.append({"e": "topeer", "cs": cs})
    for _ in range(n // 4):
        cs = g.comps(0, 5)
        for c in cs:
            if c["p"] in ("dns4", "dns6"):
                c["v"] = list(r.choice(["127.0.0.1", "10.1.2.3", "255.0.0.9"]).encode())
        if r.random() < 0.8:
            i = r.randint(0, len(cs))
            cs[i:i] = [{"p": r.choice(["dns4", "dns6"]), "v": list(b"10.9.8.7")}, {"p": "tcp", "v": [r.randrange(256), 1]}]
        ops.append({"e": "dns", "cs": cs})
    for i in range(0, len(ops), 150):
        progs.append(g.prog(ops[i:i + 150]))
    return progs


TABLE = {"M01": (m01, 500, 10000), "M02": (m02, 2500, 60000), "P01": (p01, 400, 8000)}


def run(prop, tier, seed):
    gen, nq, nt = TABLE[prop]
    binary = core.build("mx")
    g = Gen(seed, prop)
    cov = core.Coverage()
    rc, out = core.tlc("AddrMC", "AddrMC.cfg", workers=core.NCPU, mem="6g")
    if rc != 0:
        raise core.ToolError("model check of AddrMC failed:\n" + re.sub(r'<<"PROG.*\n', "", out)[-3000:])
    gs, ds = core.tlc_stats(out)
    cov.model({"module": "AddrMC", "config": "AddrMC.cfg", "generated": gs, "distinct": ds})
    lists = [json.loads(json.loads('"%s"' % m)) for m in re.findall(r'<<"PROG", "(.*)">>', out)]
    if tier != "quick":
        cov.model(core.model_check("AddrMC", "AddrMC_big.cfg", timeout=5000, mem="20g"))
    lists.sort(key=json.dumps)
    cov.replayed = len(lists)
    progs = gen(g, nq if tier == "quick" else nt, lists)
    crashes = []
    lines = core.run_harness(binary, "run", progs, prop, crashes=crashes)
    byid = {p["id"]: p for p in progs}
    rej, gs, ds = core.validate("AddrTrace", "AddrTrace.cfg", lines, timeout=3000)
    cov.traces(lines, gs, ds)
    viol = [core.trace_violation("AddrTrace", "AddrTrace.cfg", lines[i], byid) for i in rej[:5]]
    viol += [core.crash_violation(c) for c in crashes[:3]]
    return core.Result(cov, viol, len(rej) + len(crashes))
