"""Common machinery: building harnesses, running TLC, validating traces, evidence."""
import json, os, re, subprocess, sys, tempfile, time, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(ROOT, "target")
WORK = os.path.join(ROOT, "work")
REPLAYS = os.path.join(ROOT, "replays")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CP = None
NCPU = os.cpu_count() or 4


CRATES = [("yx", False), ("mx", False), ("cx", False), ("tx", True), ("txf", True), ("sx", True), ("sxf", True), ("px", True)]
LEVEL = "model_checking"
TIMEOUT = -998
EVAL = (75, 76)      # TLC could not evaluate the specification on what it was given
ASSUMPTIONS = ["TLC's verdict on the recorded traces is trusted",
               "the recorder in the harness writes down faithfully what the library did",
               "the model is exhaustive only within the constants of its configurations"]


def known_findings(prop):
    """Open findings: recorded, not repaired.  Entries marked fixed suppress nothing."""
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return [k for k in json.load(fh)["open"] if k["property"] == prop]


def matches_known(v, known):
    for k in known:
        if k.get("case") is not None and k["case"] == v.get("signature"):
            return k
    return None


class ToolError(Exception):
    pass


def classpath():
    global CP
    if CP is None:
        d = os.path.dirname(JAR)
        CP = ":".join([JAR] + sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".jar") and f != os.path.basename(JAR)))
    return CP


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def cargo_env(cfg_verif=False):
    env = dict(os.environ)
    env.pop("CARGO_TARGET_DIR", None)
    env["RUSTUP_TOOLCHAIN"] = "stable"
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_INCREMENTAL"] = "0"
    env["RUSTC_WRAPPER"] = ""
    env["CARGO_TARGET_DIR"] = TARGET
    env["RUSTFLAGS"] = "-Awarnings" + (" --cfg verif" if cfg_verif else "")
    return env


def build(crate, cfg_verif=False, features=None):
    """Builds harness/<crate> against /repo's working tree; returns the binary's path."""
    d = os.path.join(ROOT, "harness", crate)
    if crate == "cx":
        import chan
        chan.generate()
    cmd = ["cargo", "build", "--offline", "--quiet"]
    env = cargo_env(cfg_verif)
    if features:
        cmd += ["--features", features]
    if cfg_verif:
        env["CARGO_TARGET_DIR"] = TARGET + "-v"
    r = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("building harness/%s failed:\n%s" % (crate, r.stdout[-4000:]))
    return os.path.join(env["CARGO_TARGET_DIR"], "debug", crate)


def workdir(name):
    d = os.path.join(WORK, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def tlc(module, cfg=None, workers=1, env=None, args=(), timeout=800, mem="3g", metadir=None, props=(), cwd=None):
    """Runs TLC; returns (returncode, output)."""
    md = metadir or tempfile.mkdtemp(prefix="tlc", dir=WORK)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss16m", "-Djava.io.tmpdir=" + md] + ["-D" + p for p in props] + \
          ["-cp", classpath(), "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE"]
    if cfg:
        cmd += ["-config", cfg]
    cmd += list(args) + [module]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    try:
        r = subprocess.run(cmd, cwd=cwd or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        return TIMEOUT, x.stdout.decode(errors="replace") if isinstance(x.stdout, bytes) else x.stdout or ""
    finally:
        shutil.rmtree(md, ignore_errors=True)


def tlc_stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def model_check(module, cfg, workers=None, timeout=800, args=(), mem="6g", env=None, partial=False):
    """Model-checks; a violated property of the model itself is an error of the machinery.
    With `partial` the search may run out of time: what it covered until then counts."""
    rc, out = tlc(module, cfg, workers=workers or NCPU, timeout=timeout, args=args, mem=mem, env=env)
    if partial and rc == TIMEOUT and "Error:" not in out:
        gen, dist, depth = ([(int(a.replace(",", "")), int(b.replace(",", "")), int(d)) for d, a, b in
                             re.findall(r"Progress\((\d+)\).*?: ([\d,]+) states generated.*?, ([\d,]+) distinct", out)] or [(0, 0, 0)])[-1]
        return {"module": module, "config": os.path.basename(cfg), "generated": gen, "distinct": dist, "exhausted": False, "depth": depth}
    if rc != 0:
        raise ToolError("model check of %s/%s failed (rc %d):\n%s" % (module, cfg, rc, out[-3000:]))
    gen, dist = tlc_stats(out)
    return {"module": module, "config": os.path.basename(cfg), "generated": gen, "distinct": dist, "exhausted": True}


def _validate_chunk(args):
    module, cfg, lines, idx, env, timeout = args
    f = os.path.join(WORK, "chunk-%s-%d-%d.ndjson" % (module, os.getpid(), idx))
    with open(f, "w") as fh:
        fh.writelines(lines)
    e = dict(env or {})
    e["TRACES"] = f
    try:
        rc, out = tlc(module, cfg, workers=1, env=e, timeout=timeout, mem="2g")
    finally:
        os.unlink(f)
    acc = set(int(x) for x in re.findall(r'<<"ACCEPTED", (\d+)>>', out))
    if rc in EVAL:
        # a trace the specification has no meaning for is not one of its behaviours
        if len(lines) == 1:
            return set(), 0, 0
        h = len(lines) // 2
        a, ga, da = _validate_chunk((module, cfg, lines[:h], idx, env, timeout))
        b, gb, db = _validate_chunk((module, cfg, lines[h:], idx, env, timeout))
        return a | {h + x for x in b}, ga + gb, da + db
    if rc != 0 or "Error:" in out:
        raise ToolError("TLC failed on traces of %s:\n%s" % (module, out[-3000:]))
    gen, dist = tlc_stats(out)
    return acc, gen, dist


def validate(module, cfg, lines, env=None, jobs=None, timeout=800, chunk=None):
    """Evaluates recorded traces (ndjson lines); returns (rejected indices, generated, distinct)."""
    os.makedirs(WORK, exist_ok=True)
    jobs = jobs or NCPU
    n = len(lines)
    if n == 0:
        raise ToolError("no traces to validate")
    # balance the chunks by size
    k = chunk or max(1, min(jobs, n))
    order = sorted(range(n), key=lambda i: -len(lines[i]))
    buckets = [[] for _ in range(k)]
    for pos, i in enumerate(order):
        buckets[pos % k].append(i)
    work = [(module, cfg, [lines[i] for i in b], j, env, timeout) for j, b in enumerate(buckets)]
    rejected, gen, dist = [], 0, 0
    with ThreadPoolExecutor(jobs) as ex:
        for b, (acc, g, d) in zip(buckets, ex.map(_validate_chunk, work)):
            gen += g
            dist += d
            for pos, i in enumerate(b):
                if pos + 1 not in acc:
                    rejected.append(i)
    return sorted(rejected), gen, dist


def depth_of_rejection(module, cfg, line, env=None):
    """How many events of one rejected trace the specification allows."""
    f = os.path.join(WORK, "one-%s-%d.ndjson" % (module, os.getpid()))
    with open(f, "w") as fh:
        fh.write(line)
    e = dict(env or {})
    e["TRACES"] = f
    e["SHOW"] = "1"
    try:
        rc, out = tlc(module, cfg, workers=1, env=e)
    finally:
        os.unlink(f)
    at = re.findall(r'<<"AT", (\d+)>>', out)     # printed where events have hidden steps in between
    if at:
        return max(int(x) for x in at) - 1
    m = re.search(r"The depth of the complete state graph search is (\d+)", out)
    return int(m.group(1)) - 1 if m else -1


def run_harness(binary, cmd, programs, name, timeout=600, jobs=None, env=None, crashes=None, known=None):
    """Runs programs (list of dicts) through the harness in parallel processes; returns output lines.

    A program on which the process dies or hangs (the harness has a watchdog) is appended to
    `crashes` and the rest is run without it; `known` is a test for recorded ones and where they go."""
    os.makedirs(WORK, exist_ok=True)
    jobs = min(jobs or NCPU, max(1, len(programs)))

    def one(j):
        part = programs[j::jobs]
        fi = os.path.join(WORK, "%s-%d-%d.in" % (name, os.getpid(), j))
        fo = os.path.join(WORK, "%s-%d-%d.out" % (name, os.getpid(), j))
        out = []
        try:
            while part:
                with open(fi, "w") as fh:
                    for p in part:
                        fh.write(json.dumps(p) + "\n")
                e = dict(os.environ)
                e.update(env or {})
                try:
                    r = subprocess.run([binary, cmd, fi, fo], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e)
                    rc, msg = r.returncode, r.stdout[-1500:]
                except subprocess.TimeoutExpired:
                    rc, msg = -999, "timeout"
                lines = open(fo).readlines() if os.path.exists(fo) else []
                out += [l for l in lines if not l.startswith("#")]
                done = sum(1 for l in lines if l.startswith("#done"))
                if rc == 0:
                    break
                c = {"program": part[done], "rc": rc, "message": msg} if done < len(part) else None
                if c and known and known[0](c):
                    known[1].append(c)
                    part = part[done + 1:]
                    continue
                if crashes is not None and len(crashes) > 20:
                    break
                if crashes is None or done >= len(part):
                    raise ToolError("harness %s %s failed rc %d: %s" % (binary, cmd, rc, msg))
                crashes.append(c)
                part = part[done + 1:]
        finally:
            for f in (fi, fo):
                if os.path.exists(f):
                    os.unlink(f)
        return out

    out = []
    with ThreadPoolExecutor(jobs) as ex:
        for ls in ex.map(one, range(jobs)):
            out += ls
    return out


class Coverage:
    """What a run covered; every number is counted on the run."""

    def __init__(self):
        self.states = self.transitions = 0
        self.trace_states = 0
        self.models = []
        self.ntraces = self.nevents = 0
        self.kinds = {}
        self.replayed = 0
        self.samples = []
        self.extra = {}

    def model(self, m):
        self.models.append(m)
        self.states += m["distinct"]
        self.transitions += m["generated"]

    def traces(self, lines, gen, dist, count=None):
        self.ntraces += len(lines)
        self.trace_states += dist
        for l in lines:
            for ev in json.loads(l).get("ev", []):
                self.nevents += 1
                k = ev.get("e", "?")
                self.kinds[k] = self.kinds.get(k, 0) + 1
        if lines:
            self.samples.append(json.loads(min(lines, key=lambda l: abs(len(l) - 900))))

    def as_dict(self):
        d = {"states": self.states, "transitions": self.transitions,
             "traces_validated_against_impl": self.ntraces, "samples": self.samples[:2],
             "models": self.models, "trace_events": self.nevents, "trace_states": self.trace_states,
             "events_by_kind": self.kinds, "behaviours_replayed_from_specification": self.replayed}
        d.update(self.extra)
        return d


class Result:
    def __init__(self, cov, violations, count=None):
        self.cov, self.violations, self.count = cov, violations, len(violations) if count is None else count


def trace_violation(module, cfg, line, byid, env=None):
    tr = json.loads(line)
    n = depth_of_rejection(module, cfg, line, env)
    ev = tr["ev"]
    bad = ev[n] if 0 <= n < len(ev) else None
    return {"what": "trace rejected by %s at event %d: %s" % (module, n + 1, json.dumps(bad)),
            "program": byid.get(tr["id"].rsplit("/", 1)[0]), "trace": tr, "rejected_at": n + 1}


def crash_violation(c):
    return {"what": "the code under test brought the process down or never returned (rc %s)" % c["rc"], "program": c["program"], "message": c["message"]}


def write_replay(prop, content):
    os.makedirs(REPLAYS, exist_ok=True)
    p = os.path.join(REPLAYS, "%s-%s.json" % (prop, hashlib.sha1(json.dumps(content, sort_keys=True).encode()).hexdigest()[:10]))
    with open(p, "w") as fh:
        json.dump(content, fh, indent=1)
    return p


def write_evidence(prop, tier, seed, level, coverage, t0, violations=0, assumptions=()):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
          "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": violations}
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
