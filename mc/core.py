"""Bounded exhaustive explorer: runs the real assembler on every case of a finite, deterministically ordered space.

A check is a Python object with
    id, level, rule, assumptions
    cases(tier)        -> iterator over JSON-able cases, simplest first, deterministic
    run(case, ctx)     -> None, or a string that says how the property failed on this case
Workers split the space by index, so every case of the stated space is executed exactly once.
"""
import argparse, hashlib, json, os, shutil, struct, subprocess, sys, tempfile, time, traceback
from . import build as _build

VERIF = _build.VERIF
REPO = _build.REPO
NPROC = int(os.environ.get("MC_WORKERS", "8"))


class Result:
    __slots__ = ("timed", "status", "signal", "out", "files", "ops")

    def __init__(self, timed, st, out, files, ops=None):
        self.ops = ops
        self.timed = timed
        self.signal = st - 0x1000 if st >= 0x1000 else 0
        self.status = None if self.signal else st
        self.out = out
        self.files = files

    @property
    def crashed(self):
        return self.timed or self.signal != 0 or self.status in (97, 98, 99)

    def lines(self):
        return [l for l in self.out.replace("\r", "").split("\n") if l and not l.startswith("Assembly time")]

    def brief(self):
        s = "timeout" if self.timed else ("signal %d" % self.signal if self.signal else "exit %s" % self.status)
        return "%s, files %s, output %r" % (s, {k: v[:40].hex() for k, v in sorted(self.files.items())},
                                            "\n".join(self.lines())[:600])


def big_stack():
    """Instrumented frames are several times larger than those of the program as it is built."""
    import resource
    hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
    want = 96 << 20
    resource.setrlimit(resource.RLIMIT_STACK, (want if hard == resource.RLIM_INFINITY else min(want, hard), hard))


class Server:
    """One fork server with a private scratch directory."""

    def __init__(self, exe, env=None):
        self.exe, self.env = exe, env
        self.proc = None

    def start(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
        try:
            self.dir = tempfile.mkdtemp(prefix="mc.", dir=base)
        except OSError:
            self.dir = tempfile.mkdtemp(prefix="mc.", dir="/tmp")
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "HOME": "/nonexistent"}
        env.update(self.env or {})
        self.proc = subprocess.Popen([self.exe, self.dir], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env,
                                     preexec_fn=big_stack if "asan-" in self.exe else None)

    def stop(self):
        if self.proc:
            try:
                self.proc.stdin.close()
                self.proc.stdout.close()
                self.proc.wait(5)
            except Exception:
                self.proc.kill()
                self.proc.wait()
            shutil.rmtree(self.dir, ignore_errors=True)
            self.proc = None

    def request(self, args, files, timeout=3000, fsize=-1, fill=-1, modes=None, faults=None):
        if not self.proc:
            self.start()
        modes = modes or {}
        b = [struct.pack("<IiiI", timeout, fsize, fill, 0 if faults is None else 0x10000 + len(faults))]
        b += [struct.pack("<II", i, f) for i, f in faults or ()]
        b.append(struct.pack("<I", len(args)))
        for a in args:
            a = a.encode("latin-1") if isinstance(a, str) else a
            b.append(struct.pack("<I", len(a)) + a)
        b.append(struct.pack("<I", len(files)))
        for n, d in files.items():
            d = d.encode("latin-1") if isinstance(d, str) else d
            nb = n.encode("latin-1")
            b.append(struct.pack("<I", len(nb)) + nb + struct.pack("<II", modes.get(n, 0o644), len(d)) + d)
        body = b"".join(b)
        self.proc.stdin.write(struct.pack("<I", len(body)) + body)
        self.proc.stdin.flush()
        h = self.proc.stdout.read(4)
        if len(h) < 4:
            raise RuntimeError("execution server died")
        r = self.proc.stdout.read(struct.unpack("<I", h)[0])
        timed, st, n = struct.unpack_from("<III", r)
        p = 12
        out = r[p:p + n].decode("latin-1")
        p += n
        nf, = struct.unpack_from("<I", r, p)
        p += 4
        fs = {}
        for _ in range(nf):
            n, = struct.unpack_from("<I", r, p)
            p += 4
            name = r[p:p + n].decode("latin-1")
            p += n
            n, = struct.unpack_from("<I", r, p)
            p += 4
            fs[name] = r[p:p + n]
            p += n
        ops = None
        if faults is not None:
            n, = struct.unpack_from("<I", r, p)
            ops = r[p + 4:p + 4 + n].decode("latin-1").split("\n")[:-1]
        return Result(bool(timed & 0x10000), st, out, fs, ops)


class Ctx:
    """What run() sees: execution plus the coverage counters."""

    def __init__(self, slow=False):
        self.servers = {}
        self.slow = slow
        self.evaluations = 0
        self.outcomes = set()
        self.states = set()
        self.transitions = set()
        self.traces = 0
        self.samples = []
        self.counters = {}
        self.log = None

    def server(self, variant):
        if variant not in self.servers:
            env = None
            if variant == "asan":
                env = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:"
                                       "detect_stack_use_after_return=0:max_malloc_fill_size=0:symbolize=0:"
                                       "log_path=stderr:handle_abort=1"}
            self.servers[variant] = Server(_build.build(variant), env)
        return self.servers[variant]

    def exec(self, args, files, variant="plain", timeout=4000, **kw):
        self.evaluations += 1
        if self.slow:
            timeout *= 5
        r = self.server(variant).request(["spasm"] + list(args), files, timeout, **kw)
        if self.log is not None:
            self.log.append({"args": ["spasm"] + list(args),
                             "files": {k: (v if isinstance(v, str) else v.decode("latin-1")) for k, v in files.items()},
                             "env": {k: v for k, v in kw.items()}, "variant": variant, "result": r.brief()})
        return r

    def asm(self, src, *opts, **kw):
        """assemble a.asm -> a.bin"""
        files = {"a.asm": src}
        files.update(kw.pop("files", {}))
        return self.exec(["-N"] + list(opts) + ["a.asm", kw.pop("out", "a.bin")], files, **kw)

    def outcome(self, *x):
        self.outcomes.add(hashlib.blake2b(repr(x).encode(), digest_size=8).digest())

    def state(self, *x):
        self.states.add(hashlib.blake2b(repr(x).encode(), digest_size=8).digest())

    def transition(self, *x):
        self.transitions.add(hashlib.blake2b(repr(x).encode(), digest_size=8).digest())

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def close(self):
        for s in self.servers.values():
            s.stop()
        self.servers = {}


class Check:
    id = None
    level = "exploration"
    rule = ""
    assumptions = []
    variants = ("plain",)
    max_failures = 12

    def cases(self, tier):
        raise NotImplementedError

    def run(self, case, ctx):
        raise NotImplementedError

    def key(self, case, msg):
        """stable identification of a failing case, for the known-findings file"""
        return json.dumps(case, sort_keys=True)

    def sample(self, case):
        return case

    def extra(self, tier):
        return {}


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    try:
        with open(p) as f:
            return {k["key"]: k for k in json.load(f)["known"] if k["property"] == pid}
    except FileNotFoundError:
        return {}


def _worker(check, tier, w, nw, deadline, wfd):
    ctx = Ctx()
    fails = []
    capped = False
    done = 0
    try:
        for i, case in enumerate(check.cases(tier)):
            if i % nw != w:
                continue
            if time.time() > deadline:
                capped = True
                break
            msg = check.run(case, ctx)
            done += 1
            if w == 0 and (done & (done - 1)) == 0 and len(ctx.samples) < 14:
                ctx.samples.append(check.sample(case))
            if msg:
                fails.append((i, case, msg))
                if len(fails) >= check.max_failures:
                    capped = True
                    break
        err = None
    except BaseException:
        err = traceback.format_exc()
    ctx.close()
    import pickle
    data = pickle.dumps((err, fails, capped, done, ctx.evaluations, ctx.outcomes, ctx.states, ctx.transitions,
                         ctx.traces, ctx.samples, ctx.counters))
    with os.fdopen(wfd, "wb") as f:
        f.write(data)
    os._exit(0)


def explore(check, tier, deadline):
    import pickle
    for v in check.variants:
        _build.build(v)
    sys.stdout.flush()
    ps = []
    for w in range(NPROC):
        r, wf = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for fd, _ in ps:
                os.close(fd)
            try:
                _worker(check, tier, w, NPROC, deadline, wf)
            finally:
                os._exit(1)
        os.close(wf)
        ps.append((r, pid))
    tot = dict(fails=[], capped=False, done=0, evaluations=0, outcomes=set(), states=set(), transitions=set(),
               traces=0, samples=[], counters={})
    errs = []
    for r, pid in ps:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            errs.append("worker died")
            continue
        err, fails, capped, done, ev, oc, st, tr, traces, samples, counters = pickle.loads(data)
        if err:
            errs.append(err)
        tot["fails"] += fails
        tot["capped"] |= capped
        tot["done"] += done
        tot["evaluations"] += ev
        tot["outcomes"] |= oc
        tot["states"] |= st
        tot["transitions"] |= tr
        tot["traces"] += traces
        tot["samples"] += samples
        for k, v in counters.items():
            tot["counters"][k] = tot["counters"].get(k, 0) + v
    tot["fails"].sort(key=lambda x: x[0])
    return tot, errs


def main(check, argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay", help="re-run the case stored in this replay file")
    ap.add_argument("--limit", type=float, default=None)
    ap.add_argument("--all", action="store_true", help="collect every failure, do not write evidence")
    a = ap.parse_args(argv)
    if a.replay:
        with open(a.replay) as f:
            case = json.load(f)["case"]
        ctx = Ctx(slow=True)
        msg = check.run(case, ctx)
        ctx.close()
        print("FAILS: " + msg if msg else "passes")
        return 1 if msg else 0
    if a.all:
        check.max_failures = 10 ** 9
    tier = a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    limit = a.limit or (780 if tier == "quick" else 6 * 3600)
    tot, errs = explore(check, tier, t0 + limit)
    known = known_findings(check.id)
    hit, viol, flaky = {}, [], 0
    for i, case, msg in tot["fails"]:
        k = check.key(case, msg)
        if k in known:
            hit[k] = msg
            continue
        if len(viol) >= 3 and not a.all:
            continue
        # replay before report, in a fresh server, alone, with a longer limit
        ctx = Ctx(slow=True)
        ctx.log = []
        try:
            again = check.run(case, ctx) or check.run(case, ctx)
        finally:
            log = ctx.log
            ctx.close()
        if again:
            viol.append((i, case, again, k, log))
        else:
            flaky += 1
    if a.all:
        for i, case, msg, k, log in viol:
            print("FAIL #%d %s\n    %s" % (i, json.dumps(case)[:300], msg[:600]))
        print("done=%d fails=%d evals=%d outcomes=%d wall=%.1f" % (tot["done"], len(viol), tot["evaluations"],
                                                                 len(tot["outcomes"]), time.time() - t0))
        for e in errs[:2]:
            print(e)
        return 0
    wall = time.time() - t0
    cov = {}
    ex = (not tot["capped"]) and not errs
    if check.level == "model_checking":
        cov.update(states=len(tot["states"]), transitions=len(tot["transitions"]),
                   traces_validated_against_impl=tot["traces"], samples=tot["samples"][:12],
                   cases=tot["done"], executions=tot["evaluations"],
                   distinct_outcomes=len(tot["outcomes"]), rule=check.rule)
    else:
        cov.update(evaluations=tot["evaluations"], distinct_nontrivial=len(tot["outcomes"]), rule=check.rule,
                   samples=tot["samples"][:12], cases=tot["done"])
        if tot["states"]:
            cov["model_states"] = len(tot["states"])
    cov["exhaustive"] = bool(ex)
    if tot["counters"]:
        cov["counters"] = tot["counters"]
    cov["unreproduced_failures"] = flaky
    cov.update(check.extra(tier))
    ev = {"property": check.id, "tier": tier, "seed": seed, "level": check.level, "coverage": cov,
          "assumptions": list(check.assumptions), "wall_s": round(wall, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", check.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (check.id, known[k]["what"]))
    print("%s %s: cases=%d executions=%d outcomes=%d states=%d transitions=%d traces=%d exhaustive=%s wall=%.1fs" % (
        check.id, tier, tot["done"], tot["evaluations"], len(tot["outcomes"]), len(tot["states"]),
        len(tot["transitions"]), tot["traces"], ex, wall))
    rc = 0
    for n, (i, case, msg, k, log) in enumerate(viol):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s.json" % (check.id, hashlib.sha1(k.encode()).hexdigest()[:10]))
        with open(p, "w") as f:
            json.dump({"property": check.id, "case": case, "message": msg, "key": k, "executions": log[-6:],
                       "rerun": "python3 -m mc %s --replay %s" % (check.id, p)}, f, indent=1)
        if n == 0:
            print("VIOLATION property=%s replay=%s" % (check.id, p))
        print("  case %d: %s" % (i, msg[:1500]))
        rc = 1
    if errs and not rc:
        sys.stderr.write("\n".join(errs[:2]) + "\n")
        rc = 4
    if tot["capped"] and not rc and not viol:
        print("note: capped by time or failures before the space was exhausted")
    return rc
