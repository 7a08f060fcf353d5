"""C31: the programs of the other checks, each assembled again with every environment answer the caller of the assembler
does not choose turned around: contents of fresh and freed memory, of the stack, of leftover output files; and a corpus under
every combination of process environment, place, earlier outputs and repetition.

mul   : every case of the listed checks; each of its executions is repeated with other memory contents and leftover files
env   : a corpus covering every construct and output format x environment variables x own name x file modes x leftovers x memory
"""
import re
import importlib
import itertools
import os
from .. import core
from ..core import Server

HERE = os.path.dirname(os.path.abspath(__file__))
QUICK = ["C16", "C17", "C18", "C19", "C20", "C21", "C22", "C28", "C25", "C32"]
THOROUGH = ["C16", "C17", "C18", "C19", "C20", "C21", "C22", "C28", "C25", "C07", "C10", "C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C11", "C12", "C13", "C14", "C29", "C30", "C26", "C15", "C23", "C27", "C32", "C33"]
# families that take long for reasons of their own (sizes, not constructs)
SKIP = {"quick": {"C25": {"size", "deep", "num", "out"}}, "thorough": {"C25": {"size", "deep"}}}
FILLS = {"quick": (0xFF, 0x41), "thorough": (0xFF, 0x41, 0x00, 0x01, 0x80, 0x22)}


def module(cid):
    return importlib.import_module("mc.checks." + next(f for f in sorted(os.listdir(HERE)) if f.startswith(cid.lower() + "_"))[:-3]).CHECK


# the folder of the server: a listing names included files by their full path
SCRATCH = re.compile(rb"/(?:dev/shm|tmp)/mc\.\w+/")


def seen(r):
    """everything a caller can observe, except the measured time"""
    return r.timed, r.status, r.signal, "\n".join(l for l in r.out.split("\n") if "Assembly time" not in l), {n: SCRATCH.sub(b"", d) for n, d in r.files.items()}


class Stop(Exception):
    pass


class Multiplier:
    """what the other check sees as its context: runs each program several times"""

    def __init__(self, ctx, fills):
        self.ctx, self.fills, self.bad, self.n = ctx, fills, None, 0
        self.log = None
        self.evaluations = self.traces = 0
        self.slow = ctx.slow
        self.outcomes, self.states, self.transitions, self.counters, self.samples = set(), set(), set(), {}, []

    def asm(self, src, *opts, **kw):
        files = {"a.asm": src}
        files.update(kw.pop("files", {}))
        return self.exec(["-N"] + list(opts) + ["a.asm", kw.pop("out", "a.bin")], files, **kw)

    def exec(self, args, files, variant="plain", timeout=4000, **kw):
        if kw.get("fill", -1) != -1 or kw.get("faults") is not None or kw.get("fsize", -1) != -1:
            return self.ctx.exec(args, files, variant="plain", timeout=timeout, **kw)
        base = self.ctx.exec(args, files, timeout=timeout, **kw)
        self.ctx.traces += 1
        if base.timed:
            return base
        want = seen(base)
        self.ctx.outcome(base.status, base.signal, len(base.out), sorted(base.files))
        text = None
        for k, f in enumerate(self.fills):
            given, modes = files, dict(kw.get("modes") or {})
            if k == 0 and base.files:
                # what an earlier run may have left
                if text is None:
                    text = "\0".join(v if isinstance(v, str) else v.decode("latin-1") for v in files.values())
                given = dict(files)
                for n, d in base.files.items():
                    # a file that the sources name may be read or appended to
                    if n in files or n in text or os.path.basename(n) in text or ">>" in text:
                        continue
                    given[n] = b"left over " * (len(d) // 10 + 3)
                    modes[n] = 0o10644
            r = self.ctx.exec(args, given, timeout=timeout, fill=f, **dict(kw, modes=modes))
            self.n += 1
            if seen(r) != want and not self.bad:
                # is it the memory or the leftovers?  (and not a time limit)
                if r.timed:
                    continue
                r2 = self.ctx.exec(args, files, timeout=timeout, fill=f, **kw)
                what = "contents of uninitialised memory (%#x)" % f if seen(r2) != want else "files of an earlier run" if given is not files else "nothing at all"
                src = files.get("a.asm", "")
                self.bad = "the result depends on %s: %s instead of %s: %s: %r" % (what, r.brief()[:300], base.brief()[:300], " ".join(str(a) for a in args), (src if len(src) < 800 else src[:400] + " ... " + src[-300:]))
        return base

    def outcome(self, *x):
        pass

    state = transition = count = outcome


SRC = {
    "all": """#include "i.inc"
#define K 5
#macro mm(a,b)
; body
 .db a,b
m_a:
#endmacro
 .org $9D93
start: ld hl,fw
_ jr -_
 mm(K,fw&255)
 mm(1,2)
 .db "text\\n",'a',fw&255
 .block 7
 .fill 3,$11
 .dw fw,$
 .dl fw
 wr(" .db ",K)
 run()
#import "d.dat"
#if K=5
 set 3,(ix+K)
#else
 foo
#endif
 .addinstr XX * 77 2 NOP 1
 xx 9
 .echo "v",K,fw
 .list
 .nolist
 bit 1,(iy-1)
 .list
eq = 7
eq2 .equ K-1
fw: nop
 .end
""",
    "warn": " .db 300\n ld a,1000\nx = 1\nx = 2\n jr $+5\n .dw x\n", "err": " nop\n foo\n ld a,(nope\n#if\n .db 1,\n", "late": " .dw nope\n ld a,nope\n jp nope\n", "empty": "", "fatal": "#include \"none.inc\"\n nop\n",
    "app": " .db $BB,$6D\n .db 1,2,3\n", "bmp": "#include \"b.bmp\"\n", "org": " .org 5\n nop\n .org 100\n nop\n .org 50\n ret\n", "big": " .fill 20000,1\n",
}
BMP = bytes.fromhex("424d4600000000000000360000002800000002000000020000000100180000000000100000000000000000000000000000000000000000ffffff0000000000ffffff0000")
INC = {"i.inc": "#define II 3\nlab_i:\n .db II\n", "d.dat": bytes(range(40)), "b.bmp": BMP}
OUTS = ["a.bin", "a.8xp", "a.82p", "a.83p", "a.8xk", "a.73p", "a.85p", "a.86p", "a.8xv", "a.hex", "a.xyz"]
MODES = [[], ["-T"], ["-L"], ["-T", "-L"], ["-C"], ["-A"], ["-E"], ["-O"], ["-E", "-T", "-L"], ["-N"], ["-S"], ["-DK2=1"], ["-I."], ["-O", "-T"], ["-P"]]
ENVS = [{}, {"LC_ALL": "C.UTF-8", "LANG": "de_DE.UTF-8"}, {"TZ": "Asia/Tokyo", "HOME": "/", "TERM": "xterm"}, {"SPASM": "1", "SPASM_INCLUDE": ".", "INCLUDE": ".", "CPATH": "/usr/include", "TMPDIR": "/nonexistent"}, {("X%d" % i): "y" * 1000 for i in range(30)},
        {"LC_ALL": "tr_TR.UTF-8", "COLUMNS": "20", "POSIXLY_CORRECT": "1", "MALLOC_ARENA_MAX": "1"}]


class Determinism(core.Check):
    id = "C31"
    level = "exploration"
    rule = ("every execution of the quick cases of %d (thorough: %d) other checks, repeated with memory filled with %s (thorough: %s) and with leftover files under the names of all its outputs; %d programs x %d formats x %d option sets x %d environments x own name x leftovers"
            ) % (len(QUICK), len(THOROUGH), FILLS["quick"], FILLS["thorough"], len(SRC), len(OUTS), len(MODES), len(ENVS))
    assumptions = ["the first execution runs with memory as the system hands it out (a fresh process)", "a file that a program names itself (append, import) is an input"]

    def bounds(self, tier):
        return {"memory contents": len(FILLS[tier]) + 1, "checks": len(QUICK if tier == "quick" else THOROUGH)}

    def cases(self, tier):
        for s in SRC:
            for e in range(len(ENVS)):
                yield ["env", s, e]
        for cid in QUICK if tier == "quick" else THOROUGH:
            for case in module(cid).cases("quick"):
                fam = case[0] if isinstance(case, list) and case else None
                if fam in SKIP[tier].get(cid, ()):
                    continue
                yield ["mul", cid, tier, case]

    def run(self, case, ctx):
        return getattr(self, "f_" + case[0])(ctx, *case[1:])

    def sample(self, case):
        return case if len(str(case)) < 300 else str(case)[:300]

    def f_mul(self, ctx, cid, tier, case):
        m = Multiplier(ctx, FILLS[tier])
        try:
            module(cid).run(case, m)
        except Exception:
            # only its executions matter here
            if not m.n:
                raise
        ctx.state((cid, str(case)))
        ctx.count("programs", m.n // len(FILLS[tier]))
        return m.bad and "(%s) %s" % (cid, m.bad)

    def f_env(self, ctx, s, e):
        server = Server(ctx.server("plain").exe, ENVS[e])
        try:
            for out, opts in itertools.product(OUTS, MODES):
                args = ["spasm", "-N"] + opts + ["a.asm", out]
                files = dict(INC, **{"a.asm": SRC[s]})
                base = ctx.exec(args[1:], files)
                want = seen(base)
                ctx.traces += 1
                ctx.outcome(s, tuple(opts), out, base.status)
                left = {n: b"left over " * (len(d) // 10 + 20) for n, d in base.files.items() if n not in files}
                tries = [(args, files, {}), (["/usr/local/bin/a name with blanks"] + args[1:], files, {}), (args, dict(files, **left), {n: 0o10666 for n in left}), (args, dict(files, **{n: b"" for n in left}), {n: 0o10600 for n in left}),
                         (args, dict(files, **{"a.lst.bak": "x", "z.txt": "y"}), {n: 0o444 for n in files})]
                for k, (a, f, modes) in enumerate(tries):
                    for fill in (-1, 0x5A) if k in (0, 2) else (-1,):
                        ctx.evaluations += 1
                        r = server.request(a, f, 8000, fill=fill, modes=modes)
                        ctx.transition((s, e, out, tuple(opts), k, fill))
                        if r.timed or base.timed:
                            continue
                        if seen(r) != want:
                            return "%s %s -> %s: in another environment (%d.%d.%s) %s instead of %s" % (s, opts, out, e, k, fill, r.brief()[:400], base.brief()[:400])
        finally:
            server.stop()
        return None


CHECK = Determinism()
