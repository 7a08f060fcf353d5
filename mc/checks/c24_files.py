"""C24: exhaustive fault injection into the real assembler's file operations.

Three explored spaces:
  fault : every stdio operation (open/read/write/seek/close of every input and output) of every program configuration
          fails (or transfers one byte only), one at a time (thorough: also every pair)
  limit : the output device is full after k bytes, for every k
  path  : outputs and inputs that cannot be opened or read for real (directories, missing directories, full device)
A run that ends with status 0 must have produced exactly what the undisturbed run produces.
"""
import errno
import struct
from .. import core


def bmp(w, h, bits=1):
    row = (w * bits + 31) // 32 * 4
    pal = b"\xff\xff\xff\0\0\0\0\0" if bits == 1 else b""
    data = bytes((i * 37 + 11) & 255 for i in range(row * h))
    off = 54 + len(pal)
    return struct.pack("<2sIHHI", b"BM", off + len(data), 0, 0, off) + struct.pack("<IiiHHIIiiII", 40, w, h, 1, bits, 0, len(data), 0, 0, len(pal) // 4, 0) + pal + data


INC = {"g.inc": " nop\n .db $77\n", "n.inc": " nop\n#include \"g.inc\"\n .db 1\n", "bom.inc": "\xef\xbb\xbf .db $99\n", "e.inc": "",
       "d.bin": bytes(range(1, 41)), "b.bmp": bmp(16, 3), "c.bmp": bmp(8, 2, 24), "long.inc": "; a long comment line that fills the buffers\n" * 300 + " .db 5\n",
       "long.bin": bytes((i * 7 + 1) & 255 for i in range(9000))}
SRC = [
    ("code", " ld a,5\n .dw 1234\nl1: jp l1\n"),
    ("include", "#include \"g.inc\"\n .db 2\n"),
    ("nested", "#include \"n.inc\"\n#include \"g.inc\"\n"),
    ("bom", "#include \"bom.inc\"\n#include \"e.inc\"\n"),
    ("import", " .db 1\n#import \"d.bin\"\n .db 2\n"),
    ("getc", " .db 1,getc(\"d.bin\",2),getc(\"d.bin\",39)\n"),
    ("getcif", "#if getc(\"d.bin\",2)==3\n .db 1\n#else\n .db 2\n#endif\nx1 = getc(\"d.bin\",3)\n .db x1,late\nlate = getc(\"d.bin\",4)\n"),
    ("bitmap", "pic:\n#include \"b.bmp\"\n .db pic_width\n"),
    ("bitmap24", "#include \"c.bmp\"\n"),
    ("echo", " .echo > \"x.txt\" \"hello\",5\n .echo >> \"x.txt\" \" more\"\n .db 1\n"),
    ("macro", "#macro m1(f)\n; body\n#include \"g.inc\"\n#import \"d.bin\"\n .echo >> \"y.txt\" \"in macro\"\n#endmacro\n m1(1)\n m1(2)\n"),
    ("longinc", "#include \"long.inc\"\n .db 1\n"),
    ("longimp", "#import \"long.bin\"\n .db 1\n"),
    ("all", "#include \"n.inc\"\n#import \"d.bin\"\n .db getc(\"d.bin\",5),late2\n#include \"b.bmp\"\n .echo > \"x.txt\" \"t\"\n .echo late2\nlate2 = 5\nl1:\n"),
    ("labels", "".join("label%d = %d\n" % (i, i) for i in range(300)) + " .db 1\n"),
    ("big", " .fill 9000,5\n"),
]
OUT = ["bin", "hex", "8xp", "8xv", "73p", "82p", "83p", "85p", "85s", "86p", "86s", "8xk", "rom"]
OPTS = [[], ["-T"], ["-L"], ["-T", "-L"], ["-E"], ["-O", "-T"], ["-O", "-L"], ["-S", "-A"]]
APP = " .db $80,$0F,0,0,0,0,$80,$12,1,4,$80,$21,1,$80,$31,1,$80,$48,\"TestApp1\",$80,$81,1,$80,$90,3,$26,9,4,4,6,$1b,2,$0d,$40,$80,$70\n nop\n"


def configs():
    for s in range(len(SRC)):
        yield s, "bin", ["-T", "-L"]
    for o in OUT:
        yield 0, o, []
    for op in OPTS:
        yield 13, "8xp" if op != ["-E"] else "hex", op
    yield 15, "hex", ["-T"]
    yield 4, "8xv", ["-E"]


def source(s, o):
    if o == "8xk":
        return APP
    t = SRC[s][1]
    return " .db $BB,$6D\n" + t if o == "8xp" else t


class Files(core.Check):
    id = "C24"
    level = "exploration"
    rule = ("%d program/format/option configurations x {every stdio operation fails with each of its errors or moves a single byte (thorough: all pairs of failing operations), the disk is full after k bytes for every k "
            "(ROM images: the first 64, every block boundary +-1 and the last 8), outputs and inputs replaced by directories, missing directories, dangling names and a full device}: status 0 => identical to the undisturbed run, otherwise non-zero status and a message") % len(list(configs()))
    assumptions = ["faults are injected at the stdio interface (fopencookie) and through RLIMIT_FSIZE; every stream the assembler opens goes through them"]

    def cases(self, tier):
        for c in configs():
            for part in range(8):
                yield ["fault", *c, part]
        for c in configs():
            for part in range(8):
                yield ["limit", *c, part]
        for p in self.paths():
            yield ["path", *p]
        if tier == "thorough":
            for c in configs():
                if c[0] in (13, 10, 2, 9) or c[2] == ["-T", "-L"]:
                    for part in range(64):
                        yield ["pair", *c, part]
                        yield ["drip", *c, part]

    def key(self, case, msg):
        return " ".join(str(x) for x in case)

    def paths(self):
        for s in (0, 1, 9):
            for op in OPTS:
                for o in ("bin", "hex", "85s"):
                    for what in ("dir", "nodir", "notdir", "lstdir", "labdir", "toolong"):
                        yield "out", s, o, op, what
        for s in range(1, 11):
            for op in ([], ["-T", "-L"], ["-O", "-L"]):
                for what in ("dir", "missing", "noread"):
                    for f in ("a.asm", "g.inc", "n.inc", "bom.inc", "d.bin", "b.bmp", "c.bmp", "x.txt", "y.txt"):
                        if f == "a.asm" or f in SRC[s][1] or (f == "g.inc" and s == 2):
                            if what == "missing" and f[1:] == ".txt":
                                continue
                            yield "in", s, "bin", op, what, f
        for op in OPTS:
            for o in ("bin", "hex", "8xp", "rom"):
                yield "full", 0, o, op
        for op in OPTS:
            yield "echofull", 9, "bin", op

    def base(self, case, ctx, **kw):
        s, o, op = case[1:4]
        r = ctx.asm(source(s, o), *op, files=dict(INC), out="o." + o, **kw)
        return r

    def sound(self, r, o, op, s):
        want = {"o." + o} if "-O" not in op else set()
        want |= {"o.lst"} if "-T" in op else set()
        want |= {"o.lab"} if "-L" in op else set()
        want |= {"x.txt"} if s in (9, 13) else {"y.txt"} if s == 10 else set()
        if r.crashed or r.status != 0 or set(r.files) != want:
            return "undisturbed run failed: %s" % r.brief()[:400]

    def judge(self, r, b, what, masked=False):
        if r.crashed:
            return "%s: %s" % (what, r.brief()[:400])
        if r.status == 0 or masked:
            if r.status == b.status and r.files == b.files and r.lines() == b.lines():
                return None
            diff = [f for f in sorted(set(r.files) | set(b.files)) if r.files.get(f) != b.files.get(f)]
            if r.status == 0:
                return "%s: exit status 0 but %s incomplete or different; console %r" % (what, ", ".join(diff) or "the messages", "\n".join(r.lines())[:200])
            return "%s: a harmless partial transfer is not handled: %s" % (what, r.brief()[:300])
        if not [l for l in r.lines() if l not in b.lines()]:
            return "%s: exit status %s without any message: %s" % (what, r.status, r.brief()[:300])

    def run(self, case, ctx):
        return getattr(self, "do_" + case[0])(case, ctx)

    ACT = {"o": [errno.EACCES, errno.ENOENT, errno.EMFILE, errno.EIO], "O": [errno.EACCES, errno.ENOENT, errno.ENOSPC, errno.EROFS], "r": [errno.EIO, 1001], "w": [errno.ENOSPC, errno.EIO], "s": [errno.EIO], "c": [errno.ENOSPC]}

    def do_fault(self, case, ctx):
        s, o, op, part = case[1:5]
        b = self.base(case, ctx, faults=[])
        m = self.sound(b, o, op, s)
        if m:
            return m
        ctx.traces += 1
        for i in range(part, len(b.ops), 8):
            kind, name = b.ops[i][0], b.ops[i][2:]
            for a in self.ACT[kind]:
                r = self.base(case, ctx, faults=[(i, a)])
                ctx.traces += 1
                ctx.count("single faults")
                ctx.state(s, o, tuple(op), i)
                ctx.transition(s, o, tuple(op), i, a)
                ctx.outcome(r.status, sorted(r.files.items()), r.lines())
                if not any(x[1] == "!" for x in r.ops):
                    return "the injected fault at operation %d was not reached although the runs agree so far" % i
                m = self.judge(r, b, "%s %s -> o.%s: operation %d (%s of %s) %s" % (SRC[s][0], " ".join(op), o, i, {"o": "open", "O": "creation", "r": "read", "w": "write", "s": "seek", "c": "close"}[kind], name.split("/")[-1],
                                                                                    "moves one byte" if a == 1001 else "fails with " + errno.errorcode[a]), a == 1001)
                if m:
                    return m
                if kind == "r" and a == errno.EIO:
                    # what was not read must not be taken from whatever the memory holds: empty, blank
                    for fill in (0, 32):
                        r = self.base(case, ctx, faults=[(i, a)], fill=fill)
                        ctx.traces += 1
                        m = self.judge(r, b, "%s %s -> o.%s: operation %d (read of %s) fails with EIO, fresh memory holds %d" % (SRC[s][0], " ".join(op), o, i, name.split("/")[-1], fill))
                        if m:
                            return m

    def do_pair(self, case, ctx):
        """two failing operations: the second is numbered in the run that already has the first fault"""
        s, o, op, part = case[1:5]
        b = self.base(case, ctx, faults=[])
        for i in range(part, len(b.ops), 64):
            for a in self.ACT[b.ops[i][0]]:
                r1 = self.base(case, ctx, faults=[(i, a)])
                for j in range(i + 1, len(r1.ops)):
                    for a2 in self.ACT[r1.ops[j][0]]:
                        r = self.base(case, ctx, faults=[(i, a), (j, a2)])
                        ctx.count("pairs of faults")
                        ctx.traces += 1
                        ctx.outcome(r.status, sorted(r.files.items()), r.lines())
                        ctx.transition(s, o, tuple(op), i, a, j, a2)
                        m = self.judge(r, b, "%s %s -> o.%s: operations %d (%s, %d) and %d (%s, %d)" % (SRC[s][0], " ".join(op), o, i, b.ops[i], a, j, r1.ops[j], a2), a == a2 == 1001)
                        if m:
                            return m

    def do_drip(self, case, ctx):
        """from operation i on, every transfer moves at most n bytes"""
        s, o, op, part = case[1:5]
        b = self.base(case, ctx, faults=[])
        for i in range(part, len(b.ops), 64):
            for n in (1001, 1002, 1003, 1007):
                r = self.base(case, ctx, faults=[(k, n) for k in range(i, 4000)])
                ctx.count("drip runs")
                ctx.traces += 1
                m = self.judge(r, b, "%s %s -> o.%s: transfers of %d byte(s) from operation %d on" % (SRC[s][0], " ".join(op), o, n - 1000, i), True)
                if m:
                    return m

    def do_limit(self, case, ctx):
        s, o, op, part = case[1:5]
        b = self.base(case, ctx)
        m = self.sound(b, o, op, s)
        if m:
            return m
        top = max([len(v) for v in b.files.values()] or [0])
        if top > 4000:
            ks = sorted(set(range(64)) | {k + d for k in range(0, top + 4096, 4096 if top < 100000 else 32768) for d in (-1, 0, 1)} | set(range(top - 8, top + 2)) | {len(v) + d for v in b.files.values() for d in (-1, 0, 1)})
        else:
            ks = list(range(top + 2))
        for k in ks[part::8]:
            if k < 0:
                continue
            r = self.base(case, ctx, fsize=k)
            ctx.traces += 1
            ctx.count("full-disk offsets")
            ctx.state("limit", s, o, tuple(op), k)
            ctx.transition("limit", s, o, tuple(op), k)
            ctx.outcome(r.status, sorted(r.files.items()), r.lines())
            m = self.judge(r, b, "%s %s -> o.%s: no room after %d bytes" % (SRC[s][0], " ".join(op), o, k), k >= top)
            if m:
                return m

    def do_path(self, case, ctx):
        what, s, o, op = case[1:5]
        files, modes, out = dict(INC), {}, "o." + o
        if what == "out":
            k = case[5]
            if k == "dir":
                modes[out] = 0o40755
            elif k == "nodir":
                out = "none/o." + o
            elif k == "notdir":
                out = "g.inc/o." + o
            elif k == "lstdir":
                modes["o.lst"] = 0o40755
            elif k == "labdir":
                modes["o.lab"] = 0o40755
            elif k == "toolong":
                out = "x" * 300 + "." + o
            hit = {"dir": "-O" not in op, "lstdir": "-T" in op, "labdir": "-L" in op}.get(k, "-O" not in op or "-T" in op or "-L" in op)
        elif what == "in":
            k, f = case[5:7]
            if k == "dir":
                files.pop(f, None)
                modes[f] = 0o40755
            elif k == "missing":
                files.pop(f, None)
            else:
                modes[f] = 0o200 if f[1:] != ".txt" else 0o400
                if f[1:] == ".txt":
                    files[f] = "old"
            hit = True
        else:
            out = "/dev/full" if what == "full" else out
            hit = True
        for n, md in modes.items():
            if n not in files and n != "a.asm":
                files[n] = ""
        src = source(s, o)
        if what == "full":
            if "-T" in op or "-L" in op:
                return None
            hit = "-O" not in op
        if what == "echofull":
            src = " .echo > \"/dev/full\" \"hello\"\n nop\n"
        if what == "in" and case[6] == "a.asm" and k == "missing":
            r = ctx.exec(["-N"] + op + ["a.asm", out], files, modes=modes)
        else:
            r = ctx.asm(src, *op, files=files, out=out, modes=modes)
        ctx.outcome(r.status, sorted(r.files.items()), r.lines())
        ctx.traces += 1
        ctx.count("unusable paths")
        ctx.state("path", case[1:])
        ctx.transition("path", case[1:])
        t = "%s %s: %s" % (SRC[s][0], " ".join(op), " ".join(str(x) for x in [what] + case[5:]) + " -> " + out[-20:])
        if r.crashed:
            return "%s: %s" % (t, r.brief()[:300])
        if hit and r.status == 0:
            return "%s: accepted silently (status 0): %s" % (t, r.brief()[:300])
        if hit and len([l for l in r.lines() if not l.startswith("Pass ")]) == 0:
            return "%s: status %s without a message" % (t, r.status)
        if not hit and r.status != 0:
            return "%s: status %s although nothing failed: %s" % (t, r.status, r.brief()[:300])


CHECK = Files()
