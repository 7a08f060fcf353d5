"""C21: every instruction form of both processors and all short programs over a sized alphabet, under the counting modes."""
import itertools, re
from .. import core, z80, ez80
from ..lib import diags

# statement, code bytes, data bytes, labels it defines, (tmin, tmax)
ST = [
    (" nop", 1, 0, 0, (4, 4)), ("q%d: ret z", 1, 0, 1, (5, 11)), (" jp FW", 3, 0, 0, (10, 10)), (" ld a,(ix+5)", 3, 0, 0, (19, 19)), (" djnz $", 2, 0, 0, (8, 13)), (" ldir", 2, 0, 0, (16, 21)),
    (" .db 1,\"ab\",FW&255", 0, 4, 0, (0, 0)), (" .dw FW,2", 0, 4, 0, (0, 0)), (" .dl FW", 0, 3, 0, (0, 0)), (" .fill 7,1", 0, 7, 0, (0, 0)), (" .block 5", 0, 5, 0, (0, 0)), ("#import \"d.bin\"", 0, 6, 0, (0, 0)),
    ("q%d = 60005", 0, 0, 1, (0, 0)), ("q%d .equ FW2+1", 0, 0, 1, (0, 0)), ("#define d%d 5", 0, 0, 0, (0, 0)), ("q%d:", 0, 0, 1, (0, 0)), (" mm(3)", 3, 1, 0, (11, 11)), ("#include \"i.inc\"", 2, 2, 0, (9, 15)),
    ("#if 0\n ld a,b\n .db 1\nnope:\n#endif", 0, 0, 0, (0, 0)), (" nop \\ nop \\ .db 1", 2, 1, 0, (8, 8)), ("_ nop", 1, 0, 0, (4, 4)), (" .db 0\n#include \"b.bmp\"", 0, 9, 0, (0, 0)), (" wr(\" rst 8\")\n run()", 1, 0, 0, (11, 11)),
    ("; text", 0, 0, 0, (0, 0)), (" call FW", 3, 0, 0, (17, 17)), (" .org $8000", 0, 0, 0, (0, 0)), (" .addinstr ZZ%d \"\" 77 1 NOP 1\n zz%d", 1, 0, 0, None), (" bit 3,(iy-1)", 4, 0, 0, (20, 20)), (" .echo \"x\"", 0, 0, 0, (0, 0)),
    ("#macro um%d(a)\n ld a,b\n .db 3\n#endmacro", 0, 0, 0, (0, 0)), (" .db \"hello\"", 0, 5, 0, (0, 0)), (" ld hl,FW", 3, 0, 0, (10, 10)),
]
PRO = "#macro mm(a)\n ld a,a\n .db a\n nop\n#endmacro\nFW2 = 60000\n"
BMP = bytes.fromhex("424d5e000000000000003e0000002800000008000000080000000100010000000000200000000000000000000000000000000000000000000000ffffff00") + b"".join(bytes([v, 0, 0, 0]) for v in (0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x88))
FILES = {"i.inc": " jr nz,$\n .dw FW\n", "d.bin": b"\0\1\2\3\n\r", "b.bmp": BMP}
INC_T = (7, 12)
CONTROL = {"djnz {e}": ((2, 4), (2, 4)), "jr {e}": ((3, 3), (3, 3)), "halt ": ((1, 1), (1, 1)), "ret ": ((5, 5), (6, 6)), "jp (hl)": ((3, 3), (3, 3)), "jp {w}": ((4, 4), (5, 5)), "call {w}": ((5, 5), (7, 7)),
           "retn ": ((6, 6), (7, 7)), "reti ": ((6, 6), (7, 7)), "ldi ": ((5, 5),) * 2, "ldd ": ((5, 5),) * 2, "ldir ": ((3, 5),) * 2, "lddr ": ((3, 5),) * 2, "cpi ": ((3, 3),) * 2, "cpd ": ((3, 3),) * 2,
           "cpir ": ((3, 4),) * 2, "cpdr ": ((3, 4),) * 2, "jp (ix)": ((4, 4),) * 2, "jp (iy)": ((4, 4),) * 2, "tstio {n}": ((4, 4),) * 2, "slp ": ((2, 2),) * 2}


def etime(f, il):
    """documented eZ80 clocks: bytes fetched + memory accesses (+1 for read-modify-write), and the control transfer table"""
    mn, ops = f.mn, f.ops
    k = mn + " " + ops
    n = len(f.enc) + (1 if il and "wl" in f.enc else 0)
    w = 3 if il else 2
    if k in CONTROL:
        return CONTROL[k][il]
    if mn == "jr":
        return 2, 3
    if mn == "rst":
        return (6, 6) if il else (5, 5)
    if mn == "ret":
        return (3, 7) if il else (2, 6)
    if mn == "jp":
        return (4, 5) if il else (3, 4)
    if mn == "call":
        return (4, 7) if il else (3, 6)
    if mn[:2] in ("in", "ot", "ou") and mn not in ("in", "in0", "inc", "out", "out0"):
        return (3, 5) if mn[-1] in "rx" else (5, 5)
    if mn in ("rrd", "rld"):
        t = 5
    elif mn == "mlt":
        t = 6
    elif mn in ("push", "pop", "pea"):
        t = n + w
    elif mn == "ex" and "(sp)" in ops:
        t = n + 2 * w
    elif mn in ("in", "in0", "out", "out0"):
        t = n + 1
    elif "(" in ops and (mn in ("inc", "dec", "res", "set") or mn[:2] in ("rl", "rr", "sl", "sr")):
        t = n + 3
    elif "(" in ops:
        o = [x for x in ops.split(",") if "(" not in x]
        t = n + (w if mn == "ld" and o and o[0] in ("hl", "bc", "de", "ix", "iy", "sp") else 1)
    else:
        t = n
    return t, t


def figures(r):
    m = re.search(r"Size: (\d+)\s*\nMin\. execution time: (\d+)\s*\nMax\. execution time: (\d+)", r.out.replace("\r", ""))
    return tuple(map(int, m.groups())) if m else None


def stats(r):
    m = re.search(r"Number of labels: (\d+)\s*\nNumber of defines: (\d+)\s*\nCode size: (\d+)\s*\nData size: (\d+)\s*\nTotal size: (\d+)", r.out.replace("\r", ""))
    return tuple(map(int, m.groups())) if m else None


class Counters(core.Check):
    id = "C21"
    level = "exploration"
    rule = ("every Z80 form and every eZ80 form x default mode x suffix under -C against the documented times (independent table, eZ80 from the fetch/access rule); all programs of up to 2 (thorough 3) statements of %d kinds under every "
            "combination of -C, -S, -L, -T and -O: sizes, times and label count against a model and the output bytes the same in all modes") % len(ST)
    assumptions = ["the eZ80 clock counts are bytes fetched plus memory accesses plus one for read-modify-write, the control transfers as tabulated; a suffix costs one more", "equates count as labels, reusable labels do not; the define count is not judged",
                   "a user-added instruction has no documented time"]

    def cases(self, tier):
        for i in range(len(z80.FORMS)):
            yield {"g": "z80", "i": i}
        for i in range(len(ez80.FORMS)):
            yield {"g": "ez80", "i": i}
        for n in (1, 2) if tier == "quick" else (1, 2, 3):
            for s in itertools.product(range(len(ST)), repeat=n):
                yield {"g": "prog", "s": list(s), "o": 0 if n > 1 else 1}
        if tier == "quick":
            for s in itertools.product(range(0, len(ST), 3), repeat=3):
                yield {"g": "prog", "s": list(s), "o": 0}
        for n in (1, 10, 255, 256, 257, 1000, 65536, 70000):
            yield {"g": "rep", "n": n}
        for k in range(16):
            yield {"g": "mix", "k": k}

    def run(self, c, ctx):
        g = c["g"]
        if g in ("z80", "ez80"):
            F = (z80 if g == "z80" else ez80).FORMS
            f = F[c["i"]]
            nx = F[(c["i"] * 7 + 11) % len(F)]
            for adl, suf in ([(0, "")] if g == "z80" else [(a, s) for a in (0, 1) for s in ("", ".sis", ".lis", ".sil", ".lil")]):
                def one(f, suf):
                    t = z80.text(f, v="0")
                    if g == "z80":
                        return t, z80.size(f), (f.tmin, f.tmax)
                    mn, _, ops = t.partition(" ")
                    sl = adl if not suf else suf[1] == "l"
                    il = adl if not suf else suf[3] == "l"
                    # data width follows the first letter, operand size the last; only same-width cases are judged
                    if suf and sl != il:
                        return None
                    a, b = etime(f, int(il))
                    return "%s%s %s" % (mn, suf, ops), ez80.size(f, suf, adl), (a + bool(suf), b + bool(suf))
                x, y = one(f, suf), one(nx, "")
                if x is None:
                    continue
                for l in ([x], [x, y, x]):
                    src = (" .assume adl=%d\n" % adl if g == "ez80" else "") + "".join(" %s\n" % k[0] for k in l)
                    r = ctx.exec(["-N", "-C"] + (["-E"] if g == "ez80" else []) + ["a.asm", "o.bin"], {"a.asm": src})
                    want = (sum(k[1] for k in l), sum(k[2][0] for k in l), sum(k[2][1] for k in l))
                    ctx.outcome(g, c["i"], adl, suf, figures(r))
                    if r.crashed or r.status or figures(r) != want:
                        return "%r %s: figures %s instead of %s: %s" % (src, g, figures(r), want, r.brief()[:200])
            return
        if g == "rep":
            n = c["n"]
            src = "#macro r()\n ld a,(hl)\n .db 1\n#endmacro\n" + " r()\n" * min(n, 3000) + (" .fill %d\n" % n) + " jp z,0\n" * min(n, 300)
            k, j = min(n, 3000), min(n, 300)
            want = (k + 3 * j, 7 * k + 10 * j, 7 * k + 10 * j)
            st = (0, k + 3 * j, k + n, 2 * k + n + 3 * j)
            opts = []
        elif g == "mix":
            # counted once although resolved in the second pass, in nested macros, conditionals and includes
            src = ["#macro a1(x)\n ld hl,x\n#endmacro\n#macro a2(x)\n a1(x)\n a1(FW)\n#endmacro\n a2(5)\n a2(FW)\nFW:\n", "#if 1\n nop\n#else\n nop\n nop\n#endif\n", "x1: nop\nx1: \n", "#include \"n.inc\"\n nop\n",
                   " .seek 0\n nop\n .seek 0\n nop\n", " .db \"%s\"\n" % ("x" * 200), " .dw $,$,$\n nop\n", " .db 1\n",
                   "#comment\n nop\n#endcomment\n nop\n", " jp (hl)\n jp (ix)\n", " ld a,5+3*2\n ld bc,FW\nFW:\n", " out (5),a\n in a,(5)\n", "L.x: nop\nL.y: nop\n", " .fill 3,5 \\ nop\n", " push af \\ pop bc\n", " .block 100\n"][c["k"]]
            want, st = [((12, 40, 40), (1, 12, 0, 12)), ((1, 4, 4), (0, 1, 0, 1)), None, ((3, 12, 12), (0, 3, 0, 3)), None, ((0, 0, 0), (0, 0, 200, 200)), ((1, 4, 4), (0, 1, 6, 7)), ((0, 0, 0), (0, 0, 1, 1)),
                        ((1, 4, 4), (0, 1, 0, 1)), ((3, 12, 12), (0, 3, 0, 3)), ((5, 17, 17), (1, 5, 0, 5)), ((4, 22, 22), (0, 4, 0, 4)), None, ((1, 4, 4), (0, 1, 3, 4)), ((2, 21, 21), (0, 2, 0, 2)), ((0, 0, 0), (0, 0, 100, 100))][c["k"]] or (None, None)
            if want is None:
                return
            opts = []
        else:
            src, code, data, labs, t0, t1 = PRO, 0, 0, 2, 0, 0
            for i, k in enumerate(c["s"]):
                s, a, b, l, t = ST[k]
                src += s.replace("%d", str(i)) + "\n"
                code, data, labs = code + a, data + b, labs + l
                if "i.inc" in s:
                    data, t = data, INC_T
                if "mm(" in s:
                    code, t = code - 1, (8, 8)
                if t is None:
                    t0 = None
                elif t0 is not None:
                    t0, t1 = t0 + t[0], t1 + t[1]
            # FW is a real label, FW2 an equate
            src += "FW:\n"
            want = (code, t0, t1) if t0 is not None else (code,)
            st = (labs, code, data, code + data)
        files = dict(FILES)
        files["a.asm"] = src
        files["n.inc"] = "#include \"n2.inc\"\n nop\n"
        files["n2.inc"] = " nop\n"
        base = ctx.exec(["-N", "a.asm", "o.bin"], files, timeout=20000)
        if base.crashed or base.status or "o.bin" not in base.files:
            return "%s: %s" % (c, base.brief()[:300])
        modes = [["-C"], ["-S"], ["-C", "-S"], ["-S", "-O"]]
        if c.get("o") or g != "prog":
            modes = [[o for j, o in enumerate(["-C", "-S", "-L", "-T", "-O"]) if m >> j & 1] for m in range(1, 32)]
        for m in modes:
            r = ctx.exec(["-N"] + m + ["a.asm", "o.bin"], files, timeout=20000)
            ctx.outcome(g, c.get("s"), tuple(m), r.out[-150:-40])
            if r.crashed or r.status or diags(r):
                return "%s %s: %s" % (c, m, r.brief()[:300])
            if "-O" not in m and r.files.get("o.bin") != base.files["o.bin"]:
                return "%s %s: other output bytes: %s" % (c, m, r.brief()[:300])
            if "-C" in m:
                f = figures(r)
                if f is None or f[:len(want)] != want:
                    return "%s %s: size and times %s instead of %s" % (c, m, f, want)
            elif figures(r):
                return "%s %s: unrequested figures" % (c, m)
            if "-S" in m:
                f = stats(r)
                if f is None or (f[0],) + f[2:] != st:
                    return "%s %s: labels, code, data, total %s instead of %s" % (c, m, f and (f[0],) + f[2:], st)
            elif stats(r):
                return "%s %s: unrequested statistics" % (c, m)


CHECK = Counters()
