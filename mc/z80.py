"""Independent Z80 instruction model, derived from the x/y/z/p/q structure of the opcode map (not from /repo's tables).

FORMS: list of Form(mnemonic, operands-template, bytes, tmin, tmax)
  template placeholders: {n} 8-bit immediate, {w} 16-bit immediate, {e} relative target, {d} signed index displacement
  bytes: ints or 'n', 'wl', 'wh', 'e', 'd'
"""
from collections import namedtuple
Form = namedtuple("Form", "mn ops enc tmin tmax")
R = ["b", "c", "d", "e", "h", "l", "(hl)", "a"]
RP = ["bc", "de", "hl", "sp"]
RP2 = ["bc", "de", "hl", "af"]
CC = ["nz", "z", "nc", "c", "po", "pe", "p", "m"]
ALU = ["add", "adc", "sub", "sbc", "and", "xor", "or", "cp"]
ROT = ["rlc", "rrc", "rl", "rr", "sla", "sra", "sll", "srl"]


def build():
    F = []

    def f(mn, ops, enc, t, t2=None):
        F.append(Form(mn, ops, tuple(enc), t, t if t2 is None else t2))
    # ---- unprefixed -------------------------------------------------------------
    f("nop", "", [0], 4)
    f("ex", "af,af'", [8], 4)
    f("djnz", "{e}", [0x10, "e"], 8, 13)
    f("jr", "{e}", [0x18, "e"], 12)
    for y in range(4):
        f("jr", CC[y] + ",{e}", [0x20 + 8 * y, "e"], 7, 12)
    for p in range(4):
        f("ld", RP[p] + ",{w}", [1 + 16 * p, "wl", "wh"], 10)
        f("add", "hl," + RP[p], [9 + 16 * p], 11)
        f("inc", RP[p], [3 + 16 * p], 6)
        f("dec", RP[p], [0xB + 16 * p], 6)
    f("ld", "(bc),a", [2], 7)
    f("ld", "(de),a", [0x12], 7)
    f("ld", "({w}),hl", [0x22, "wl", "wh"], 16)
    f("ld", "({w}),a", [0x32, "wl", "wh"], 13)
    f("ld", "a,(bc)", [0x0A], 7)
    f("ld", "a,(de)", [0x1A], 7)
    f("ld", "hl,({w})", [0x2A, "wl", "wh"], 16)
    f("ld", "a,({w})", [0x3A, "wl", "wh"], 13)
    for y in range(8):
        m = y == 6
        f("inc", R[y], [4 + 8 * y], 11 if m else 4)
        f("dec", R[y], [5 + 8 * y], 11 if m else 4)
        f("ld", R[y] + ",{n}", [6 + 8 * y, "n"], 10 if m else 7)
    for i, mn in enumerate(["rlca", "rrca", "rla", "rra", "daa", "cpl", "scf", "ccf"]):
        f(mn, "", [7 + 8 * i], 4)
    for y in range(8):
        for z in range(8):
            if y == 6 and z == 6:
                f("halt", "", [0x76], 4)
            else:
                f("ld", "%s,%s" % (R[y], R[z]), [0x40 + 8 * y + z], 7 if 6 in (y, z) else 4)
    for y in range(8):
        for z in range(8):
            t = 7 if z == 6 else 4
            f(ALU[y], "a," + R[z], [0x80 + 8 * y + z], t)
            if ALU[y] in ("sub", "and", "xor", "or", "cp"):
                f(ALU[y], R[z], [0x80 + 8 * y + z], t)
        f(ALU[y], "a,{n}", [0xC6 + 8 * y, "n"], 7)
        if ALU[y] in ("sub", "and", "xor", "or", "cp"):
            f(ALU[y], "{n}", [0xC6 + 8 * y, "n"], 7)
    for y in range(8):
        f("ret", CC[y], [0xC0 + 8 * y], 5, 11)
        f("jp", CC[y] + ",{w}", [0xC2 + 8 * y, "wl", "wh"], 10)
        f("call", CC[y] + ",{w}", [0xC4 + 8 * y, "wl", "wh"], 10, 17)
        f("rst", "{rst%d}" % (8 * y), [0xC7 + 8 * y], 11)
    for p in range(4):
        f("pop", RP2[p], [0xC1 + 16 * p], 10)
        f("push", RP2[p], [0xC5 + 16 * p], 11)
    f("ret", "", [0xC9], 10)
    f("exx", "", [0xD9], 4)
    f("jp", "(hl)", [0xE9], 4)
    f("ld", "sp,hl", [0xF9], 6)
    f("jp", "{w}", [0xC3, "wl", "wh"], 10)
    f("out", "({n}),a", [0xD3, "n"], 11)
    f("in", "a,({n})", [0xDB, "n"], 11)
    f("ex", "(sp),hl", [0xE3], 19)
    f("ex", "de,hl", [0xEB], 4)
    f("di", "", [0xF3], 4)
    f("ei", "", [0xFB], 4)
    f("call", "{w}", [0xCD, "wl", "wh"], 17)
    # ---- CB ---------------------------------------------------------------------
    for z in range(8):
        m = z == 6
        for y in range(8):
            f(ROT[y], R[z], [0xCB, 8 * y + z], 15 if m else 8)
            f("bit", "%d,%s" % (y, R[z]), [0xCB, 0x40 + 8 * y + z], 12 if m else 8)
            f("res", "%d,%s" % (y, R[z]), [0xCB, 0x80 + 8 * y + z], 15 if m else 8)
            f("set", "%d,%s" % (y, R[z]), [0xCB, 0xC0 + 8 * y + z], 15 if m else 8)
        f("sl1", R[z], [0xCB, 0x30 + z], 15 if m else 8)
    # ---- ED ---------------------------------------------------------------------
    for y in range(8):
        if y != 6:
            f("in", R[y] + ",(c)", [0xED, 0x40 + 8 * y], 12)
            f("out", "(c)," + R[y], [0xED, 0x41 + 8 * y], 12)
    f("in", "f,(c)", [0xED, 0x70], 12)
    f("out", "(c),0", [0xED, 0x71], 12)
    for p in range(4):
        f("sbc", "hl," + RP[p], [0xED, 0x42 + 16 * p], 15)
        f("adc", "hl," + RP[p], [0xED, 0x4A + 16 * p], 15)
        if p != 2:
            f("ld", "({w})," + RP[p], [0xED, 0x43 + 16 * p, "wl", "wh"], 20)
            f("ld", RP[p] + ",({w})", [0xED, 0x4B + 16 * p, "wl", "wh"], 20)
    f("neg", "", [0xED, 0x44], 8)
    f("retn", "", [0xED, 0x45], 14)
    f("reti", "", [0xED, 0x4D], 14)
    for i, b in enumerate([0x46, 0x56, 0x5E]):
        f("im", str(i), [0xED, b], 8)
    for i, s in enumerate(["i,a", "r,a", "a,i", "a,r"]):
        f("ld", s, [0xED, 0x47 + 8 * i], 9)
    f("rrd", "", [0xED, 0x67], 18)
    f("rld", "", [0xED, 0x6F], 18)
    for z, b in enumerate(["ld", "cp", "in", "ot"]):
        for y, s in enumerate(["i", "d", "ir", "dr"]):
            mn = b + s
            if b == "ot" and y < 2:
                mn = "out" + s
            f(mn, "", [0xED, 0xA0 + 8 * y + z], 16, 21 if y >= 2 else 16)
    # ---- DD / FD ------------------------------------------------------------------
    for x, pre in (("ix", 0xDD), ("iy", 0xFD)):
        rx = ["b", "c", "d", "e", x + "h", x + "l", None, "a"]
        f("ld", x + ",{w}", [pre, 0x21, "wl", "wh"], 14)
        f("ld", "({w})," + x, [pre, 0x22, "wl", "wh"], 20)
        f("ld", x + ",({w})", [pre, 0x2A, "wl", "wh"], 20)
        f("inc", x, [pre, 0x23], 10)
        f("dec", x, [pre, 0x2B], 10)
        for p, r in enumerate(["bc", "de", x, "sp"]):
            f("add", x + "," + r, [pre, 9 + 16 * p], 15)
        m = "(" + x + "{d})"
        f("inc", m, [pre, 0x34, "d"], 23)
        f("dec", m, [pre, 0x35, "d"], 23)
        f("ld", m + ",{n}", [pre, 0x36, "d", "n"], 19)
        for y in (4, 5):
            f("inc", rx[y], [pre, 4 + 8 * y], 8)
            f("dec", rx[y], [pre, 5 + 8 * y], 8)
            f("ld", rx[y] + ",{n}", [pre, 6 + 8 * y, "n"], 11)
        for y in range(8):
            for z in range(8):
                if y == 6 or z == 6 or not ({y, z} & {4, 5}):
                    continue
                f("ld", "%s,%s" % (rx[y], rx[z]), [pre, 0x40 + 8 * y + z], 8)
        for y in range(8):
            if y != 6:
                f("ld", R[y] + "," + m, [pre, 0x46 + 8 * y, "d"], 19)
                f("ld", m + "," + R[y], [pre, 0x70 + y, "d"], 19)
            for z, o, t in ((4, rx[4], 8), (5, rx[5], 8), (6, m, 19)):
                enc = [pre, 0x80 + 8 * y + z] + (["d"] if z == 6 else [])
                f(ALU[y], "a," + o, enc, t)
                if ALU[y] in ("sub", "and", "xor", "or", "cp"):
                    f(ALU[y], o, enc, t)
        f("pop", x, [pre, 0xE1], 14)
        f("push", x, [pre, 0xE5], 15)
        f("ex", "(sp)," + x, [pre, 0xE3], 23)
        f("jp", "(%s)" % x, [pre, 0xE9], 8)
        f("ld", "sp," + x, [pre, 0xF9], 10)
        # DDCB
        for y in range(8):
            f(ROT[y], m, [pre, 0xCB, "d", 8 * y + 6], 23)
            f("bit", "%d,%s" % (y, m), [pre, 0xCB, "d", 0x46 + 8 * y], 20)
            f("res", "%d,%s" % (y, m), [pre, 0xCB, "d", 0x86 + 8 * y], 23)
            f("set", "%d,%s" % (y, m), [pre, 0xCB, "d", 0xC6 + 8 * y], 23)
            for z in range(8):
                if z == 6:
                    continue
                f(ROT[y], R[z] + "," + m, [pre, 0xCB, "d", 8 * y + z], 23)
                f("res", "%s,%d,%s" % (R[z], y, m), [pre, 0xCB, "d", 0x80 + 8 * y + z], 23)
                f("set", "%s,%d,%s" % (R[z], y, m), [pre, 0xCB, "d", 0xC0 + 8 * y + z], 23)
    return F


FORMS = build()


def le(v, n):
    return [(v >> (8 * i)) & 255 for i in range(n)]


def encode(form, v=0, disp=0, rel=0):
    out = []
    for b in form.enc:
        if b == "n":
            out.append(v & 255)
        elif b == "wl":
            out.append(v & 255)
        elif b == "wh":
            out.append((v >> 8) & 255)
        elif b == "d":
            out.append(disp & 255)
        elif b == "e":
            out.append(rel & 255)
        else:
            out.append(b)
    return bytes(out)


def text(form, v="0", d="+0", e="$"):
    ops = form.ops
    ops = ops.replace("{n}", str(v)).replace("{w}", str(v)).replace("{d}", d).replace("{e}", e)
    if "{rst" in ops:
        ops = str(int(ops[4:-1]))
    return (form.mn + " " + ops).strip()


def size(form):
    return len(form.enc)
