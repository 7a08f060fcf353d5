"""Independent eZ80 instruction model: the Z80 forms the eZ80 keeps plus the eZ80 additions (CPU user manual UM0077)."""
from . import z80
from .z80 import Form

SUF = {"": None, ".sis": 0x40, ".lis": 0x49, ".sil": 0x52, ".lil": 0x5B}


def build():
    F = []
    for f in z80.FORMS:
        if (f.mn, f.ops) == ("out", "(c),0") or f.mn in ("sll", "sl1") or f.enc in ((0x40,), (0x49,), (0x52,), (0x5B,)):
            continue
        if f.enc[0] in (0xDD, 0xFD) and f.enc[1] == 0xCB and f.mn != "bit" and (f.enc[3] & 7) != 6:
            continue
        F.append(f)

    def f(mn, ops, *enc):
        F.append(Form(mn, ops, tuple(enc), 0, 0))
    for i, rr in enumerate(("bc", "de", "hl")):
        f("ld", rr + ",(hl)", 0xED, 0x07 + 16 * i)
        f("ld", "(hl)," + rr, 0xED, 0x0F + 16 * i)
    f("ld", "iy,(hl)", 0xED, 0x31)
    f("ld", "ix,(hl)", 0xED, 0x37)
    f("ld", "(hl),iy", 0xED, 0x3E)
    f("ld", "(hl),ix", 0xED, 0x3F)
    for pre, x, o in ((0xDD, "ix", "iy"), (0xFD, "iy", "ix")):
        m = "(" + x + "{d})"
        for i, rr in enumerate(("bc", "de", "hl")):
            f("ld", rr + "," + m, pre, 0x07 + 16 * i, "d")
            f("ld", m + "," + rr, pre, 0x0F + 16 * i, "d")
        f("ld", o + "," + m, pre, 0x31, "d")
        f("ld", x + "," + m, pre, 0x37, "d")
        f("ld", m + "," + o, pre, 0x3E, "d")
        f("ld", m + "," + x, pre, 0x3F, "d")
    f("ld", "a,mb", 0xED, 0x6E)
    f("ld", "mb,a", 0xED, 0x6D)
    f("ld", "i,hl", 0xED, 0xC7)
    f("ld", "hl,i", 0xED, 0xD7)
    for i, r in enumerate(("b", "c", "d", "e", "h", "l", None, "a")):
        if r:
            f("out", "(bc)," + r, 0xED, 0x41 + 8 * i)
            f("in", r + ",(bc)", 0xED, 0x40 + 8 * i)
            f("out0", "({n})," + r, 0xED, 0x01 + 8 * i, "n")
            f("in0", r + ",({n})", 0xED, 0x00 + 8 * i, "n")
        f("tst", "a," + (r or "(hl)"), 0xED, 0x04 + 8 * i)
    f("tst", "a,{n}", 0xED, 0x64, "n")
    f("tstio", "{n}", 0xED, 0x74, "n")
    for i, rr in enumerate(("bc", "de", "hl")):
        f("lea", rr + ",ix{d}", 0xED, 0x02 + 16 * i, "d")
        f("lea", rr + ",iy{d}", 0xED, 0x03 + 16 * i, "d")
    f("lea", "ix,ix{d}", 0xED, 0x32, "d")
    f("lea", "iy,iy{d}", 0xED, 0x33, "d")
    f("lea", "ix,iy{d}", 0xED, 0x54, "d")
    f("lea", "iy,ix{d}", 0xED, 0x55, "d")
    f("pea", "ix{d}", 0xED, 0x65, "d")
    f("pea", "iy{d}", 0xED, 0x66, "d")
    for i, rr in enumerate(("bc", "de", "hl", "sp")):
        f("mlt", rr, 0xED, 0x4C + 16 * i)
    for mn, b in (("ind2", 0x8C), ("indm", 0x8A), ("ini2", 0x84), ("inim", 0x82), ("otdm", 0x8B), ("otim", 0x83),
                  ("ind2r", 0x9C), ("indmr", 0x9A), ("indrx", 0xCA), ("ini2r", 0x94), ("inimr", 0x92), ("inirx", 0xC2),
                  ("otd2r", 0xBC), ("otdmr", 0x9B), ("otdrx", 0xCB), ("oti2r", 0xB4), ("otimr", 0x93), ("otirx", 0xC3),
                  ("outd2", 0xAC), ("outi2", 0xA4), ("slp", 0x76), ("rsmix", 0x7E), ("stmix", 0x7D)):
        f(mn, "", 0xED, b)
    return F


FORMS = build()


def resolve(suffix, adl):
    """written suffix, current default mode -> (prefix byte or None, long immediates?)"""
    s = suffix.lower()
    if s == "":
        return None, bool(adl)
    body = s[1:]
    if body in ("s", "l"):
        L, IL = body == "l", bool(adl)
    elif body in ("is", "il"):
        L, IL = bool(adl), body == "il"
    else:
        L, IL = body[0] == "l", body[2] == "l"
    return {(0, 0): 0x40, (1, 0): 0x49, (0, 1): 0x52, (1, 1): 0x5B}[(int(L), int(IL))], IL


SUFFIXES = ["", ".s", ".l", ".is", ".il", ".sis", ".sil", ".lis", ".lil"]


def encode(form, suffix, adl, v=0, disp=0, rel=0):
    pre, il = resolve(suffix, adl)
    out = [] if pre is None else [pre]
    for b in form.enc:
        if b == "n" or b == "wl":
            out.append(v & 255)
        elif b == "wh":
            out.append((v >> 8) & 255)
            if il:
                out.append((v >> 16) & 255)
        elif b == "d":
            out.append(disp & 255)
        elif b == "e":
            out.append(rel & 255)
        else:
            out.append(b)
    return bytes(out)


def size(form, suffix, adl):
    return len(encode(form, suffix, adl))
