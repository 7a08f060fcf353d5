"""C02: every eZ80 form x suffix x default mode x operand values, and all mode-switch histories up to a depth."""
import itertools
from .. import core, ez80, z80
from ..lib import check_items, clean, diags, le
from .c01_z80 import dtexts

W16 = [0, 1, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0x1234, 0xFF00, 0xFFFF, -1, -128, -129, -32768]
W24 = [0x10000, 0x123456, 0xFEDCBA, 0x7FFFFF, 0x800000, 0xFFFFFF, 0xFF0000, 0x8000, 0x1FFFF, -32769, -0x800000] + [1 << i for i in range(16, 24)]

# histories: statements of the mode automaton (state: default mode); expected bytes by (adl before)
STM = ["assume0", "assume1", "ldhl", "ldhl.sis", "ldhl.lil", "ldhl.s", "ldhl.il", "jpfwd", "call.is", "memA", "macro", "incl", "dlpc",
       "jr", "wr"]

JUMPS = ["jr %s", "djnz %s", "jr nz,%s", "jr c,%s"]
ORGS = [0x1FF80, 0x1FFFE, 0x20000, 0xFFC0, 0xFFFF, 0x10000, 0xD1A880, 0x7FFFF0, 0x800000, 0xFEFFF8, 0x400]


class C02(core.Check):
    id = "C02"
    level = "exploration"
    rule = ("(a) every form of the independent eZ80 model x 9 suffix spellings x both default modes x operand values (8-bit -128..255, "
            "displacements -128..127, 16/24-bit boundary sets), upper and lower case, output bytes and '.dl $' location counter compared; "
            "(c) 4 relative jumps x 11 places at page ends x both modes x every distance, written 5 ways; (b) every sequence of mode-switching and mode-dependent statements up to a depth (4 quick, 5 thorough), with the model "
            "(default mode, location counter) predicting every byte. Non-trivial: a distinct (form, mode, suffix, bytes) or history output")
    assumptions = ["the eZ80 model in mc/ez80.py is the architecture"]

    def cases(self, tier):
        for adl in (1, 0):
            for i, f in enumerate(ez80.FORMS):
                yield {"form": i, "text": f.mn + " " + f.ops, "adl": adl}
        for adl in (1, 0):
            for op in JUMPS:
                for org in ORGS:
                    yield {"jump": op, "org": org, "adl": adl}
        d = 4 if tier == "quick" else 5
        for n in range(1, d + 1):
            # the trailing statements vary inside the case so that one case = one program family
            for pre in itertools.product(range(len(STM)), repeat=max(0, n - 1)):
                yield {"pre": list(pre)}

    def run(self, case, ctx):
        if "pre" in case:
            return self.history(case, ctx)
        if "jump" in case:
            return self.jump(ctx, **case)
        f = ez80.FORMS[case["form"]]
        adl = case["adl"]
        pc = 0xD1A880
        items = []
        head = " .assume adl=%d\n .org %d\n" % (adl, pc) if adl == 0 else " .org %d\n" % pc
        k = 0
        for suf in ez80.SUFFIXES:
            il = ez80.resolve(suf, adl)[1]
            has = lambda c: c in f.enc
            vs = [0]
            if has("n"):
                vs = range(-128, 256) if suf in ("", ".sis") else (0, 1, 127, 128, 255, -1, -128)
            if has("wl"):
                vs = W16 + (W24 if il else [])
            ds = range(-128, 128) if has("d") else [0]
            if has("d") and has("n"):
                ds = (-128, -1, 0, 1, 5, 127)
            es = range(-128, 128) if has("e") else [0]
            for v in vs:
                for d in ds:
                    for e in es:
                        enc = ez80.encode(f, suf, adl, v, d, e)
                        ln = len(enc)
                        k += 1
                        et = "$%+d" % (ln + e) if k & 1 else str(pc + ln + e)
                        vt = "%d" % v if k % 3 or v < 0 else "$%06x" % v
                        dt = dtexts(d)[k % 2] if d else ["+0", "", "-0"][k % 3]
                        t = z80.text(f._replace(mn=f.mn + suf), vt, dt, et)
                        if k % 5 == 0:
                            t = t.upper()
                        items.append((" " + t + "\n", enc))
                        pc += ln
                        items.append((" .dl $\n", le(pc, 3)))
                        pc += 3
                        ctx.outcome(case["form"], suf, adl, enc)
        return check_items(ctx, items, opts=["-E"], head=head, what="%s (adl=%d)" % (case["text"], adl))

    def jump(self, ctx, jump, org, adl):
        """relative jumps near the ends of 64 KB pages: by distance, to an address, to an earlier and to a later label"""
        op = jump % ""
        code = {"jr": 0x18, "djnz": 0x10, "jr nz": 0x20, "jr c": 0x38}[op.strip(", ")]
        head = (" .assume adl=0\n" if not adl else "") + " .org %d\n" % org
        for e in range(-128, 128):
            t = org + 2 + e
            exp = bytes([code, e & 255])
            forms = [" %s$%+d\n" % (op, 2 + e), " %s%d\n" % (op, t), "t = $%x\n %st\n" % (t, op), " %st\nt = %d\n" % (op, t)]
            if e >= 0:
                forms.append(" %st\n .fill %d\nt:\n" % (op, e))
            for f in forms:
                r = ctx.asm(head + f, "-E", out="o.bin")
                ctx.count("programs")
                ctx.outcome(op, org, adl, e)
                if not clean(r) or r.files.get("o.bin", b"")[:2] != exp:
                    return "%r must give %s: %s" % (head + f, exp.hex(" "), r.brief()[:300])
        for e in (-129, 128, 0x10000, -0x10000, 0x100, 0x1000):
            if not 0 <= org + 2 + e < 0x1000000:
                continue
            for f in (" %s$%+d\n" % (op, 2 + e), " %s%d\n" % (op, org + 2 + e), " %st\nt = %d\n" % (op, org + 2 + e)):
                r = ctx.asm(head + f, "-E", out="o.bin")
                ctx.count("programs")
                if r.crashed or not r.status or not diags(r):
                    return "%r is out of reach but accepted: %s" % (head + f, r.brief()[:300])

    def history(self, case, ctx):
        for last in range(len(STM)):
            seq = case["pre"] + [last]
            adl, pc = 1, 0x400
            items, fwd = [], []
            for s in seq:
                nm = STM[s]
                ctx.state(adl, nm)
                if nm.startswith("assume"):
                    adl = int(nm[-1])
                    items.append((" .assume adl=%d\n" % adl, b""))
                    continue
                if nm.startswith("ldhl"):
                    suf = nm[4:]
                    il = ez80.resolve(suf, adl)
                    items.append((" ld%s hl,$1234\n" % suf, bytes([x for x in [il[0]] if x is not None]) + b"\x21" + le(0x1234, 3 if il[1] else 2)))
                elif nm == "jpfwd":
                    il = adl
                    items.append((" jp fwd\n", ("jp", 3 if il else 2)))
                elif nm == "call.is":
                    pre = 0x49 if adl else 0x40
                    items.append((" call.is $8765\n", bytes([pre, 0xCD]) + le(0x8765, 2)))
                elif nm == "memA":
                    items.append((" ld a,(fwd)\n", ("lda", 3 if adl else 2)))
                elif nm == "macro":       # a macro that switches to 16 bit inside
                    items.append((" mac()\n", b"\x21" + le(7, 2) + b"\x21\x08\0\0"))
                    adl = 1
                elif nm == "incl":
                    items.append(('#include "i.inc"\n', b"\x11" + le(9, 3 if adl else 2)))
                elif nm == "wr":
                    items.append((' wr(" ld bc,10")\n run()\n', b"\x01" + le(10, 3 if adl else 2)))
                elif nm == "dlpc":
                    items.append((" .dl $\n", le(pc, 3)))
                elif nm == "jr":
                    items.append((" jr.lil $\n" if adl else " jr $\n", b"\x5b\x18\xfd" if adl else b"\x18\xfe"))
                b = items[-1][1]
                pc += len(b) if isinstance(b, bytes) else 1 + b[1]
            out = []
            for t, b in items:
                if isinstance(b, tuple):
                    b = (b"\xc3" if b[0] == "jp" else b"\x3a") + le(pc, b[1])
                out.append((t, b))
            ctx.outcome(tuple(seq), b"".join(b for _, b in out))
            m = check_items(ctx, out, opts=["-E"], what="mode history " + ",".join(STM[s] for s in seq),
                            head=" .org $400\n#macro mac()\n .assume adl=0\n ld hl,7\n .assume adl=1\n ld hl,8\n#endmacro\n",
                            tail="fwd:\n", files={"i.inc": " ld de,9\n"})
            if m:
                return m


CHECK = C02()
