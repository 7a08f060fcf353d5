"""C01: exhaustive over every Z80 instruction form x every operand value (16-bit: boundary set quick, all thorough)."""
from .. import core, z80
from ..lib import check_items, le

W = sorted({0, 1, 2, 0x7F, 0x80, 0x81, 0xFE, 0xFF, 0x100, 0x101, 0x1FF, 0x7FFF, 0x8000, 0x8001, 0xC000, 0x1234, 0xABCD,
            0xFF00, 0xFFFE, 0xFFFF} | {1 << i for i in range(16)} | {0xFFFF ^ (1 << i) for i in range(16)} | {-1, -2, -128, -32768})


def sgn(d):
    return "%+d" % d


def dtexts(d):
    t = [sgn(d)]
    if d == 0:
        t += ["", "-0"]
    if d > 0:
        t += ["+$%x" % d]
    if d < 0:
        t += ["-$%x" % -d]
    return t


class C01(core.Check):
    id = "C01"
    level = "exploration"
    rule = ("every form of the independent Z80 instruction model (built from the x/y/z/p/q opcode structure) x every operand "
            "value of its field (8-bit -128..255, displacement -128..127, relative -128..127, 16-bit boundary set in quick and "
            "all 65536 in thorough), each as literal, decimal/hex, and through an equate, at several origins; the whole output "
            "must equal the model's bytes and a '.dw $' after every instruction must show the model's location counter. "
            "Non-trivial: a distinct (form, operand values, expected bytes)")
    assumptions = ["the Z80 model in mc/z80.py is the architecture", "an instruction's encoding does not depend on others of the same program except through the location counter"]

    def cases(self, tier):
        for i, f in enumerate(z80.FORMS):
            yield {"form": i, "text": f.mn + " " + f.ops, "spell": 0}
        for i, f in enumerate(z80.FORMS):
            for s in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5)):
                yield {"form": i, "text": f.mn + " " + f.ops, "spell": s}
        if tier != "quick":
            for i, f in enumerate(z80.FORMS):
                if "{w}" in f.ops:
                    for base in range(0, 65536, 2048):
                        yield {"form": i, "text": f.mn + " " + f.ops, "spell": 0, "wide": base}

    def insts(self, f, wide=None):
        """(value text alternatives handled by caller): yields (v, d, e)"""
        has = lambda c: c in f.enc
        ns = [0]
        if has("n"):
            ns = list(range(-128, 256))
        if has("wl"):
            ns = W if wide is None else list(range(wide, wide + 2048))
        ds = range(-128, 128) if has("d") else [0]
        es = range(-128, 128) if has("e") else [0]
        if has("d") and has("n"):
            for d in ds:
                for n in (0, 1, 127, 128, 255, -1, -128, d & 255):
                    yield n, d, 0
            for n in ns:
                for d in (-128, -1, 0, 1, 127):
                    yield n, d, 0
            return
        for n in ns:
            for d in ds:
                for e in es:
                    yield n, d, e

    def run(self, case, ctx):
        f = z80.FORMS[case["form"]]
        sp = case["spell"]
        org = [0, 0x4000, 0x8000, 0xFF00, 0x9D95, 0x100][sp]
        if "e" in f.enc:        # keep relative jumps inside the 64K address space: wrapping ones are C03's subject
            org = [0x200, 0x4000, 0x8000, 0xF000, 0x9D95, 0x100][sp]
        pc = org
        items = []
        head = " .org %d\n" % org
        eq = 0
        for v, d, e in self.insts(f, case.get("wide")):
            enc = z80.encode(f, v, d, e)
            vt = str(v)
            dts = dtexts(d) if "d" in f.enc else ["+0"]
            if sp == 1 and v >= 0:
                vt = "$%x" % v
            elif sp == 2:
                vt = "%sh" % ("0%x" % v) if v >= 0 else "-%d" % -v
            elif sp == 3:
                eq += 1
                items.append(("eq%d = %d\n" % (eq, v if "n" in f.enc or "wl" in f.enc else d), b""))
                vt = "eq%d" % eq
                if "d" in f.enc and "n" not in f.enc:
                    dts = ["+eq%d" % eq]
            elif sp == 4:
                vt = "%d" % v
                vt = "0+" + vt if v >= 0 else "0" + vt
            for dt in dts:
                tgt = pc + 2 + e
                et = "$%+d" % (2 + e) if sp in (0, 2) else "%d" % tgt
                if sp == 3 and "e" in f.enc:
                    items[-1] = ("eq%d = %d\n" % (eq, tgt), b"")
                    et = "eq%d" % eq
                t = z80.text(f, vt, dt, et)
                if sp == 1:
                    t = t.upper()
                elif sp == 2:
                    t = t.replace(",", " , ")
                    t = t.replace(" ", "\t", 1)
                elif sp == 5:
                    t = "L%d: " % len(items) + t
                items.append((("" if sp == 5 else " ") + t + "\n", enc))
                pc += len(enc)
                items.append((" .dw $\n", le(pc, 2)))
                pc += 2
                ctx.outcome(case["form"], enc)
        return check_items(ctx, items, head=head, what=case["text"])


CHECK = C01()
