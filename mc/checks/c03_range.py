"""C03: operand range checking, every operand kind x values around/far from the limits x how and when the value becomes known."""
from .. import core, z80, ez80
from ..lib import clean, reported, diags

FAR = [256, 257, 300, 511, 512, 1000, 32767, 32768, 65535, 0x7FFFFFFF, -129, -130, -200, -255, -256, -257, -1000, -32768, -32769,
       -0x80000000, -65536, -65535, 65536, 65537, 0x10080, 0x1000000, -0x1000000]
# kind -> (statement template with {x}, lo, hi, ez80 only/both/z80)
KINDS = {
    "n8": ("ld a,{x}", -128, 255, ""), "n8mem": ("out ({x}),a", -128, 255, ""), "n8idx": ("ld (ix+1),{x}", -128, 255, ""),
    "db": (".db {x}", -128, 255, ""), "byte": (".db 1,{x},2", -128, 255, ""),
    "idx": ("ld a,(ix+{x})", -128, 127, ""), "idy": ("ld (iy+{x}),b", -128, 127, ""), "idxn": ("ld (ix+{x}),5", -128, 127, ""),
    "idxcb": ("rlc (ix+{x})", -128, 127, ""), "idxbit": ("bit 3,(iy+{x})", -128, 127, ""), "idxm": ("ld a,(ix-({x}))", -127, 128, ""),
    "bit": ("bit {x},a", 0, 7, ""), "res": ("res {x},(hl)", 0, 7, ""), "set": ("set {x},(ix+4)", 0, 7, ""),
    "rst": ("rst {x}", None, None, ""),
    "jr": ("jr $+2+{x}", -128, 127, ""), "jrc": ("jr nz,$+2+{x}", -128, 127, ""), "djnz": ("djnz $+2+{x}", -128, 127, ""),
    "n16": ("ld.sis hl,{x}", -32768, 65535, "e"), "n16mem": ("ld.sis a,({x})", -32768, 65535, "e"), "dw": (".dw {x}", -32768, 65535, "e"),
    "adl0": ("jp {x}", -32768, 65535, "0"),
    "lea": ("lea hl,ix+{x}", -128, 127, "e"), "pea": ("pea iy+{x}", -128, 127, "e"), "in0": ("in0 a,({x})", -128, 255, "e"),
    "fill": (".fill 2,{x}", -128, 255, "n"), "block": (".block 1,{x}", -128, 255, "n"), "fill2": (".fill 1+1,1*({x})", -128, 255, "n"),
    "tst": ("tst a,{x}", -128, 255, "e"), "jrl": ("jr.lil $+3+{x}", -128, 127, "e"),
}
CTX = ["literal", "equate", "forward", "fwdexpr", "label", "macro", "fwdmacro", "define", "include"]


def build(kind, v, c, org=0x4000):
    t, lo, hi, e = KINDS[kind]
    pre = ".assume adl=0\n" if e == "0" else ""
    pre += "#macro M(q)\n %s\n#endmacro\n" % t.replace("{x}", "q")
    pre += " .org %d\n" % org
    lit = str(v)
    files = {}
    if c == "literal":
        b = " %s\n" % t.replace("{x}", lit)
    elif c == "equate":
        b = "vv = %s\n %s\n" % (lit, t.replace("{x}", "vv"))
    elif c == "forward":
        b = " %s\nvv = %s\n" % (t.replace("{x}", "vv"), lit)
    elif c == "fwdexpr":
        b = " %s\nvv = %s\n" % (t.replace("{x}", "1+vv-6"), "%d" % (v + 5))
    elif c == "label":
        if v < 0:
            return None
        b = " %s\n .org %d\nvv:\n" % (t.replace("{x}", "vv"), v)
    elif c == "macro":
        b = " M(%s)\n" % lit
    elif c == "fwdmacro":
        b = " M(vv)\nvv = %s\n" % lit
    elif c == "define":
        b = "#define vv %s\n %s\n" % (lit, t.replace("{x}", "vv"))
    else:
        b = '#include "i.inc"\nvv = %s\n' % lit
        files["i.inc"] = " %s\n" % t.replace("{x}", "vv")
    return pre + b + " nop\n", files


class C03(core.Check):
    id = "C03"
    level = "exploration"
    rule = ("%d operand kinds (8-bit, memory, indexed, bit, restart, relative, eZ80 16-bit, data) x every value of a window around "
            "both limits plus far values up to the 32-bit extremes x 9 ways the value reaches the operand (literal, equate, define, "
            "macro argument, forward equate/label/expression, through an include); plus every instruction form of the Z80 and eZ80 "
            "models x just-outside values x known/forward. Each out-of-range execution must report, each in-range one must be clean. "
            "Non-trivial: distinct (kind, value, context)") % len(KINDS)
    assumptions = ["relative jumps that wrap around the 16-bit address space are outside the property",
                   "in Z80 mode 16-bit operands are unchecked by design (page bits), so only eZ80 16-bit limits are checked"]

    def cases(self, tier):
        w = 12 if tier == "quick" else 80
        for k, (t, lo, hi, e) in KINDS.items():
            if k == "rst":
                vs = list(range(-20, 300 if tier == "quick" else 1100)) + FAR
            else:
                vs = set(range(lo - w, lo + 4)) | set(range(hi - 3, hi + w + 1)) | set(FAR) | {0, 1, -1}
                if hi - lo < 500 and tier != "quick":
                    vs |= set(range(-1200, 1200))
                vs = sorted(vs, key=lambda x: (abs(x), x))
            if k in ("jr", "jrc", "djnz"):
                vs = [v for v in vs if 0 <= 0x4002 + v <= 0xFFFF]
            if k == "jrl":
                vs = [v for v in vs if 0 <= 0x4003 + v <= 0xFFFFFF]
            for c in CTX:
                if e == "n" and c in ("forward", "fwdexpr", "label", "fwdmacro", "include"):
                    continue          # the value must be known at the directive
                for v in vs:
                    if c == "fwdexpr" and abs(v) > 0x70000000:
                        continue
                    if c == "literal" and v == -0x80000000:
                        continue          # the literal's magnitude itself is out of range (C05)
                    yield {"kind": k, "v": v, "ctx": c}
        for ez in (0, 1):
            for i, f in enumerate(ez80.FORMS if ez else z80.FORMS):
                if set("ned") & {x for x in f.enc if isinstance(x, str)} or (ez and "wl" in f.enc):
                    yield {"form": i, "ez": ez, "text": f.mn + " " + f.ops}
                if f.mn in ("bit", "res", "set") and "," in f.ops:
                    yield {"form": i, "ez": ez, "text": f.mn + " " + f.ops}

    def run(self, case, ctx):
        if "form" in case:
            return self.form(case, ctx)
        k, v, c = case["kind"], case["v"], case["ctx"]
        b = build(k, v, c)
        if b is None:
            return None
        t, lo, hi, e = KINDS[k]
        ok = (v in range(0, 64, 8)) if k == "rst" else lo <= v <= hi
        r = ctx.asm(b[0], *(["-E"] if e in ("e", "0") and e else []), files=b[1])
        ctx.outcome(k, v, c)
        if r.crashed:
            return "%r with %d (%s): %s" % (t, v, c, r.brief())
        if ok and not clean(r):
            return "%r with %d (%s) fits but is not accepted cleanly: %s" % (t, v, c, r.brief())
        if not ok and not reported(r):
            return "%r with %d (%s) does not fit but nothing is reported: %s" % (t, v, c, r.brief())
        if not ok and not diags(r):
            return "%r with %d (%s) does not fit but no diagnostic is printed: %s" % (t, v, c, r.brief())

    def form(self, case, ctx):
        ez = case["ez"]
        f = (ez80.FORMS if ez else z80.FORMS)[case["form"]]
        opts = ["-E"] if ez else []
        has = lambda c: c in f.enc
        bad = []
        ln = len(f.enc)
        base = dict(v="1", d="+1", e="$")
        if has("n"):
            bad += [dict(base, v=str(x)) for x in (-129, 256, 65535, -32768)]
        if has("d"):
            bad += [dict(base, d="%+d" % x) for x in (-129, 128, 255, -200)]
        if has("e"):
            n = ez80.size(f, "", 1) if ez else ln
            bad += [dict(base, e="$%+d" % (n + x)) for x in (-129, 128, 129, -130, 255, 4000)]
        if ez and has("wl"):
            bad += [dict(base, v=str(x), suf=".sis") for x in (-32769, 65536, 0x100000)]
        for how in ("known", "forward"):
            for b in bad:
                vv = dict(b)
                g = f._replace(mn=f.mn + vv.pop("suf", ""))
                t, tail = z80.text(g, vv["v"], vv["d"], vv["e"]), ""
                if how == "forward":
                    t, tail = self.defer(g, vv)
                m = self.must_report(ctx, t, tail, opts, case)
                if m:
                    return m
        if f.mn in ("bit", "res", "set"):
            ops = f.ops.split(",")
            p = 0 if ops[0].isdigit() else 1
            for x in (8, -1, 9, 255, 16):
                for how in (0, 1):
                    o = list(ops)
                    o[p] = "zz" if how else str(x)
                    t = z80.text(f._replace(ops=",".join(o)), "1", "+1", "$")
                    m = self.must_report(ctx, t, "zz = %d\n" % x if how else "", opts, case)
                    if m:
                        return m

    def defer(self, f, vv):
        if vv["v"] != "1":
            return z80.text(f, "zz", vv["d"], vv["e"]), "zz = %s\n" % vv["v"]
        if vv["d"] != "+1":
            return z80.text(f, "1", "+zz", vv["e"]), "zz = %s\n" % vv["d"].lstrip("+")
        if vv["e"] != "$":
            return z80.text(f, "1", "+1", vv["e"].replace("$", "$+zz")), "zz = 0\n"
        return None, None

    def must_report(self, ctx, t, tail, opts, case):
        r = ctx.asm(" .org $4000\n nop\n %s\n nop\n%s" % (t, tail), *opts)
        ctx.outcome(t, tail, tuple(opts))
        if r.crashed or not diags(r):
            return "%r%s does not fit but nothing is reported: %s" % (t, " with " + tail.strip() if tail else "", r.brief())


CHECK = C03()
