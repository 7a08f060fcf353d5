"""C29: declaration shapes and declaration histories of .addinstr against a model of the instruction set.

shape : every (mnemonic, operand pattern, opcode length 1..8, operand width, end data, spelling) declared and used
same  : with one instruction added to a mnemonic, every built-in form of the whole instruction set still encodes as before
over  : every built-in form without a numeric operand redeclared: the added one wins, all others of the mnemonic stay
hist  : all sequences of declarations and uses over three colliding instructions up to a depth
ext   : the shipped inc/z80ext.inc against the composition of the plain instructions it stands for
bad   : malformed declarations are errors; uses before, or without, the declaration are errors
"""
import itertools
from .. import core, z80, ez80
from ..lib import clean, diags, le

MN = ["foo", "Foo2", "x", "addq", "ld", "adc", "ccf", "nop", "xor", "jp", "bit", "rst", "ini", "zzz_long_name_of_an_instruction", "bcall", "l", "ldq", "incs"]
PAT = [("\"\"", []), ("a", []), ("a,b", []), ("(hl+)", []), ("hl,de,bc", []), ("q", []), ("*", ["{0}"]), ("(*)", ["({0})"]), ("r7,*", ["r7,{0}"]), ("*,r7", ["{0},r7"]), ("(*),r7", ["({0}),r7"]),
       ("r7,(*)", ["r7,({0})"]), ("*,*", ["{0},{1}"]), ("(*),*", ["({0}),{1}"]), ("*,r7,*", ["{0},r7,{1}"]), ("*,*,*", ["{0},{1},{2}"]), ("(hl+),*", ["(hl+),{0}"])]
BYTES = [0xED, 0x12, 0x00, 0xFF, 0x80, 0x7F, 0xCB, 0x01]
TAILS = ["", " NOP", " NOP 1", " ZIX 1"]
VALS = {1: [0, 1, 0x7F, 0x80, 0xFF], 2: [0, 1, 0x100, 0x1234, 0xFFFF]}


def hexs(b):
    """opcode as .addinstr spells it: the first byte emitted is written last"""
    return bytes(b[::-1]).hex()


def decl(mn, args, b, width, end, tail=" NOP 1", style=0):
    n = args.count("*")
    sep = (" ", "\t", "   ", " \t ")[style & 3]
    h = hexs(b)
    h = h.upper() if style & 1 else h
    t = sep.join((" .addinstr" if style < 4 else ".ADDINSTR", mn.upper() if style & 2 else mn, args, h, str(len(b) + n * width + (end is not None))))
    if end is not None:
        t += " NOP 1 %02X" % end
    else:
        t += tail
    return t + "\n"


def enc(b, vals, width, end, adl=False):
    return bytes(b) + b"".join(le(v, 3 if adl and width == 2 else width) for v in vals) + (bytes([end]) if end is not None else b"")


# every built-in form with fixed operand values
def z80_forms():
    out = []
    for f in z80.FORMS:
        v = 0x5A if "n" in f.enc else 0x1234
        t = z80.text(f, v=str(v), d="+3", e="$+5")
        out.append((f, t, z80.encode(f, v=v, disp=3, rel=3)))
    return out


def ez80_forms():
    out = []
    for f in ez80.FORMS:
        v = 0x5A if "n" in f.enc else 0x123456
        t = z80.text(f, v=str(v), d="+3", e="$+5")
        b = ez80.encode(f, "", True, v=v, disp=3, rel=3)
        out.append((f, t, b))
    return out


class Addinstr(core.Check):
    id = "C29"
    level = "exploration"
    rule = ("%d mnemonics x %d operand patterns x opcode lengths 1..8 x operand widths x end data x spellings, each declared and used; every built-in form after a declaration for every mnemonic; every operand-less built-in form overridden; "
            "all histories of declarations and uses of three colliding instructions up to a depth; the shipped extension file; malformed declarations") % (len(MN), len(PAT))
    assumptions = ["the opcode is written as one hexadecimal number whose low byte is emitted first (TASM convention, as in inc/z80ext.inc)", "a declaration whose pattern accepts any expression takes precedence over register operands of the same shape"]

    def bounds(self, tier):
        return {"history depth": 4 if tier == "quick" else 6, "opcode bytes": 8}

    def cases(self, tier):
        q = tier == "quick"
        for m in range(len(MN)):
            for p in range(len(PAT)):
                yield ["shape", m, p]
        mns = sorted({f.mn for f in z80.FORMS})
        for m in mns:
            yield ["same", m, 0]
        for m in sorted({f.mn for f in ez80.FORMS}):
            yield ["same", m, 1]
        for m in mns:
            yield ["over", m]
        n = len(self.OPS)
        for k in range(1, (4 if q else 6) + 1):
            if k < 3:
                yield ["hist", k]
            else:
                for pre in itertools.product(range(n), repeat=2):
                    yield ["hist", k, *pre]
        yield ["ext"]
        for p in range(6):
            yield ["bad", p]

    def run(self, case, ctx):
        bad = list(itertools.islice((m for m in getattr(self, "f_" + case[0])(ctx, *case[1:]) if m), 4))
        return "\n".join(bad) or None

    def expect(self, ctx, what, src, exp, *opts, **kw):
        r = ctx.asm(src, *opts, **kw)
        ctx.traces += 1
        ctx.outcome(exp[:24])
        if not clean(r) or r.files.get("a.bin") != exp:
            got = r.files.get("a.bin")
            p = next((k for k in range(min(len(got), len(exp))) if got[k] != exp[k]), min(len(got), len(exp))) if got is not None else 0
            return "%s: byte %d is %s, expected %s: %s\nprogram: %r" % (what, p, None if got is None else got[p:p + 8].hex(), exp[p:p + 8].hex(), r.brief()[:300], src[:300])
        return None

    def f_shape(self, ctx, m, p):
        mn, (args, uses) = MN[m], PAT[p]
        if mn in ("ld", "jp", "bit", "rst", "adc", "xor") and args in ("*", "(*)", "*,*", "(*),*", "*,*,*", "a", "a,b", "\"\""):
            return      # those overlap built-in forms, see f_over
        k = args.count("*")
        style = 0
        for n in range(1, 9):
            for width in (1, 2) if k else (1,):
                for end in (None, 0x23, 0, 0xFF):
                    for tail in TAILS if end is None else [""]:
                        style = (style + 1) % 8
                        b = BYTES[n - 1:] + BYTES[:n - 1]
                        b = b[:n]
                        src = decl(mn, args, b, width, end, tail, style)
                        vals = [VALS[width][(n + i) % 5] for i in range(k)]
                        u = (uses[0].format(*vals) if uses else args.strip("\""))
                        ctx.state((mn, args, n, width, end))
                        ctx.transition((mn, args, n, width, end, tail))
                        for opts in ([], ["-E"]) if n < 3 else ([],):
                            adl = bool(opts)
                            one = enc(b, vals, width, end, adl)
                            lw = 2
                            exp = one + b"\xC9" + one + one + b"\x3e\x05"
                            exp += le(len(exp), lw)
                            prog = src + " %s %s\n ret\n %s\t%s ; comment\n%s %s\n ld a,5\nend9: .dw end9\n" % (mn, u, mn.upper(), u.upper(), "l1:" + mn.lower(), u.replace(",", " , "))
                            yield self.expect(ctx, "%s %s" % (mn, args), prog, exp, *opts)
                        # operands known later
                        if k:
                            late = {"v%d" % i: v for i, v in enumerate(vals)}
                            prog = src + " %s %s\nend9: .dw end9\n" % (mn, uses[0].format(*late)) + "".join("%s = %d\n" % kv for kv in late.items())
                            yield self.expect(ctx, "%s %s late" % (mn, args), prog, enc(b, vals, width, end) + le(len(enc(b, vals, width, end)), 2))

    def f_same(self, ctx, mn, ez):
        forms = ez80_forms() if ez else z80_forms()
        opts = ["-E"] if ez else []
        for args, use, vals in (("q9", "q9", []), ("q9,*", "q9,7", [7]), ("(hl*)", "(hl*)", None)):
            if vals is None:
                continue
            src = decl(mn, args, [0xED, 0x99], 1, None)
            exp = b""
            for i, (f, t, b) in enumerate(forms):
                src += " %s\n" % t
                exp += b
                if i % 97 == 5:
                    src += " %s %s\n" % (mn, use)
                    exp += enc([0xED, 0x99], vals, 1, None)
            ctx.state(("same", mn, ez, args))
            ctx.transition(("same", mn, ez, args))
            yield self.expect(ctx, "all instructions after adding %s %s" % (mn, args), src, exp, *opts)

    def f_over(self, ctx, mn):
        forms = [x for x in z80_forms() if x[0].mn == mn]
        for f, t, b in forms:
            if "{" in f.ops:
                continue
            args = f.ops or "\"\""
            src = decl(mn, args, [0xAA, 0xBB, 0xCC], 1, None)
            exp = b""
            for g, t2, b2 in forms:
                src += " %s\n" % t2
                exp += bytes([0xAA, 0xBB, 0xCC]) if g.ops == f.ops else b2
            # before the declaration the built-in one is used
            src = " %s\n" % t + src
            exp = b + exp
            ctx.state(("over", t))
            ctx.transition(("over", t))
            for head, tail in (("", ""), ("#if 1\n", ""), ):
                s = src if not head else " %s\n#if 1\n" % t + src.split("\n", 1)[1] + "#endif\n"
                yield self.expect(ctx, "override %s" % t, s, exp)
            # a declaration in a skipped branch has no effect; one in a macro or include has
            d = decl(mn, args, [0xAA, 0xBB, 0xCC], 1, None)
            yield self.expect(ctx, "skipped override %s" % t, "#if 0\n%s#endif\n %s\n" % (d, t), b)
            yield self.expect(ctx, "override %s in an include" % t, " %s\n#include \"g.inc\"\n %s\n" % (t, t), b + b"\xAA\xBB\xCC", files={"g.inc": d})
            yield self.expect(ctx, "override %s in a macro" % t, "#macro addit()\n; body\n%s#endmacro\n %s\n addit()\n %s\n" % (d, t, t), b + b"\xAA\xBB\xCC")

    # histories: declarations of three instructions that collide, with two encodings each, and their uses
    OPS = [("d", "ld", "a,b", (0x11, 0xA1)), ("d", "ld", "a,b", (0x12,)), ("d", "ld", "r7,*", (0x21, 0xA2)), ("d", "ld", "r7,*", (0x22, 0xA3, 0xA4)), ("d", "fresh", "a,b", (0x31,)), ("d", "fresh", "r7,*", (0x41, 0xA5)),
           ("u", "ld", "a,b", ()), ("u", "ld", "r7,*", (5,)), ("u", "fresh", "a,b", ()), ("u", "fresh", "r7,*", (0x77,)), ("u", "ld", "a,c", ())]

    def f_hist(self, ctx, k, *pre):
        for rest in itertools.product(range(len(self.OPS)), repeat=k - len(pre)):
            seq = pre + rest
            if self.OPS[seq[-1]][0] != "u":
                continue
            table = {("ld", "a,b"): (0x78,), ("ld", "a,c"): (0x79,)}
            src, exp, ok = "", b"", True
            for i in seq:
                kind, mn, args, data = self.OPS[i]
                if kind == "d":
                    src += decl(mn, args, list(data), 1, None)
                    table[mn, args] = data
                else:
                    src += " %s %s\n" % (mn, args.replace("*", str(data[0]) if data else ""))
                    if (mn, args) not in table:
                        ok = False
                        break
                    exp += bytes(table[mn, args]) + bytes(data)
                ctx.transition(("hist", tuple(sorted(table.items())), i))
                ctx.state(("hist", tuple(sorted(table.items()))))
            if ok:
                yield self.expect(ctx, "history", src, exp)
            else:
                r = ctx.asm(src)
                ctx.traces += 1
                if r.crashed or r.status < 2 or not any(d[2] == "error" for d in diags(r)):
                    yield "undeclared instruction accepted: %r: %s" % (src, r.brief()[:300])

    def f_ext(self, ctx):
        enc1 = {}
        for f, t, b in z80_forms():
            if "{" not in f.ops:
                enc1[(f.mn + " " + f.ops).strip()] = b
        inc = {"hl+": b"\x23", "hl-": b"\x2b", "bc+": b"\x03", "bc-": b"\x0b", "de+": b"\x13", "de-": b"\x1b"}
        uses = []
        for mn, argf in (("adc", "a,{}"), ("add", "a,{}"), ("and", "{}"), ("dec", "{}"), ("inc", "{}"), ("or", "{}"), ("xor", "{}"), ("sub", "{}"), ("rl", "{}"), ("rr", "{}"), ("rrc", "{}"), ("sla", "{}"), ("sra", "{}"), ("srl", "{}"), ("sll", "{}")):
            for x in ("hl+", "hl-"):
                base = (mn + " " + argf.format("(hl)"))
                uses.append((mn + " " + argf.format("(%s)" % x), enc1[base] + inc[x]))
        for x in ("hl+", "hl-"):
            uses.append(("sl1 (%s)" % x, enc1["sll (hl)"] + inc[x]))
            uses.append(("sbc a,(%s)" % x, enc1["sbc a,(hl)"] + inc[x])) if x == "hl+" else None
            for r in "abcde":
                uses.append(("ld (%s),%s" % (x, r), enc1["ld (hl),%s" % r] + inc[x]))
                uses.append(("ld %s,(%s)" % (r, x), enc1["ld %s,(hl)" % r] + inc[x]))
            for v in (0, 1, 255):
                uses.append(("ld (%s),%d" % (x, v), b"\x36" + bytes([v]) + inc[x]))
        for x in ("bc+", "bc-", "de+", "de-"):
            uses.append(("ld (%s),a" % x, enc1["ld (%s),a" % x[:2]] + inc[x]))
        for x in ("bc+", "bc-"):
            uses.append(("ld a,(%s)" % x, enc1["ld a,(bc)"] + inc[x]))
        uses.append(("ld hl,a,(hl)", enc1["ld a,(hl)"] + b"\x23" + enc1["ld h,(hl)"] + enc1["ld l,a"]))
        for a in ("bc", "de", "hl"):
            for b in ("bc", "de", "hl"):
                if a != b:
                    one = [enc1["ld %s,%s" % (a[0], b[0])], enc1["ld %s,%s" % (a[1], b[1])]]
                    uses.append(("ld %s,%s" % (a, b), {one[0] + one[1], one[1] + one[0]}))
        with open(core.REPO + "/inc/z80ext.inc") as f:
            ext = f.read()
        for t, b in uses:
            r = ctx.asm("#include \"z80ext.inc\"\n %s\n ret\n" % t, files={"z80ext.inc": ext})
            ctx.traces += 1
            ctx.transition(("ext", t))
            alts = b if isinstance(b, set) else {b}
            if not clean(r) or r.files.get("a.bin") not in {x + b"\xc9" for x in alts}:
                yield "%s: expected %s, got %s" % (t, [x.hex() for x in alts], r.brief()[:300])
        src, exp = "#include \"z80ext.inc\"\n", b""
        for f, t, b in z80_forms():
            src += " %s\n" % t
            exp += b
        yield self.expect(ctx, "built-in instructions with z80ext.inc", src, exp, files={"z80ext.inc": ext})

    def f_bad(self, ctx, p):
        if p == 0:
            L = ["", "foo", "foo a", "foo a 01", "foo \"\"", "foo \"\" 01"]
            L += ["foo a %s 1" % h for h in ("1", "011", "0", "zz", "0g", "g0", "$01", "01h", "0x01", "-1", "0 1", "01,02", "")]
        elif p == 1:
            L = ["foo a %s %d" % ("01" * n, n) for n in (9, 10, 16, 32, 64, 100)] + ["foo a %s %d" % ("01" * n + "0", n) for n in range(1, 9)]
        elif p == 2:
            L = ["foo a %s %d" % ("01" * n, s) for n in (1, 2, 3, 4, 8) for s in list(range(-2, 12)) + [255, 256, 65536, 2147483647] if s != n]
        elif p == 3:
            L = ["foo %s 01 %d" % (a, s) for a, k in (("*", 1), ("r7,*", 1), ("*,*", 2), ("*,r7,*", 2), ("*,*,*", 3)) for s in range(0, 12) if s - 1 not in (k, 2 * k)]
            L += ["foo *,*,*,* 01 %d" % s for s in range(1, 12)]
        elif p == 4:
            L = ["foo a 01 2 NOP 1 %s" % e for e in ("zz", "g", "100", "1234", "0g", "$1", "-1")] + ["foo a 01 %d NOP 1 23" % s for s in (0, 1, 3, 4)]
        else:
            L = ["foo a 01 %s" % s for s in ("x9", "$", "1+", "\"1\"", "(", "one")]
        for l in L:
            if l.endswith("01 $") or l.endswith("$"):
                continue
            for use in ("", " foo a\n"):
                src = " nop\n .addinstr %s\n nop\n%s" % (l, use)
                r = ctx.asm(src)
                ctx.traces += 1
                ctx.state(("bad", l))
                ctx.transition(("bad", l, use))
                d = diags(r)
                if r.crashed or r.status < 2 or not any(x[2] == "error" and x[1] == 2 for x in d):
                    yield "malformed declaration accepted: .addinstr %s: %s" % (l, r.brief()[:300])


CHECK = Addinstr()
