"""C04: all expressions up to a number of operators over boundary operands, all operators, parenthesisations, unary prefixes."""
import itertools
from .. import core
from ..lib import clean, reported, s32, le, diags

OPS = ["+", "-", "*", "/", "%", "^", "&", "|", "<<", ">>", "<", ">", "<=", ">=", "=", "==", "!=", "&&", "||"]
MIN = -(1 << 31)
A1 = [("0", 0), ("1", 1), ("2", 2), ("7", 7), ("31", 31), ("$FF", 255), ("32768", 32768), ("$7FFFFFFF", 0x7FFFFFFF), ("$80000000", MIN),
      ("$FFFFFFFF", -1), ("m3", -3), ("d5", 5), ("%1010", 10), ("'A'", 65), ("0FFFFh", 65535), ("65536", 65536), ("d6", 6), ("d7", 7), ("fn(3)", 8)]
AQ = [a for a in A1 if a[0] in ("0", "2", "31", "$80000000", "$FFFFFFFF", "m3", "%1010", "'A'", "65536", "d6", "d7", "fn(3)")]
A2 = [("0", 0), ("3", 3), ("m3", -3), ("$FFFFFFFF", -1), ("$80000000", MIN), ("d5", 5), ("1000000", 1000000)]
A3 = [("0", 0), ("2", 2), ("m3", -3)]
A4 = [("1", 1), ("m3", -3)]
HEAD = " .org 0\nm3 = 0-3\n#define d5 5\n#define d6 (2+4)\n#define d7 3+4\n#macro fn(x)\n#if x>5\n1\n#else\nx+5\n#endif\n#endmacro\n"


class Err(Exception):
    pass


def ap(o, a, b):
    if o == "+":
        return s32(a + b)
    if o == "-":
        return s32(a - b)
    if o == "*":
        return s32(a * b)
    if o in "/%":
        if b == 0 or (a == MIN and b == -1):
            raise Err
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return s32(q) if o == "/" else s32(a - q * b)
    if o == "^":
        return s32(a ^ b)
    if o == "&":
        return s32(a & b)
    if o == "|":
        return s32(a | b)
    if o in ("<<", ">>"):
        if not 0 <= b <= 31:
            raise IndexError
        return s32(a << b) if o == "<<" else a >> b
    return int({"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "=": a == b, "==": a == b, "!=": a != b,
                "&&": a != 0 and b != 0, "||": a != 0 or b != 0}[o])


def un(u, v):
    return {"": v, "-": s32(-v), "~": ~v, "+": v}[u]


# shapes: how an operand list is parenthesised. A shape is a nested tuple of operand indices.
def ev(node, ops, vals):
    """node: int or (unary, [nodes]) : left-to-right over its children; operators consumed in textual order"""
    it = iter(ops)

    def go(n):
        if isinstance(n, int):
            return vals[n]
        u, ch = n
        t = go(ch[0])
        for c in ch[1:]:
            o = next(it)
            t = ap(o, t, go(c))
        return un(u, t)
    return go(node)


def tx(node, ops, texts, sp="", top=True):
    it = iter(ops)

    def go(n, top):
        if isinstance(n, int):
            return texts[n]
        u, ch = n
        s = go(ch[0], False)
        for c in ch[1:]:
            o = next(it)
            s += (sp or (" " if o == "!=" else "")) + o + sp + go(c, False)     # '!' may be part of a name
        return s if top else u + "(" + sp + s + sp + ")"
    return go(node, top)


N = lambda *c: ("", list(c))
SH1 = [N(0, 1)]
SH2 = [N(0, 1, 2), N(N(0, 1), 2), N(0, N(1, 2)), N(0, ("-", [1, 2])), N(0, ("~", [1, 2])), N(("-", [0, 1]), 2), N(N(N(0), N(1)), 2)]
SH3 = [N(0, 1, 2, 3), N(0, N(1, 2), 3), N(0, 1, N(2, 3)), N(N(0, 1), N(2, 3)), N(0, N(1, N(2, 3))), N(N(0, N(1, 2)), 3), N(0, N(N(1, 2), 3)), N(0, N(1, 2, 3))]


class C04(core.Check):
    id = "C04"
    level = "exploration"
    rule = ("all expressions of 1 operator (19 spellings x 19x19 operands x 4x4 unary prefixes x 2 spacings x 7 contexts; quick thins the contexts), of 2 "
            "operators (19^2 x 7^3 operands x 7 parenthesisations) and of 3 operators (19^3 x operand sets x 8 parenthesisations; quick: "
            "2 shapes), plus nesting depth 1..19, compared in full 32 bits with an independent left-to-right evaluator; every division "
            "by zero or overflow must be reported. Shift counts outside 0..31 are not generated. Non-trivial: distinct expression text and value")
    assumptions = ["shifts by counts outside 0..31 are undefined and outside the property"]

    def cases(self, tier):
        for o in OPS:
            for ul in ("", "-", "~", "+"):
                for ur in ("", "-", "~", "+"):
                    for c in range(7):
                        if tier == "quick" and ul and ur and c:
                            continue
                        yield {"n": 1, "ops": [o], "ul": ul, "ur": ur, "ctx": c, "wide": tier != "quick" or not c}
        for o in itertools.product(OPS, repeat=2):
            for s in range(len(SH2)):
                if tier == "quick" and s not in (0, 1, 2, 3):
                    continue
                yield {"n": 2, "ops": list(o), "shape": s}
        for o in itertools.product(OPS, repeat=3):
            for s in range(len(SH3)):
                if tier == "quick" and s not in (0, 3):
                    continue
                yield {"n": 3, "ops": list(o), "shape": s, "wide": tier != "quick"}
        for d in range(1, 20):
            for u in ("", "-", "~"):
                yield {"n": 0, "depth": d, "u": u}
        for g in range(1, 70 if tier == "quick" else 130):
            for k in range(6):
                yield {"n": 0, "groups": g, "k": k}

    def sample(self, case):
        return case

    def exprs(self, case):
        n, ops = case["n"], case.get("ops")
        if n == 0 and "groups" in case:
            # many groups one after the other: nesting that ends must not count for what follows
            g, k = case["groups"], case["k"]
            one = ["(1)", "(((1)))", "-(-1)", "(0+(1))", "((1)+(0))", "fn(0-4)"][k]
            if len(one) * g + g > 230:
                g = 230 // (len(one) + 1)
            for t in (one + ("+" + one) * (g - 1), "+".join([one] * g) + "+((((((((((2))))))))))", "(" + "+".join([one] * g) + ")"):
                if t.startswith("("):
                    t = "0+" + t
                if len(t) < 250:
                    yield t, g + (2 if "2" in t else 0)
            return
        if n == 0:
            v, t = 5, "5"
            for k in range(case["depth"] - 1):
                v = s32(un(case["u"], v) + 1)
                t = "(%s%s+1)" % (case["u"], t) if k % 2 else "(%s%s + 1 )" % (case["u"], t)
            yield t, v
            return
        if n == 1:
            ul, ur = case["ul"], case["ur"]
            for a, b in itertools.product(A1 if case["wide"] else AQ, repeat=2):
                for sp in ("", " "):
                    l = ul + a[0]
                    if ul == "-" and a[0] == "":
                        continue
                    t = l + (sp or (" " if ops[0] == "!=" else "")) + ops[0] + sp + ur + b[0]
                    yield t, lambda a=a, b=b: ap(ops[0], un(ul, a[1]), un(ur, b[1]))
            return
        al, sh = (A2, SH2) if n == 2 else ((A3 if case.get("wide") else A4), SH3)
        node = sh[case["shape"]]
        for i, vals in enumerate(itertools.product(al, repeat=n + 1)):
            t = tx(node, ops, [v[0] for v in vals], " " if i & 1 else "")
            yield t, lambda vals=vals: ev(node, ops, [v[1] for v in vals])

    def run(self, case, ctx):
        good, bad = [], []
        for t, f in self.exprs(case):
            try:
                v = f() if callable(f) else f
            except Err:
                bad.append(t)
                continue
            except IndexError:
                continue
            good.append((t, v))
            ctx.outcome(t, v)
        c = case.get("ctx", 0)
        for i in range(0, len(good), 90):       # long programs without commas are quadratic to parse
            m = self.batch(good[i:i + 90], ctx, c)
            if m:
                return m
        return self.errors(bad, ctx, c)

    def errors(self, bad, ctx, c):
        """every division error must be diagnosed at its line"""
        for i in range(0, len(bad), 90):
            part = bad[i:i + 90]
            text, line, lines = HEAD, HEAD.count("\n"), []
            for k, t in enumerate(part):
                u = self.use(t, c, k)[0]
                lines.append((line + 1, line + u.count("\n")))
                line += u.count("\n")
                text += u
            r = ctx.asm(text)
            seen = {d[1] for d in diags(r)}
            for t, (a, b) in zip(part, lines):
                if r.crashed or r.status == 0 or not any(l in seen for l in range(a, b + 1)):
                    if len(part) > 1:
                        return next(filter(None, (self.errors([x], ctx, c) for x in part)),
                                    "%s: division error is reported alone but not in a program with others" % t)
                    return "%s: division error must be reported: %s" % (t, r.brief())
                ctx.outcome(t, "error")

    def use(self, t, c, k):
        """(lines, encoder of the value)"""
        if c == 0:
            return "t%d = %s\n .dw t%d\n .dw t%d>>16\n" % (k, t, k, k), lambda v: le(v, 4)
        if c == 1:
            return " .dw %s\n" % t, lambda v: le(v, 2)
        if c == 2:
            return " ld hl,%s\n" % t, lambda v: b"\x21" + le(v, 2)
        if c == 3:
            return "#if %s\n .db 1\n#else\n .db 0\n#endif\n" % t, lambda v: bytes([int(v != 0)])
        if c == 4:
            return "#define q%d %s\n .dw q%d\n" % (k, t, k), lambda v: le(v, 2)
        if c == 5:
            return ".dw fw*0+(%s)\n" % t, lambda v: le(v, 2)
        return "#define q%d eval(%s)\n .dw q%d\n" % (k, t, k), lambda v: le(v, 2)

    def batch(self, good, ctx, c):
        if c == 2:
            good = [g for g in good if not g[0].startswith("(")]
        if not good:
            return None
        use = [self.use(t, c, k) for k, (t, v) in enumerate(good)]
        tail = "fw = 77\n" if c == 5 else ""
        exp = [u[1](v) for u, (t, v) in zip(use, good)]
        r = ctx.asm(HEAD + "".join(u[0] for u in use) + tail)
        if clean(r) and r.files.get("a.bin") == b"".join(exp):
            return None
        if len(good) > 1:
            h = len(good) // 2
            return self.batch(good[:h], ctx, c) or self.batch(good[h:], ctx, c) or "batch of %d fails, halves pass: %s" % (
                len(good), r.brief())
        return "%s (context %r) must be %d, i.e. output %s: %s" % (good[0][0], use[0][0].split("\n")[0], good[0][1], exp[0].hex(" "), r.brief())


CHECK = C04()
