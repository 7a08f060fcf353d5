"""C05: every notation of every value up to a width, every digit string up to a length, every character and escape."""
import itertools
from .. import core
from ..lib import clean, diags, le, check_items

ALPHA = "0129aFgxbdhD_"
M32 = 1 << 32
BND = sorted({v for k in range(33) for v in ((1 << k) - 1, 1 << k, (1 << k) + 1) if v < M32} | {10 ** k for k in range(10)} | {0xABCDEF, 0xDEADBEEF, 3 * 10 ** 9})
BIG = [M32, M32 + 1, M32 * 2 + 5, M32 * 10, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 64, (1 << 64) + 7, M32 << 60, 10 ** 38]
NOT = [lambda v: "$%X" % v, lambda v: "$%x" % v, lambda v: hx(v, "H", True), lambda v: hx(v, "h", False), lambda v: "%" + bin(v)[2:],
       lambda v: bin(v)[2:] + "b", lambda v: bin(v)[2:] + "B", lambda v: "%d" % v, lambda v: "%dd" % v, lambda v: "%dD" % v]


def hx(v, suf, up):
    s = ("%X" if up else "%x") % v
    return ("0" if not s[0].isdigit() else "") + s + suf


def zeros(t, n):
    p = t[0] if t[0] in "$%" else ""
    return p + "0" * n + t[len(p):]


def value(tok):
    """the written value of an alphanumeric token with optional prefix, None if malformed (or too large: -1)"""
    t = tok.lower()
    if t[0] == "$":
        body, base = t[1:], 16
    elif t[0] == "%":
        body, base = t[1:], 2
    elif t[-1] in "hbd":
        body, base = t[:-1], {"h": 16, "b": 2, "d": 10}[t[-1]]
    else:
        body, base = t, 10
    if not body:
        return None
    n = 0
    for c in body:
        d = "0123456789abcdef".find(c)
        if d < 0 or d >= base:
            return None
        n = n * base + d
    return n if n < M32 else None


CH = [bytes([c]) for c in range(1, 256) if c not in (10, 13, 92)]
ESC = {b"\\n": 10, b"\\N": 10, b"\\r": 13, b"\\t": 9, b"\\0": 0, b"\\\\": 92, b"\\'": 39, b'\\"': 34, b"\\q": 113, b"\\;": 59, b"\\,": 44}
CTX = [
    (b" ld a,%s\n", lambda v: b"\x3e" + le(v, 1)),
    (b" .db %s\n", lambda v: le(v, 1)),
    (b" .dw %s\n", lambda v: le(v, 2)),
    (b" .db 1,%s,2\n", lambda v: b"\1" + le(v, 1) + b"\2"),
    (b" .db %s,%s\n", lambda v: le(v, 1) * 2),
    (b" .dw %s+1 ; it's\n", lambda v: le(v + 1, 2)),
    (b"t@ = %s\n .dw t@\n", lambda v: le(v, 2)),
    (b"#define q@ %s\n .dw q@\n", lambda v: le(v, 2)),
    (b"#define e@ eval(%s)\n .dw e@\n", lambda v: le(v, 2)),
    (b" m(%s,7)\n", lambda v: le(v, 2) + b"\7"),
    (b" .dw (fw*0)+%s\n", lambda v: le(v, 2)),
    (b" .dw fw*0+(%s)\n", lambda v: le(v, 2)),
    (b" .db \"a'\",%s,\"'b\"\n", lambda v: b"a'" + le(v, 1) + b"'b"),
    (b" ld (ix+5),%s\n", lambda v: b"\xdd\x36\x05" + le(v, 1)),
    (b" ld a,%s \\ inc a\n", lambda v: b"\x3e" + le(v, 1) + b"\x3c"),
    (b" cp %s\\ ret z\n", lambda v: b"\xfe" + le(v, 1) + b"\xc8"),
    (b"#if %s = fv@\n nop\n#endif\n", lambda v: b"\0"),
]
# definitions whose names are the letters a literal may hold: none of them may be taken for a name
NAMES = "".join("#define %s 99\n" % n for n in [c for c in "bcdefghijklnopqrstuvwz"] + [a + b for a in "abcdef" for b in "abcdefh"] + ["x41", "b1", "a0", "f0f", "n1", "hi"]) + "#macro g(x)\n 99\n#endmacro\n#macro a()\n 98\n#endmacro\n"
NUMS = ["$%x" % v for v in (0xa, 0xb, 0xab, 0xba, 0xf0, 0xff, 0xa0, 0xdb, 0xbd, 1)] + ["$%X" % v for v in (0xa, 0xb, 0xab, 0xba, 0xf0, 0xff, 0xdd)] + ["0ah", "0abh", "0BAH", "0f0h", "0bdh", "1b", "101b", "11B", "1d", "77d", "9D", "%1", "%1010", "00ah", "0dh", "0bh", "0B", "0D"]
HEAD = b" .org 0\n#macro m(x,y)\n .dw x\n .db y\n#endmacro\n"


class C05(core.Check):
    id = "C05"
    level = "exploration"
    rule = ("every value 0..65535 in 10 notations; every power of two +-1 and decimal power up to 2^32 in 10 notations x 0,1,3,35 leading "
            "zeros in full 32 bits; every value beyond 32 bits from a boundary list in 10 notations; every token of length 1..4 "
            "(thorough: 5) over %r with prefix none,$,%% classified valid or malformed by an independent reader; every character "
            "1..255 and 11 escapes in 17 contexts. Malformed or oversized tokens must be diagnosed at their line. "
            "Non-trivial: distinct token and value" % ALPHA)
    assumptions = ["'\\#' (random byte) is excluded; '_' may not follow a digit", "characters LF, CR, NUL cannot be written in a literal"]

    def cases(self, tier):
        for n in range(len(NOT)):
            for hi in range(0, 65536, 1024):
                yield {"k": "val", "n": n, "from": hi}
        for n in range(len(NOT)):
            for z in (0, 1, 3, 35):
                yield {"k": "bnd", "n": n, "z": z}
                yield {"k": "big", "n": n, "z": z}
        for p in ("", "$", "%"):
            for l in range(1, 5 if tier == "quick" else 6):
                for h in itertools.product(ALPHA, repeat=min(2, l)):
                    if l == 5:
                        for h2 in ALPHA:
                            yield {"k": "tok", "p": p, "h": "".join(h) + h2, "l": l}
                    else:
                        yield {"k": "tok", "p": p, "h": "".join(h), "l": l}
        for c in range(len(CTX)):
            yield {"k": "chr", "c": c}
            yield {"k": "esc", "c": c}
            yield {"k": "chr", "c": c, "d": 1}
            yield {"k": "esc", "c": c, "d": 1}
            yield {"k": "num", "c": c, "d": 1}

    def run(self, case, ctx):
        k = case["k"]
        if k == "val":
            its = []
            for v in range(case["from"], case["from"] + 1024):
                t = NOT[case["n"]](v)
                ctx.outcome(t, v)
                its.append((" ld hl,%s\n" % t, b"\x21" + le(v, 2)))
            return check_items(ctx, its, what="literal")
        if k == "bnd":
            its = []
            for v in BND:
                t = zeros(NOT[case["n"]](v), case["z"])
                ctx.outcome(t, v)
                its.append((" .dw %s,%s>>16\n" % (t, t), le(v, 2) + le(v >> 16 | (0xFFFF0000 if v >> 31 else 0), 2)))
            return check_items(ctx, its, what="literal")
        if k == "big":
            return self.bad([zeros(NOT[case["n"]](v), case["z"]) for v in BIG], ctx)
        if k == "tok":
            good, bad = [], []
            for t in itertools.product(ALPHA, repeat=case["l"] - len(case["h"])):
                s = case["h"] + "".join(t)
                if not case["p"] and not s[0].isdigit():
                    continue
                if case["p"] == "$" and s[0].lower() not in "0123456789abcdef":
                    continue                              # that is $ (the program counter) followed by text
                s = case["p"] + s
                v = value(s)
                (bad if v is None else good).append((s, v))
            for i in range(0, len(good), 90):
                its = []
                for s, v in good[i:i + 90]:
                    ctx.outcome(s, v)
                    its.append((" .dw %s,%s>>16\n" % (s, s), le(v, 2) + le(v >> 16, 2)))
                m = check_items(ctx, its, what="literal")
                if m:
                    return m
            return self.bad([s for s, v in bad], ctx)
        tmpl, enc = CTX[case["c"]]
        its = []
        pairs = [(b"'" + c + b"'", c[0]) for c in CH] if k == "chr" else [(t.encode(), value(t)) for t in NUMS] if k == "num" else [(b"'" + e + b"'", v) for e, v in ESC.items()]
        for i, (t, v) in enumerate(pairs):
            ctx.outcome(case["c"], t, v)
            s = tmpl.replace(b"%s", t).replace(b"fv@", b"%d" % v).replace(b"@", b"%d" % i) if t != b"'@'" else tmpl.replace(
                b"fv@", b"64").replace(b"@", b"%d" % i).replace(b"%s", t)
            its.append((s.decode("latin-1"), enc(v)))
        for i in range(0, len(its), 64):
            m = check_items(ctx, its[i:i + 64], head=(NAMES if case.get("d") else "") + HEAD.decode(), tail="fw = 77\n", what="character literal")
            if m:
                return m

    def bad(self, toks, ctx):
        for i in range(0, len(toks), 90):
            part = toks[i:i + 90]
            r = ctx.asm("".join(" .dw %s\n" % t for t in part))
            seen = {d[1] for d in diags(r)}
            miss = [t for n, t in enumerate(part) if n + 1 not in seen]
            if r.crashed or r.status == 0 or miss:
                return "malformed or oversized literal %r must be reported: %s" % ((miss or part)[0], r.brief())
            for t in part:
                ctx.outcome(t, None)


CHECK = C05()
