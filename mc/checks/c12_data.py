"""C12: every short list of data elements, against the bytes written down for each element."""
import itertools
from .. import core
from ..lib import clean, le

FW, LB = 0x1234, 6


def num(v):
    return lambda u, a: le(v, u)


def raw(b):
    return lambda u, a: bytes(b)


def both(*fs):
    def f(u, a):
        o = b""
        for g in fs:
            o += g(u, a + len(o))
        return o
    return f


# (text, bytes for a unit size at an address, smallest unit size it fits)
EL = [
    ("5", num(5), 1), ("$1234", num(0x1234), 2), ("-1", num(-1), 1), ("'A'", num(65), 1), ("255", num(255), 1), ("%101", num(5), 1), ("lb", num(LB), 1), ("fw", num(FW), 2),
    ("1+2", num(3), 1), ("$", lambda u, a: le(a, u), 1), ("(3)", num(3), 1), ("d1", num(7), 1), ("dlist", both(num(1), raw(b"x;,"), num(2)), 1), ("dexp*2", num(10), 1),
    ("fn(3)", num(4), 1), ("fw&255+1", num(0x35), 1), ("-fw", num(-FW), 2), ("dfl", both(num(0x34), num(2)), 1), ("ds", raw(b"q;"), 1), ("fs(4)", both(raw(b"a,b"), num(4)), 1),
    ("fl", num(9), 1), ("','", num(44), 1), ("';'", num(59), 1), ("'\"'", num(34), 1), ("'\\''", num(39), 1), ("'\\\\'", num(92), 1), ("')'", num(41), 1), ("fn(fw&15)", num(5), 1),
    ("fs(fw&15)", both(raw(b"a,b"), num(4)), 1),
    ('"ab"', raw(b"ab"), 1), ('""', raw(b""), 1), ('"a,b"', raw(b"a,b"), 1), ('"a;b"', raw(b"a;b"), 1), ('"\\""', raw(b'"'), 1), ('"\\\\"', raw(b"\\"), 1), ('"\\n\\0x"', raw(b"\n\0x"), 1),
    ('"\'"', raw(b"'"), 1), ('"("', raw(b"("), 1), ('" x "', raw(b" x "), 1), ('"a\\tb"', raw(b"a\tb"), 1), ('")"', raw(b")"), 1), ('"fw"', raw(b"fw"), 1), ('"$10+1"', raw(b"$10+1"), 1),
    ('"a=b \\r"', raw(b"a=b \r"), 1), ('"\\\'"', raw(b"'"), 1), ('"#"', raw(b"#"), 1), ('"d1"', raw(b"d1"), 1), ("d1+lb", num(13), 1), ("$-lb", lambda u, a: le(a - LB, u), 1),
]
CORE = [0, 7, 9, 12, 17, 19, 21, 29, 30, 31, 33, 34, 36, 37, 40, 28]
DIRS = [(".db", 1), (".dw", 2), (".dl", 3), (".byte", 1), (".word", 2), (".long", 3), (".DB", 1), (".Word", 2), ("d.", 0)]
SEP = [",", ", ", " ,", " , ", ",\t"]
END = ["", " ", " ; c\"", "\t;", "\\ .db 1", " \\ .db 1"]
HEAD = ("#define d1 7\n#define dlist 1,\"x;,\",2\n#define dexp 2+3\n#define fn(x) x+1\n#define dfl fw&255,2\n#define ds \"q;\"\n#define fs(x) \"a,b\",x\n"
        "#macro fl\n 9\n#endmacro\n .org 6\nlb:\n")
TAIL = " .db $55\nfw = $1234\n"
CH = ['"a"', '"\\""', '"\\\\"', '"\'"', '","', '";"', '"("', '")"', '" "', '"\\n"', '"\\0"', '"\\t"', '"\\\'"', '"\\a"']
CHB = [b"a", b'"', b"\\", b"'", b",", b";", b"(", b")", b" ", b"\n", b"\0", b"\t", b"'", b"a"]
CNT = ["0", "1", "2", "3", "lb", "255", "256", "257", "4+1", "(2)", "$", "d1", "fn(2)", "1000", "4*2", "65535", "$10000", "'A'"]
CNTV = [0, 1, 2, 3, 6, 255, 256, 257, 5, 2, 6, 7, 3, 1000, 8, 65535, 65536, 65]
VAL = [None, "0", "1", "255", "-1", "-128", "lb", "$", "'A'", "(9)", "d1", "1+2", "','", "fn(2)", "128"]
VALV = [0, 0, 1, 255, 255, 128, 6, 6, 65, 9, 7, 3, 44, 3, 128]


class Data(core.Check):
    id = "C12"
    level = "exploration"
    rule = ("every list of up to N data elements (numbers, character literals, labels, later symbols, defines standing for values, lists and strings, macro calls, strings with every separator and escape) x .db/.dw/.dl "
            "and synonyms x both processors x layouts; every byte in a string and after a backslash; strings of every length; lists of up to 300 elements; every 8/16-bit value; .fill/.block counts x values")
    assumptions = ["'\\#' in a literal (a random number by design) is left out", "an element is at most 254 characters long"]

    def cases(self, tier):
        yield {"g": "bytes"}
        yield {"g": "escapes"}
        n = len(EL)
        for d in range(6):
            for e in range(n):
                for ez in (0, 1):
                    yield {"g": "list", "d": d, "e": [e], "ez": ez}
        for d in (0, 1, 2):
            for e in itertools.product(range(n), repeat=2):
                yield {"g": "list", "d": d, "e": e, "ez": (sum(e) + d) & 1}
        for e in itertools.product(range(n), repeat=3):
            for d in (0, 1, 2) if tier == "thorough" else (sum(e) % 3,):
                yield {"g": "list", "d": d, "e": e, "ez": sum(e) & 1}
        if tier == "thorough":
            for e in itertools.product(CORE, repeat=4):
                yield {"g": "list", "d": sum(e) % 3, "e": e, "ez": (e[0] + e[1]) & 1}
        for k in (1, 2, 3):
            for e in itertools.product(range(len(CH)), repeat=k):
                yield {"g": "str", "e": e}
        for k in range(0, 253):
            yield {"g": "len", "k": k}
        for k in list(range(1, 40)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 600]:
            yield {"g": "long", "k": k}
        for a in range(len(CNT)):
            for b in range(len(VAL)):
                for ez in (0, 1):
                    yield {"g": "fill", "c": a, "v": b, "ez": ez}
        for u in (1, 2, 3):
            yield {"g": "values", "u": u}
        if tier == "thorough":
            for a in range(0, 65536, 2048):
                yield {"g": "words", "a": a}

    def run(self, c, ctx):
        g = c["g"]
        if g == "list":
            name, u = DIRS[c["d"]]
            es = [EL[e] for e in c["e"]]
            h = sum(c["e"]) + c["d"]
            if any(m > u for t, f, m in es):
                u = 2 + (h & 1)
                name = DIRS[u - 1][0]
            sep, end = SEP[h % len(SEP)], END[(h // 5) % len(END)]
            line = (" ", "\t", "", "ll: ", "ll ")[(h // 3) % 5] + name + " " + sep.join(t for t, f, m in es) + end + "\n"
            out, a = b"", LB
            for t, f, m in es:
                b = f(u, a)
                out += b
                a += len(b)
            if ".db 1" in end:
                out += b"\1"
            r = ctx.asm(HEAD + line + TAIL, *(["-E"] if c["ez"] else []))
            ctx.outcome(out)
            out += b"\x55"
            if not clean(r) or r.files.get("a.bin") != out:
                return "%r must give %s but gives %s" % (line, out.hex(" "), r.brief()[:300])
            return
        if g == "str":
            s = '"' + "".join(CH[e][1:-1] for e in c["e"]) + '"'
            b = b"".join(CHB[e] for e in c["e"])
            src = " .db %s,9\n .db 1,%s\n .dw %s,1,%s\n .dl %s ; \"\n#define q %s\n .db q\n .db 1,q,2\n" % ((s,) * 6)
            out = b + b"\x09\1" + b + b + b"\1\0" + b + b + b + b"\1" + b + b"\2"
            r = ctx.asm(src)
            ctx.outcome(out)
            if not clean(r) or r.files.get("a.bin") != out:
                return "string %s in %r must give %s but gives %s" % (s, src, out.hex(" "), r.brief()[:400])
            return
        if g == "bytes":
            src, out = "", b""
            for i in range(1, 256):
                if i in (10, 13, 34, 92):
                    continue
                src += " .db \"%c\",1\n .dw 2,\"x%c%c\"\n" % (i, i, i)
                out += bytes([i, 1, 2, 0, 120, i, i])
                ctx.outcome(i)
            return self.cmp(ctx, src, out, "every byte in a string")
        if g == "escapes":
            src, out = "", b""
            sp = {"n": 10, "t": 9, "r": 13, "0": 0, "N": 10, "T": 9, "R": 13}
            for i in range(1, 256):
                if i in (10, 13, 35):
                    continue
                v = sp.get(chr(i), i)
                src += " .db \"\\%c\",1\n .dl \"\\%cx\\%c\",2\n" % (i, i, i)
                out += bytes([v, 1, v, 120, v, 2, 0, 0])
                src += " .db '\\%c'\n" % i
                out += bytes([v])
                ctx.outcome("esc", i)
            return self.cmp(ctx, src, out, "every escape")
        if g == "len":
            k = c["k"]
            s = bytes(97 + i * 7 % 26 for i in range(k))
            t = s.decode()
            src = " .db \"%s\"\n .db 1,\"%s\",2\n .dw \"%s\",3 ; x\n .dl \"%s\"\\ nop\n" % (t, t, t, t)
            return self.cmp(ctx, src, s + b"\1" + s + b"\2" + s + b"\3\0" + s + b"\0", "string of length %d" % k)
        if g == "long":
            k = c["k"]
            src, out = "", b""
            for name, u in DIRS[:3]:
                src += " %s %s\n" % (name, ",".join(("%d" % (i & 255), "\"s%d\"" % i, "fw&255", "$&255")[i & 3] for i in range(k)))
                for i in range(k):
                    out += (le(i & 255, u), b"s%d" % i, le(0x34, u), le(len(out) & 255, u))[i & 3]
            return self.cmp(ctx, src + "fw = $1234\n", out, "list of %d elements" % k)
        if g == "fill":
            n, v = CNTV[c["c"]], VALV[c["v"]]
            h = c["c"] + c["v"]
            line = (" .fill ", "\t.block ", ".FILL ")[h % 3] + CNT[c["c"]] + ("" if VAL[c["v"]] is None else SEP[h % 5] + VAL[c["v"]]) + END[h % 6] + "\n"
            out = bytes([v]) * n + (b"\1" if ".db 1" in END[h % 6] else b"")
            src = HEAD + line + " .dl $\n"
            ctx.outcome(n, v)
            return self.cmp(ctx, src, out + le(LB + len(out), 3), "fill", *(["-E"] if c["ez"] else []))
        if g == "values":
            u = c["u"]
            vs = list(range(-128, 256))
            if u > 1:
                vs += [s * (1 << k) + d for k in range(8, 8 * u) for s in (1, -1) for d in (-1, 0, 1) if -(1 << (8 * u - 1)) <= s * (1 << k) + d < 1 << (8 * u)]
                vs += [(1 << (8 * u)) - 1, -(1 << (8 * u - 1))]
            src, out = "", b""
            for v in vs:
                src += " %s %d,s%s\ns%s = %d\n" % (DIRS[u - 1][0], v, str(v).replace("-", "m") + "_", str(v).replace("-", "m") + "_", v) if vs.count(v) == 1 or vs.index(v) == len(src.split("\n")) else " %s %d,%d\n" % (DIRS[u - 1][0], v, v)
                out += le(v, u) * 2
                ctx.outcome(u, v)
            return self.cmp(ctx, src, out, "every value of %d bytes" % u)
        if g == "words":
            src, out = "", b""
            for v in range(c["a"], c["a"] + 2048):
                src += " .dw %d\n" % v
                out += le(v, 2)
                ctx.outcome(2, v)
            return self.cmp(ctx, src, out, "words from %d" % c["a"])

    def cmp(self, ctx, src, out, what, *opts):
        r = ctx.asm(src, *opts, timeout=20000)
        got = r.files.get("a.bin")
        if clean(r) and got == out:
            return None
        if got is None or not clean(r):
            return "%s: %s; source %r" % (what, r.brief()[:400], src[:200])
        p = next((i for i in range(min(len(got), len(out))) if got[i] != out[i]), min(len(got), len(out)))
        return "%s: output differs at %d: %s, must be %s (sizes %d/%d); source %r" % (what, p, got[p:p + 8].hex(" "), out[p:p + 8].hex(" "), len(got), len(out), src[-300:])


CHECK = Data()
