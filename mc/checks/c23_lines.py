"""C23: line-consuming constructs in all short sequences and nestings around diagnosable statements; every message must carry the file and line of its statement."""
import itertools, re
from .. import core
from ..lib import diags

# constructs that occupy lines (n: only the number of lines matters); %d makes names unique
CONS = ["\n", "; text\n", " nop\n", "\n\n\n", " nop \\ nop \\ nop\n", "cl%d: nop ; x\n", "#if 0\n foo\n foo\n#endif\n", "#if 1\n nop\n#else\n foo\n foo\n#endif\n", "#if 0\n foo\n#elif 0\n foo\n foo\n#elif 1\n nop\n#else\n foo\n#endif\n",
        "#ifdef nope\n#if 1\n foo\n#else\n foo\n#endif\n foo\n#endif\n", "#ifndef nope\n nop\n#endif\n", "#comment\n foo\n#if\n foo\n#endcomment\n", "#macro cm%d(a)\n .db a\n\n nop\n#endmacro\n", "#macro cn%d(a)\n .db a\n nop\n#endmacro\n cn%d(1)\n cn%d(2)\n",
        "#macro ca%d\n nop\n nop\n#endmacro\n#macro cb%d\n nop\n ca%d()\n nop\n#endmacro\n cb%d()\n", "#define cd%d 5\n", "#define ce%d(x) x+1\n .db ce%d(2)\n", "#define cf%d 1\n#defcont +2\n#defcont +3\n .db cf%d\n", "#include \"c1.inc\"\n", "#include \"c2.inc\"\n nop\n", "#include \"c3.inc\"\n",
        " .db \"a\nb\n\nc\"\n", " .db 1,\"x\ny\",2\n", " wr(\" nop\")\n wr(\" nop\")\n run()\n", "#macro fm%d(a)\n#if a == 1\n 3\n#else\n\n 4\n#endif\n#endmacro\n .db fm%d(1),fm%d(2)\n", "#macro fn%d(a)\n\n#if a == 1\n 1\n#else\n 0\n#endif\n#endmacro\n#if fn%d(1)\n nop\n#endif\n#if fn%d(2)\n nop\n#endif\n",
        "#macro lm%d\n\n 1,2,3\n#endmacro\n .db lm%d\n", "#import \"d.bin\"\n", " .addinstr CI%d \"\" 77 1 NOP 1\n ci%d\n", " .echo \"t\"\n", "eq%d = 5+1\n .db eq%d\n", "#define cg%d 1\n#undef cg%d\n", "#if 1\n#if 0\n foo\n#else\n nop\n#endif\n nop\n#endif\n", " .list\n .nolist\n", "_ nop\n jr -_\n", " .fill 3\n",
        "#if 0 \\ foo\n#endif\n", " .db fw%d\nfw%d:\n", "#macro ef%d(a)\n\n#if a > 5\n\n a\n#else\n 7\n#endif\n#endmacro\neq2%d = ef%d(6)\n ld a,ef%d(1)\n", "#include \"c4.inc\"\n", "#macro cr%d\n nop\n#endmacro\n\n#macro cr%d\n nop\n nop\n#endmacro\n cr%d()\n", "#define ch%d 2\n\n#define ch%d 3\n", "#if 0 ; c\n ; #endif\n foo\n#endif ; c\n",
        "#include \"b.bmp\"\n", "#macro sm%d(s)\n .db s\n#endmacro\n sm%d(\"a,b\")\n sm%d(\"p\nq\")\n", " .echo \"x\ny\"\n", "#macro il%d\n#include \"c1.inc\"\n nop\n#endmacro\n il%d()\n"]
BMP = bytes.fromhex("424d5e000000000000003e0000002800000008000000080000000100010000000000200000000000000000000000000000000000000000000000ffffff00") + b"".join(bytes([v, 0, 0, 0]) for v in (0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x88))
FILES = {"c1.inc": " nop\n nop\n\n nop\n", "c2.inc": " nop\n\n#include \"c1.inc\"\n nop", "c3.inc": "", "d.bin": b"a\nb\n\r\n", "c4.inc": "#ifndef once\n#define once 1\n nop\n#else\n\n nop\n#endif\n", "b.bmp": BMP}
# offending statements
EARLY = [" foo", " ld q,q", " .error \"x\"", " .org -1", " ld a,5/0", "#foo", " .db 1,", " .fill -1", " rst 5", " .db $GG", " nop \\ foo", " ld a,1+ ; c", " .seek -1x", "#include \"nope.inc\"", "#import \"nope.bin\"", " .db nf(5/0)", "#define nd(b", "#undef", " ld a,(ix*5)", " .option 5=5", " nope2(1)", "#if 1/0\n#endif", " wr()",
         " .db ax()"]
LATE = [" ld a,nope", " .dw nope", " jr FAR", " ld (ix+FAR),1", " .echo nope", " ld hl,(nope)", " nop \\ ld a,nope", " .db 1,nope", " bit 8,a", " rst FAR", " .db FAR/(FAR-60000)", " ld (ix+1),nope", " .db nf(nope)", " nop \\ jr nope ; c"]
WARN = [" ld a,256", " .db 256", " .db 'a", " ld a,(5", " ld a,LATE3", " .db 1,LATE3,2", " .db nf(1,2)", " ld a,((5))", " .fill 2,300", " nop \\ cp 700"]
ALL = EARLY + LATE + WARN
PRO = "#define nf(x) x\n#define ax(x) x\n"
EPI = "FAR = 60000\nLATE3 = 300\n"
TPL = ["plain", "include", "macro", "macroinc", "if", "else", "run", "redef", "nested", "tail", "crlf", "cr", "incmacro", "argif", "elif", "twice", "skipped", "expr", "exprinc", "runin"]


def lines_of(text):
    """[line numbers carrying the mark], text without it"""
    L = [i + 1 for i, l in enumerate(text.split("\n")) if "@@" in l]
    return L, text.replace("@@", "")


def mark(off):
    return off.replace("\n", "@@\n", 1) if "\n" in off else off + "@@"


class Lines(core.Check):
    id = "C23"
    level = "exploration"
    rule = ("%d line-consuming constructs, all sequences of two (thorough: three) in %d arrangements (files, macros, conditionals, code buffers, redefinitions) around each class of the %d diagnosable statements; each message's file and line must be those of the "
            "marked statement and every marked statement must get one; also conflicting definitions and unbalanced blocks") % (len(CONS), len(TPL), len(ALL))
    assumptions = ["a statement inside a macro is written at its line of the macro definition; the line of the call is in the annotation", "lines of a code buffer count within the buffer", "a message may be repeated on its own line"]

    def cases(self, tier):
        reps = [0, 2, 10, len(EARLY), len(EARLY) + 2, len(EARLY) + 4, len(EARLY) + len(LATE), len(EARLY) + len(LATE) + 4]
        n = len(CONS)
        for t in TPL:
            for o in range(len(ALL)):
                for a in range(n) if tier == "thorough" else range(o % 7, n, 7):
                    yield {"g": "one", "t": t, "o": o, "c": [a, 2]}
            for a in range(n):
                for b in range(n):
                    for o in reps if tier == "thorough" else [reps[(a * 5 + b) % len(reps)]]:
                        yield {"g": "two", "t": t, "o": o, "c": [a, b]}
        for a, b in itertools.product(range(n), repeat=2):
            for k in range(6):
                if tier == "thorough" or (a + b) % 6 == k:
                    yield {"g": "conflict", "k": k, "c": [a, b]}
            for k in range(5):
                if tier == "thorough" or (a + b) % 5 == k:
                    yield {"g": "unbal", "k": k, "c": [a, b]}
        if tier == "thorough":
            for a, b, d in itertools.product(range(n), repeat=3):
                yield {"g": "three", "t": "plain", "o": reps[(a + b + d) % len(reps)], "c": [a, b, d]}

    def build(self, c):
        """files with marks, main text"""
        cs = [CONS[k].replace("%d", "xyz"[i]) for i, k in enumerate(c["c"])]
        A, B = cs[0], "".join(cs[1:])
        off = mark(ALL[c["o"]]) + "\n"
        t = c["t"]
        f = dict(FILES)
        inm = lambda s: re.match(r"#macro|#include|#define|[a-z]", s) is None and "#macro" not in s and "run()" not in s and "#import" not in s and "wr(" not in s and not re.search(r"^\w+:| = |^_", s, re.M)
        if t == "plain":
            m = A + B + off + " nop\n" + off
        elif t == "include":
            f["f.inc"] = A + off + B + off
            m = B.replace("y", "w") + "#include \"f.inc\"\n" + off
            if "#macro" in B or "fw" in B or " = " in B or "#define" in B or "addinstr" in B or "cl" in B:
                m = "#include \"f.inc\"\n" + off
        elif t in ("macro", "macroinc", "incmacro"):
            body = "; b\n" + (A if inm(A) else "") + off + "\n" + off
            d = "#macro om\n" + body + "#endmacro\n"
            if t == "macro":
                m = d + B + " om()\n" + off
            elif t == "macroinc":
                f["f.inc"] = B + d
                m = A + "#include \"f.inc\"\n" + " om()\n" + off
            else:
                f["f.inc"] = B + " om()\n" + off
                m = d + "#include \"f.inc\"\n" + off
        elif t == "if":
            m = "#if 1\n" + A + B + off + "#else\n foo\n foo\n#endif\n" + off
        elif t == "else":
            m = "#if 0\n foo\n" + A + "#else\n" + off + B + off + "#endif\n" + off
        elif t == "elif":
            m = A + "#if 0\n foo\n#elif 0\n foo\n" + B + "#elif 1\n" + off + "#elif 1\n foo\n foo\n#else\n foo\n#endif\n" + off
        elif t == "run":
            m = A + " wr(\" nop\")\n wr(\"\")\n run()\n" + off + B + " wr(\" nop\")\n run()\n" + off
        elif t == "redef":
            m = "#macro om\n nop\n nop\n#endmacro\n" + A + "#macro om(q)\n; b\n" + off + "#endmacro\n" + B + " om()\n" + off
        elif t == "nested":
            m = "#macro o1\n; b\n\n" + off + "#endmacro\n" + A + "#macro o2\n nop\n o1()\n" + off + "#endmacro\n" + B + " o2()\n" + off
        elif t == "tail":
            m = off + A + off + B + off
        elif t in ("crlf", "cr"):
            m = A + B + off + off
        elif t == "argif":
            m = "#macro oi(a)\n\n#if a == 1\n" + off + "#else\n nop\n" + off + "#endif\n" + off + "#endmacro\n" + A + " oi(1)\n" + B + " oi(2)\n"
        elif t == "twice":
            f["f.inc"] = "#ifdef tw\n nop\n" + off + "#else\n nop\n#endif\n" + off
            m = A + "#include \"f.inc\"\n#define tw 1\n" + B + "#include \"f.inc\"\n" + off
        elif t == "runin":
            o = ALL[c["o"]]
            if "\"" in o or "\\" in o or o[0] != " " or "wr" in o or "\n" in o:
                o = " ld q,q"
            f["f.inc"] = "#macro om\n; b\n" + mark(o) + "\n#endmacro\n"
            m = A + "#include \"f.inc\"\n" + " wr(\" nop\")\n wr(\"%s\")\n wr(\"\")\n wr(\" om()\")\n wr(\"%s\")\n" % (o, o) + B.replace("run()", "nop") + " clr2\n" * 0 + "\n run()\n" + mark(o) + "\n"
            f["Built-in fcreate"] = "\n%s@@\n\n\n%s@@\n" % (o, o)
            if "wr(" in A + B:
                m = m.replace(A, "", 1) if "wr(" in A else m.replace(B.replace("run()", "nop"), "", 1)
        elif t in ("expr", "exprinc"):
            # the statement is the value of a macro used in an expression
            d = ["#macro ex\n\n 5/0@@\n#endmacro\n", "#macro ex\n#if 0\n\n#else\n\n $GG@@\n#endif\n#endmacro\n", "#define ex 3+@@\n", "#macro ex\n 1+/2@@\n#endmacro\n"][c["o"] % 4]
            u = [" .db ex\n", " ld a,ex\n", "\neq9 = ex\n", " .dw 1,ex,2\n", "#if ex\n#endif\n", " .fill ex\n", " jp ex\n"][c["c"][-1] % 7]
            if t == "exprinc":
                f["f.inc"] = A + d
                m = "#include \"f.inc\"\n" + B + u + " foo@@\n"
            else:
                m = A + d + B + u + " foo@@\n"
        else:
            m = "#if 0\n" + A + "#endif\n#comment\n" + B + "#endcomment\n" + off + "#ifdef nope\n" + A + "#else\n#endif\n" + off
        return f, m

    def run(self, c, ctx):
        if c["g"] in ("conflict", "unbal"):
            return self.defs(c, ctx)
        f, m = self.build(c)
        crlf = c["t"] in ("crlf", "cr")
        f["a.asm"] = PRO + m + EPI
        want = set()
        for n in list(f):
            if isinstance(f[n], str):
                L, f[n] = lines_of(f[n])
                want |= {(n, k) for k in L}
                if crlf:
                    f[n] = f[n].replace("\n", "\r\n" if c["t"] == "crlf" else "\r")
        f.pop("Built-in fcreate", None)
        return self.judge(c, ctx, f, want)

    def judge(self, c, ctx, f, want, also=()):
        r = ctx.exec(["-N", "a.asm", "o.bin"], f)
        d = diags(r)
        norm = lambda x: (x or "").replace("\\", "/").split("/")[-1]
        got = {(norm(x[0]), x[1]) for x in d}
        ctx.outcome(c["g"], c.get("t", c.get("k")), c.get("o"), tuple(c["c"]), tuple(sorted(got, key=str)))
        if r.crashed:
            return "%s: %s" % (c, r.brief()[:300])
        src = "\n--".join("%s: %r" % (n, f[n]) for n in f if n in ("a.asm", "f.inc"))
        if got - want - set(also):
            return "message at %s, statements at %s: %s\n%s" % (sorted(got - want, key=str), sorted(want), [x for x in d if (norm(x[0]), x[1]) not in want][:2], src)
        for l in r.lines():
            a = re.match(r"(.*):(\d+): Error during", l)
            if a:
                n, k = norm(a.group(1)), int(a.group(2))
                s = (f.get(n) or "").replace("\r\n", "\n").replace("\r", "\n").split("\n")[k - 1:k]
                if n == "Built-in fcreate":
                    continue
                if not s or not re.search(r"om\(|o[12]\(|oi\(|run\(|\bex\b|c[a-z][xyz]|f[mn][xyz]|nf\(|ax\(|sm[xyz]|il[xyz]|ef[xyz]|lm[xyz]", s[0]):
                    return "%r, but line %d is %r\n%s" % (l, k, s, src)
        if want - got:
            return "no message for %s (got %s): %s\n%s" % (sorted(want - got), sorted(got, key=str), r.brief()[:150], src)

    def defs(self, c, ctx):
        A, B = (CONS[k].replace("%d", "xy"[i]) for i, k in enumerate(c["c"]))
        f = dict(FILES)
        if c["g"] == "unbal":
            # the opening line is the one that is reported
            o = ["#if 1@@\n nop\n", "#if 0@@\n nop\n", "#ifdef nope@@\n nop\n", "#macro ub(a)@@\n nop\n", "#ifndef nope@@\n nop\n#else\n nop\n"][c["k"]]
            m = A + o + (B if c["k"] != 3 or "#macro" not in B else "")
        else:
            a, b = [("cf: nop@@\n", "#define cf 5@@\n"), ("#define cf 5@@\n", "cf: nop@@\n"), ("cf = 5@@\n", "cf = 5+1@@\n"), ("cf = 5@@\n", "#macro cf(x)@@\n nop\n#endmacro\n"), ("#macro cf(x)@@\n nop\n#endmacro\n", "cf: nop@@\n"), ("cf: nop@@\n nop\n", "cf: nop@@\n")][c["k"]]
            if c["k"] == 2:
                a, b = "cf: nop@@\n", "cf: .db 1@@\n"
            if c["k"] == 5:
                f["f.inc"], a = a, "#include \"f.inc\"\n"
            m = a + A + B + b
        f["a.asm"] = PRO + m
        want = set()
        for n in list(f):
            if isinstance(f[n], str):
                L, f[n] = lines_of(f[n])
                want |= {(n, k) for k in L}
        return self.judge(c, ctx, f, want)


CHECK = Lines()
