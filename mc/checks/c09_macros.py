"""C09: macro calls against an explicit model of the binding environment; every model trace is replayed on the assembler."""
import itertools
from .. import core
from ..lib import clean, diags, le

UNDEF = None
PN = ["a", "b", "c", "g"]
PLISTS = [(), ("a",), ("b",), ("a", "b"), ("b", "a"), ("c", "a"), ("g",), ("lb",)]
XS = ["5", "a", "b", "a+b", "g", "fw+a", "c+1", "$-$+6", "lb", "q", "6*f1(a)", "-g", "(a)", "f2(a,3)"]
MUT = ["", "#define g 41", "#define a 99", "#define b 98", "#define q b", "#undef g", "#define c a", "#undef b"]
FW = 77


class Stuck(Exception):
    """the step is not enabled in the model (it would use an undefined name)"""


class Env:
    """globals (name -> text), labels, frames (innermost last; name -> int, None for a missing argument, or text)"""

    def __init__(self):
        self.glob = {"g": "40", "a": "10", "q": "a+b"}
        self.lab = {"lb": 20, "fw": FW}
        self.frames = []
        self.warn = 0

    def snap(self):
        return (tuple(sorted(self.glob.items())), tuple(tuple(sorted(f.items(), key=str)) for f in self.frames))

    def defined(self, n):
        for f in reversed(self.frames):
            if n in f:
                return f[n] is not UNDEF
        return n in self.glob

    def name(self, n, d):
        if d > 12:
            raise Stuck
        for f in reversed(self.frames):
            if n in f:
                v = f[n]
                if v is UNDEF:
                    raise Stuck
                return v if isinstance(v, int) else self.ev(v, d + 1)
        if n in self.lab:
            return self.lab[n]
        if n in self.glob:
            return self.ev(self.glob[n], d + 1)
        raise Stuck

    def ev(self, t, d=0):
        """left to right; names, numbers, + - *, parentheses, f1(x)=x+1, f2(x,y)=x*y"""
        v, p = self.expr(t, 0, d)
        if p != len(t):
            raise ValueError(t)
        return v

    def expr(self, t, p, d):
        v, p = self.term(t, p, d)
        while p < len(t) and t[p] in "+-*":
            o = t[p]
            w, p = self.term(t, p + 1, d)
            v = v + w if o == "+" else v - w if o == "-" else v * w
        return v, p

    def term(self, t, p, d):
        if t[p] == "-":
            v, p = self.term(t, p + 1, d)
            return -v, p
        if t[p] == "$":
            return 0, p + 1            # only used as $-$
        if t[p] == "(":
            v, p = self.expr(t, p + 1, d)
            return v, p + 1
        q = p
        while q < len(t) and t[q].isalnum():
            q += 1
        w = t[p:q]
        if w.isdigit():
            return int(w), q
        if q < len(t) and t[q] == "(":
            a, q = self.expr(t, q + 1, d)
            args = [a]
            while t[q] == ",":
                a, q = self.expr(t, q + 1, d)
                args.append(a)
            if w == "f1":
                return args[0] + 1, q + 1
            return args[0] * args[1], q + 1
        return self.name(w, d), q

    def call(self, params, args):
        fr = {}
        vals = []
        for k, p in enumerate(params):
            vals.append(self.ev(args[k]) if k < len(args) else UNDEF)
        if len(args) > len(params):
            self.warn += 1
        for p, v in zip(params, vals):
            fr[p] = v
        self.frames.append(fr)

    def mutate(self, m):
        if not m:
            return
        w = m.split()
        if w[0] == "#define":
            for f in reversed(self.frames):
                if w[1] in f:
                    if f[w[1]] is UNDEF:
                        raise Stuck
                    f[w[1]] = w[2]
                    if w[2] == w[1]:
                        raise Stuck
                    return
            self.glob[w[1]] = w[2]
        else:
            for f in self.frames:
                if w[1] in f:
                    raise Stuck
            if w[1] not in self.glob:
                raise Stuck
            self.glob.pop(w[1])


PROBE = "".join("#ifdef %s\n .db %s&255\n#else\n .db 254\n#endif\n" % (n, n) for n in PN) + "#ifdef a\n#ifdef b\n .db q&255\n#endif\n#endif\n .db lb&255\n"


def probe(e, out):
    for n in PN:
        out.append(e.name(n, 0) & 255 if e.defined(n) else 254)
    if e.defined("a") and e.defined("b"):
        out.append(e.name("q", 0) & 255)
    out.append(e.name("lb", 0) & 255)


def chain(levels, ctx=None):
    """levels: [(params, args, mutation)], outermost call first -> (source, expected bytes, warnings) or None"""
    e = Env()
    out = []

    def go(k):
        s0 = e.snap()
        probe(e, out)
        if k < len(levels):
            p, a, m = levels[k]
            e.call(p, a)
            s1 = e.snap()
            if m:
                probe(e, out)
                e.mutate(m)
            go(k + 1)
            e.frames.pop()
            if ctx:
                ctx.state(s0)
                ctx.state(s1)
                ctx.transition(s0, p, a, s1)
                ctx.transition(s1, m, "return", e.snap())
            probe(e, out)
    try:
        go(0)
    except Stuck:
        return None
    txt = "#define g 40\n#define a 10\n#define q a+b\n#define f1(x) x+1\n#define f2(x,y) x*y\nlb = 20\n"
    n = len(levels)
    for k in range(n - 1, -1, -1):
        p, a, m = levels[k]
        call = " m%d(%s)\n" % (k + 1, ",".join(levels[k + 1][1])) if k + 1 < n else ""
        txt += "#macro m%d(%s)\n" % (k, ",".join(p)) + (PROBE + m + "\n" if m else "") + PROBE + call + (PROBE if call else "") + "#endmacro\n"
    txt += PROBE + " m0(%s)\n" % ",".join(levels[0][1]) + PROBE + "fw = %d\n" % FW
    return txt, bytes(out), e.warn


# ---- forms of a call and of its arguments ----------------------------------------------------------------
ARGTXT = [("5", b"\5"), ('"a,b"', b"a,b"), ("','", b","), ("')'", b")"), ("'('", b"("), ("'\"'", b'"'), ('"\'"', b"'"), ('"(x"', b"(x"), ('"x)"', b"x)"), ("(1+2)*3", b"\x09"),
          ("f2(2,3)", b"\6"), ("f2(f1(1),f2(1,3))", b"\6"), (" 7 ", b"\7"), ('"; x"', b"; x"), ("';'", b";"), ("'\\\\'", b"\\"), ('"a\\\\b"', b"a\\b"), ("fw", bytes([FW])), ("fw+1", bytes([FW + 1])),
          ("%101", b"\5"), ("$1f", b"\x1f"), ("0Fh", b"\x0f"), ("-1", b"\xff"), ("~0", b"\xff"), ("1<2", b"\1"), ("lb", b"\x14"), ("g", b"\x28"), ('"#endmacro"', b"#endmacro"), ("3=3", b"\1"),
          ("+_", None), ("2-3", b"\xff"), ('"\\\\n"', None), ("'a'+1", b"b"), ('"$%&!{}"', b"$%&!{}"), ("'#'", b"#"), ('"a\tb"', b"a\tb"), ("1 + 2", b"\3"), ("f1( 1 )", b"\2"), ('"=,="', b"=,=")]
ARGTXT = [x for x in ARGTXT if x[1] is not None]
CALLS = [" m(@,#)\n", "lab: m(@,#)\n", "lab m(@,#)\n", " m( @ , # )\n", " m(@,#) ; note (1,2)\n", " nop\\ m(@,#)\\ nop\n", "\tm(@,#)\t\r\n", " M(@,#)\n", " m(@,#)", "lab:m(@,#)\n"]
# how a value macro is used
EXPRS = [".db %", "ld a,%", ".db 1,%,2", ".dw %", "\nt = %\n .db t", ".db (%)", ".fill 2,%", "#if % != 0\n .db %\n#endif", "#define t2 eval(%)\n .db t2", ".db 2*%"]


class C09(core.Check):
    id = "C09"
    level = "model_checking"
    rule = ("explicit-state model of the binding environment (global defines, labels, stack of argument frames, call by value, missing arguments undefined, "
            "#define of a bound name changing the innermost binding): all 2-level call chains over 8 parameter lists and all argument tuples of up to "
            "2 (+1 surplus) from 14 argument expressions (quick: 5 for the outer call), all pairs of 8 in-body mutations, 3-level chains "
            "(thorough: with mutations), each model trace replayed on the assembler with a probe of every name before and after every step; plus call "
            "forms x argument texts, value macros nested in expressions, recursion to depth 60 and list-valued macros")
    assumptions = ["parameter values are numbers, strings or (for @ parameters) literal text", "an argument that uses an undefined name is not enabled in the model"]

    def args(self, params, xs):
        for n in range(len(params) + 1):
            yield from itertools.product(xs, repeat=n)
        # surplus
        yield from ((x,) * len(params) + ("5",) for x in xs[:2])
        yield ("5",) * len(params) + ("6", "7")

    def cases(self, tier):
        full = tier != "quick"
        yield {"k": "firstlabel"}
        for p in PLISTS:
            for a in self.args(p, XS):
                yield {"k": "chain", "l": [(p, a, "")]}
        for p0 in PLISTS[:-1]:
            for a0 in self.args(p0, XS if full else ["5", "a", "fw+a"]):
                for p1 in PLISTS:
                    for a1 in self.args(p1, XS):
                        yield {"k": "chain", "l": [(p0, a0, ""), (p1, a1, "")]}
        for p0 in PLISTS[:6]:
            for m0, m1 in itertools.product(MUT, repeat=2):
                if m0 or m1:
                    for p1 in PLISTS[:7]:
                        for a1 in self.args(p1, ["5", "a", "q", "a+g"] if full else ["a", "q"]):
                            yield {"k": "chain", "l": [(p0, ("6", "7")[:len(p0)], m0), (p1, a1, m1)]}
        x3 = ["a", "b", "7"]
        for p0, p1, p2 in itertools.product(PLISTS[:6], repeat=3):
            for a1 in self.args(p1, x3 if full else ["a", "b"]):
                for a2 in self.args(p2, x3):
                    for ms in ([("", "", "")] if not full else [("", "", ""), ("", MUT[2], ""), (MUT[3], "", MUT[1]), ("", "", MUT[2])]):
                        yield {"k": "chain", "l": [(p0, ("6", "9")[:len(p0)], ms[0]), (p1, a1, ms[1]), (p2, a2, ms[2])]}
        for c in range(len(CALLS)):
            for x in range(len(ARGTXT)):
                for y in range(len(ARGTXT)) if full else range(x % 3, len(ARGTXT), 3):
                    for st in ("macro", "define", "at"):
                        yield {"k": "form", "c": c, "x": x, "y": y, "st": st}
        for n in range(0, 61, 1 if full else 7):
            for st in ("tail", "both", "two"):
                yield {"k": "rec", "n": n if st != "two" else n % 6, "st": st}
        for n in list(range(1, 70)) + [100, 127, 128, 129, 200, 255, 256, 257, 300]:
            for v in range(4):
                yield {"k": "nest", "n": n, "v": v}
        yield from self.value_cases(full)

    def value_cases(self, full):
        base = ["5", "g", "f1(2)", "f2(2,3)", "f3(4)", "f2(f1(1),g)", "f1(f1(f1(0)))", "f4()", "f5", "f2(f2(2,2),f2(1,3))", "f1(fw)", "f2(fw,2)", "f3(f3(1))", "f6(2)", "f7(3,4)"]
        for x in base:
            for e in range(len(EXPRS)):
                yield {"k": "val", "x": x, "e": e}
        for x, y in itertools.product(base, repeat=2):
            for o in "+-*":
                yield {"k": "val", "x": x + o + y, "e": 0}
                if full:
                    for z in base:
                        yield {"k": "val", "x": x + o + y + "-" + z, "e": 0}
                yield {"k": "val", "x": "f1(%s%s%s)" % (x, o, y), "e": 0}
                yield {"k": "val", "x": "f2(%s,%s)%s%s" % (x, y, o, y), "e": 0}
        els = ["1", "p2(3,4)", '"xy"', "p1(5)", "p2(fw,6)", "p0", "p2(f1(1),f2(2,3))", "p3(7)"]
        for n in (1, 2, 3):
            for c in itertools.product(els, repeat=n):
                yield {"k": "list", "c": c}

    def key(self, case, msg):
        return "label-on-first-line-of-macro" if case["k"] == "firstlabel" else super().key(case, msg)

    def k_firstlabel(self, case, ctx):
        r = ctx.asm(" nop\n#macro m()\nlab: nop\n#endmacro\n m()\n .db lab\n")
        if not clean(r) or r.files["a.bin"] != b"\0\0\1":
            return "a label on the first line of a #macro is not taken as one: " + r.brief()[:200]

    def run(self, case, ctx):
        return getattr(self, "k_" + case["k"])(case, ctx)

    def k_chain(self, case, ctx):
        lv = [(tuple(p), tuple(a), m) for p, a, m in case["l"]]
        m = chain(lv, ctx)
        if m is None:
            ctx.count("not enabled")
            return None
        src, exp, warn = m
        r = ctx.asm(src)
        ctx.traces += 1
        d = diags(r)
        ctx.outcome(exp, warn)
        if r.files.get("a.bin") != exp or r.crashed:
            got = r.files.get("a.bin", b"")
            i = next((i for i in range(min(len(got), len(exp))) if got[i] != exp[i]), min(len(got), len(exp)))
            return "calls %s: probe byte %d must be %s, is %s: %s" % (lv, i, exp[i:i + 3].hex(" "), got[i:i + 3].hex(" "), r.brief()[:300])
        w = [x for x in d if x[2] == "warning"]
        if warn and (r.status != 1 or len(d) != len(w) or len(w) != warn) or not warn and not clean(r):
            return "calls %s: %d surplus arguments must give %d warnings: %s" % (lv, warn, warn, r.brief()[-400:])
        return None

    def k_form(self, case, ctx):
        x, y = ARGTXT[case["x"]], ARGTXT[case["y"]]
        ps = "@p1,@p2" if case["st"] == "at" else "p1,p2"
        head = "#define g 40\n#define f1(z) z+1\n#define f2(z,w) z*w\nlb = 20\n"
        if case["st"] == "define":
            head += "#define m(%s) .db p1,p2,p1 \\ .db p2\n" % ps
            exp = x[1] + y[1] + x[1] + y[1]
        else:
            head += "#macro m(%s)\n .db p1,p2\n#ifdef p1\n .db 200\n#endif\n .db p1\n#endmacro\n" % ps
            exp = x[1] + y[1] + b"\xc8" + x[1]
        if case["st"] == "at":
            head = head.replace("#ifdef p1\n .db 200\n#endif", " .db 200").replace(" .db p1,p2", " .db @p1,@p2").replace(" .db p1\n", " .db @p1\n")
        c = CALLS[case["c"]]
        t = c.replace("@", "\1").replace("#", "\2").replace("\1", x[0]).replace("\2", y[0])
        src = head + "fw = %d\n" % FW + t if case["c"] == 8 else head + t + "fw = %d\n" % FW
        if "nop" in c:
            exp = b"\0" + exp + b"\0"
        r = ctx.asm(src)
        ctx.outcome(c, x[0], y[0], case["st"])
        ctx.traces += 1
        if clean(r) and r.files.get("a.bin") == exp:
            return None
        return "call %r of %s macro: must give %s: %s" % (t, case["st"], exp.hex(" "), r.brief()[:500])

    def k_nest(self, case, ctx):
        """n macros, each calling the one before"""
        n, v = case["n"], case["v"]
        arg, use = (("", ""), ("p", "p+1"), ("p,q", "q,p"), ("p", "(p)"))[v]
        src = "#macro m0(%s)\n .db %s\n#endmacro\n" % (arg, arg.replace(",", "\n .db ") if arg else "77")
        for i in range(1, n):
            w = "m%d(%s)" % (i - 1, "p" if v == 3 else arg if v == 1 else use)
            src += "#macro m%d(%s)\n %s\n .db %d&255\n#endmacro\n" % (i, arg, w, i)
        src += " m%d(%s)\n .db $EE\n" % (n - 1, {"": "", "p": "5", "p,q": "5,9"}[arg])
        a, b = (5, 9) if (n - 1) % 2 == 0 else (9, 5)
        out = bytes([77] if v == 0 else [5] if v != 2 else [a, b]) + bytes(i & 255 for i in range(1, n)) + b"\xEE"
        r = ctx.asm(src, timeout=20000)
        ctx.outcome("nest", n, v, r.status)
        ctx.traces += 1
        if clean(r) and r.files.get("a.bin") == out:
            return None
        return "%d macros calling each other (form %d): must give %s: %s" % (n, v, out.hex()[:100], r.brief()[:500])

    def k_rec(self, case, ctx):
        n = case["n"]
        if case["st"] == "tail":
            src = "#macro r(n,k)\n .db n,k\n#if n>0\n r(n-1,k+n)\n#endif\n#endmacro\n r(%d,0)\n" % n
            out, k = [], 0
            for i in range(n, -1, -1):
                out += [i, k & 255]
                k += i
            src = src.replace(".db n,k", ".db n,k&255")
        elif case["st"] == "both":
            src = "#macro r(n)\n .db n\n#if n>0\n r(n-1)\n .db n+100\n#else\n .db 250\n#endif\n#endmacro\n r(%d)\n" % n
            out = list(range(n, -1, -1)) + [250] + [i + 100 for i in range(1, n + 1)]
        else:
            src = "#macro r(n,s)\n#if n>0\n r(n-1,s*2)\n .db n,s&255\n r(n-1,s*2+1)\n .db n+50\n#endif\n#endmacro\n r(%d,1)\n" % n

            def go(k, s):
                return [] if k <= 0 else go(k - 1, s * 2) + [k, s & 255] + go(k - 1, s * 2 + 1) + [k + 50]
            out = go(n, 1)
        r = ctx.asm(src + " .db 9\n")
        ctx.traces += 1
        ctx.outcome("rec", n, case["st"])
        if clean(r) and r.files.get("a.bin") == bytes(out) + b"\x09":
            return None
        return "recursion %s to depth %d: must give %s: %s" % (case["st"], n, bytes(out).hex(" ")[:200], r.brief()[:500])

    VHEAD = ("#define g 40\n#define f1(x) x+1\n#define f2(x,y) x*y\n#define f3(x) f1(x)*2\n#define f4() 7\n#define f5 3+g\n"
             "#macro f6(x)\n#if x>1\nf1(x)\n#else\n50\n#endif\n#endmacro\n#define f7(x,y) f2(y,x)-f1(y)\n")

    class V(Env):
        def term(self, t, p, d):
            q = p
            while q < len(t) and t[q].isalnum():
                q += 1
            w = t[p:q]
            if w == "f5":
                return 43, q
            if w[:1] == "f" and w != "fw":
                args = []
                q += 1
                while t[q] != ")":
                    a, q = self.expr(t, q, d)
                    args.append(a)
                    if t[q] == ",":
                        q += 1
                f = {"f1": lambda x: x + 1, "f2": lambda x, y: x * y, "f3": lambda x: (x + 1) * 2, "f4": lambda: 7,
                     "f6": lambda x: x + 1 if x > 1 else 50, "f7": lambda x, y: y * x - (y + 1)}[w]
                return f(*args), q + 1
            return super().term(t, p, d)

    def k_val(self, case, ctx):
        v = self.V().ev(case["x"])
        st = EXPRS[case["e"]]
        now = "fw" in case["x"] and (case["e"] in (4, 6, 7, 8))
        x = case["x"]
        src = self.VHEAD + ("fw = %d\n" % FW if now else "") + " " + st.replace("%", "(" + x + ")&255" if case["e"] in (0, 1, 2, 4, 5, 6, 8) and case["e"] != 0 else
                                                                            x if case["e"] != 0 else x + "&255") + "\n" + ("" if now else "fw = %d\n" % FW)
        if case["e"] == 7:
            src = src.replace(".db " + x, ".db (" + x + ")&255")
        if case["e"] == 9:
            src = src.replace(".db 2*" + x, ".dw 2*(" + x + ")")
        e = case["e"]
        b = bytes([v & 255])
        exp = {0: b, 1: b"\x3e" + b, 2: b"\1" + b + b"\2", 3: le(v, 2), 4: b, 5: b, 6: b * 2, 7: b if v else b"", 8: b, 9: le(2 * v, 2)}[e]
        if e in (1, 5):
            src = src.replace("ld a,(" + x + ")&255", "ld a,0+(" + x + ")&255")
        r = ctx.asm(src)
        ctx.traces += 1
        ctx.outcome(case["x"], e)
        if clean(r) and r.files.get("a.bin") == exp:
            return None
        return "%r must give %s (value %d): %s" % (src[len(self.VHEAD):], exp.hex(" "), v, r.brief()[:500])

    def k_list(self, case, ctx):
        head = ("#define f1(x) x+1\n#define f2(x,y) x*y\n#define p0 8,9\n#define p1(x) x,x+1\n#define p2(x,y) y,x,y\n#define p3(x) p1(x),p2(x,x+1),\"z\"\n")
        val = {"1": b"\1", "p2(3,4)": b"\4\3\4", '"xy"': b"xy", "p1(5)": b"\5\6", "p2(fw,6)": bytes([6, FW, 6]), "p0": b"\x08\x09", "p2(f1(1),f2(2,3))": b"\6\2\6",
               "p3(7)": b"\7\x08\x08\7\x08z"}
        exp = b"".join(val[c] for c in case["c"])
        r = ctx.asm(head + " .db " + ",".join(case["c"]) + "\nfw = %d\n .db 3\n" % FW)
        ctx.traces += 1
        ctx.outcome(case["c"])
        if clean(r) and r.files.get("a.bin") == exp + b"\3":
            return None
        return ".db %s must give %s: %s" % (",".join(case["c"]), exp.hex(" "), r.brief()[:500])


CHECK = C09()
