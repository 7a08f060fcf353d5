"""C10: every short history of #define/#undef/#macro/eval/concat operations against a model of the define table."""
import itertools
from .. import core
from ..lib import clean, diags, le

FW = 3
TXT = ["5", "@1", "@0+1", "2*@0", "@1+@0", "", "eval(@0+1)", "eval(@1*2)", 'concat(@0,"+1")', 'concat("2","5")', "lb-3", "  7\t; note", "($10)", "concat(@1,4)", "'@0'", "@0@1",
       "eval(lb)", "fw+@1", "concat(\"@0\",\"-1\")", "concat(lb,0)"]
FOPS = ["#define f(x) x+n", "#define f(y) n-y", "#macro f(x)\nx*2+n\n#endmacro", "#macro f(x)\n#ifdef n\nn+x\n#else\nx+x\n#endif\n#endmacro", "#define f 9", "#undef f", "#define n 5",
        "#define n n+10", "#undef n", "#define n eval(n*3)", "#undefine f", "#define F(x,y) x-1"]
# elements of concat() and the text they add
CELS = [('"ab"', "ab"), ('" "', " "), ("5", "5"), ("1-4", "-3"), ("-1", "-1"), ("lb", "20"), ("$10", "16"), ("'A'", "65"), ("d1", "7"), ("ds", "xy"), ("de", "1+1"), ("$80000000", "-2147483648"),
        ("lb*2", "40"), ('","', ","), ('""', ""), ("fn(3)", "6"), ("mc(4)", "-5"), ("$FFFFFFFF", "-1"), ("0", "0"), ("2147483647", "2147483647"), ("D1", "7"), ('"(;)"', "(;)"), ("10b", "2"), ("$7FFF+1", "32768")]


class Stuck(Exception):
    pass


class Frozen(str):
    """the text left by eval(); how it is spelled is not specified"""


class Model:
    def __init__(self):
        self.t = {}
        self.lab = {"lb": 20}
        self.env = []

    def value(self, text, d=0):
        """left to right evaluation; Stuck when it mentions an undefined name or itself"""
        if d > 8:
            raise Stuck
        text = text.strip()
        v, p = self.expr(text, 0, d)
        if p != len(text):
            raise Stuck
        return v

    def ws(self, t, p):
        while p < len(t) and t[p] in " \t\n":
            p += 1
        return p

    def expr(self, t, p, d):
        v, p = self.term(t, p, d)
        p = self.ws(t, p)
        while p < len(t) and t[p] in "+-*":
            o = t[p]
            w, p = self.term(t, self.ws(t, p + 1), d)
            v = v + w if o == "+" else v - w if o == "-" else v * w
            p = self.ws(t, p)
        return v, p

    def term(self, t, p, d):
        if p >= len(t):
            raise Stuck
        if t[p] == "-":
            v, p = self.term(t, p + 1, d)
            return -v, p
        if t[p] == "'":
            if t[p + 2:p + 3] != "'":
                raise Stuck
            return ord(t[p + 1]), p + 3
        if t[p] == "$":
            q = p + 1
            while q < len(t) and t[q] in "0123456789abcdef":
                q += 1
            return int(t[p + 1:q], 16), q
        if t[p] == "(":
            v, p = self.expr(t, self.ws(t, p + 1), d)
            if t[p:p + 1] != ")":
                raise Stuck
            return v, p + 1
        q = p
        while q < len(t) and t[q].isalnum():
            q += 1
        w = t[p:q].lower()
        if not w:
            raise Stuck
        if w[0].isdigit():
            if not w.isdigit():
                raise Stuck
            return int(w), q
        if t[q:q + 1] == "(":
            raise Stuck
        if w == "fw":
            return FW, q
        if w in self.lab:
            return self.lab[w], q
        if w not in self.t:
            raise Stuck
        return self.value(self.t[w], d + 1), q

    def names(self, s):
        """split into names and the rest"""
        out, i = [], 0
        while i < len(s):
            j = i
            if s[i] == "'":
                j = i + 3
            elif s[i].isalpha():
                while j < len(s) and s[j].isalnum():
                    j += 1
            elif s[i].isdigit():
                while j < len(s) and s[j].isalnum():
                    j += 1
            else:
                j = i + 1
            out.append(s[i:j])
            i = j
        return out

    def define(self, n, text):
        text = text.split(";")[0] if "'" not in text else text
        s = text.strip()
        if s == "":
            self.t[n] = "1"
        elif s.startswith("eval("):
            self.t[n] = Frozen("(%d)" % self.value(s[5:-1]))
            if "fw" in s:
                raise Stuck
        elif s.startswith("concat("):
            out = ""
            for a in s[7:-1].split(","):
                if a[0] == '"':
                    out += a[1:-1]
                elif a.lower() in self.t:
                    if isinstance(self.t[a.lower()], Frozen):
                        raise Stuck
                    out += self.t[a.lower()]
                else:
                    out += str(self.value(a))
            self.put(n, out)
        else:
            self.put(n, s)

    def put(self, n, s):
        if n in self.t:
            s = "".join(self.t[n] if w.lower() == n else w for w in self.names(s))
        self.t[n] = s


class C10(core.Check):
    id = "C10"
    level = "model_checking"
    rule = ("explicit-state model of the define table: every sequence of 3 operations (thorough: 4 over a reduced set) from 20 replacement texts "
            "(constants, other names, its own name, eval, concat, labels, no value, literals) and #undef on 2 names, and every sequence of 4 from 12 "
            "operations on a name and on a define or #macro with parameters that refers to it; after every operation the state of every name is probed with #ifdef, #ifndef, "
            "an operand that is known at once and one that is resolved at the end of the file; every trace is replayed on the assembler; every concat() of up to 2 (thorough: 3) of 24 elements")
    assumptions = ["a text that mentions an undefined name, or itself without a previous text, is not probed as an operand", "nothing follows eval() or concat() on the line"]

    def cases(self, tier):
        full = tier != "quick"
        ops = [(n, i) for n in (0, 1) for i in range(len(TXT) + 1)]
        for k in (1, 2, 3):
            for s in itertools.product(ops, repeat=k):
                if s[0][1] != len(TXT) and (k < 3 or full or s[0][0] == 0):
                    yield {"k": "tab", "s": s}
        if full:
            small = [(n, i) for n in (0, 1) for i in (0, 1, 2, 3, 4, 6, 8, 10, 16, 18, len(TXT))]
            for s in itertools.product(small, repeat=4):
                if s[0] == (0, 0) or s[0] == (0, 1):
                    yield {"k": "tab", "s": s}
        for k in range(1, 5):
            for s in itertools.product(range(len(FOPS)), repeat=k):
                if k < 4 or full or (s[0] in (0, 2, 3, 6) and s[3] not in (10, 4)):
                    yield {"k": "fun", "s": s}
        for n in range(1, 20):
            for v in range(4):
                if v < 3 or n <= 10:  # parentheses count as levels, too
                    yield {"k": "deep", "n": n, "v": v}
        for s in itertools.product(range(5), repeat=4):
            yield {"k": "cont", "s": s}
        for k in range(1, 4 if full else 3):
            for s in itertools.product(range(len(CELS)), repeat=k):
                yield {"k": "cat", "s": s}

    def run(self, case, ctx):
        return getattr(self, "k_" + case["k"])(case, ctx)

    def finish(self, src, exp, ctx, what):
        r = ctx.asm("lb = 20\n" + src + "fw = %d\n" % FW)
        ctx.traces += 1
        ctx.outcome(exp)
        if clean(r) and r.files.get("a.bin") == exp:
            return None
        got = r.files.get("a.bin", b"")
        i = next((i for i in range(min(len(got), len(exp))) if got[i] != exp[i]), min(len(got), len(exp)))
        return "%s: output must be %s but from byte %d it is %s: %s" % (what, exp.hex(" "), i, got[i:i + 6].hex(" "), r.brief()[:300])

    def probe(self, m, names, st, exp):
        src = ""
        for n in names:
            u = n.upper() if st & 1 else n
            src += "#ifdef %s\n .db 1\n#else\n .db 0\n#endif\n#ifndef %s\n .db 1\n#else\n .db 0\n#endif\n" % (n, u)
            exp += [1, 0] if n in m.t else [0, 1]
            if n in m.t:
                try:
                    v = m.value(m.t[n])
                except Stuck:
                    continue
                src += " .dw %s\n ld hl,fw+%s\n" % (u, n)
                # the value of a define is grouped in an expression
                exp += list(le(v, 2)) + [0x21] + list(le(v + FW, 2))
        return src

    def k_tab(self, case, ctx):
        m = Model()
        exp = []
        src = ""
        ops = []
        for k, (n, i) in enumerate(case["s"]):
            a, b = ("n", "m") if n == 0 else ("m", "n")
            before = tuple(sorted(m.t.items()))
            if i == len(TXT):
                op = "#undef " + a
                m.t.pop(a, None)
            else:
                t = TXT[i].replace("@0", a).replace("@1", b)
                op = "#define %s%s%s" % (a.upper() if k == 1 else a, " " if t else "", t)
                try:
                    m.define(a, t)
                except Stuck:
                    ctx.count("not enabled")
                    return None
            ops.append(op)
            after = tuple(sorted(m.t.items()))
            ctx.state(after)
            ctx.transition(before, op, after)
            src += op + "\n" + self.probe(m, ("n", "m"), k, exp)
        return self.finish(src, bytes(exp), ctx, " / ".join(ops))

    def k_fun(self, case, ctx):
        n = f = None
        exp, src, ops = [], "", []

        def call(x):
            if f in (0, 1, 2) and n is None:
                return None
            return {0: lambda: x + n, 1: lambda: n - x, 2: lambda: x * 2 + n, 3: lambda: x + x if n is None else n + x, 4: lambda: 9, 11: lambda: x - 1}[f]()
        for k, i in enumerate(case["s"]):
            before = (n, f)
            if i in (0, 1, 2, 3, 4, 11):
                f = i
            elif i in (5, 10):
                f = None
            elif i == 6:
                n = 5
            elif i == 8:
                n = None
            else:
                if n is None:
                    ctx.count("not enabled")
                    return None
                n = n + 10 if i == 7 else n * 3
            ctx.state("f", n, f)
            ctx.transition(before, i, (n, f))
            ops.append(FOPS[i].replace("\n", " | "))
            src += FOPS[i] + "\n#ifdef f\n .db 1\n#else\n .db 0\n#endif\n#ifdef N\n .db 1\n#endif\n"
            exp += [int(f is not None)] + ([1] if n is not None else [])
            if f is not None and call(3) is not None:
                arg = {4: "", 11: "(%s,7)"}.get(f, "(%s)")
                for a, v in (("3", 3), ("lb", 20), ("fw", FW)):
                    if f in (4, 11) and a == "lb":
                        continue
                    e = "f" + (arg % a if arg else "")
                    src += " .dw %s\n ld hl,1+%s\n .dl 2*%s*fw\n" % (e, e, e)
                    w = call(v)
                    exp += list(le(w, 2)) + [0x21] + list(le(1 + w, 2)) + list(le(2 * w * FW, 3))
        return self.finish(src, bytes(exp), ctx, " / ".join(ops))

    def k_deep(self, case, ctx):
        """n defines, each standing for the one before (in either order of definition)"""
        n, v = case["n"], case["v"]
        ls = ["#define d0%s 5" % ("", "", "(x)", "")[v]] + ["#define d%d%s" % (i, (" d%d" % (i - 1), " d%d+1" % (i - 1), "(x) d%d(x)" % (i - 1), " (d%d)" % (i - 1))[v]) for i in range(1, n)]
        w = 5 + (n - 1 if v == 1 else 0)
        a = "(3)" if v == 2 else ""
        exp = []
        src = "\n".join(ls) + "\n"
        src += " .db d%d%s\n" % (n - 1, a)
        exp += [w]
        src += "#undef d0\n#define d0%s 9\n .db d%d%s\n" % ("(x)" if v == 2 else "", n - 1, a)
        exp += [w + 4]
        return self.finish(src, bytes(exp), ctx, "%d defines of form %d" % (n, v))

    def k_cat(self, case, ctx):
        """concat() joins the texts and values of its arguments"""
        t = "".join(CELS[i][1] for i in case["s"])
        src = "#define d1 7\n#define ds \"xy\"\n#define de 1+1\n#define fn(q) q*2\n#macro mc(q)\n q-9\n#endmacro\n nop\n"
        w = ",".join(CELS[i][0] for i in case["s"])
        exp = [0] + [ord(c) for c in t + t] + [9]
        src += "#define n concat(\"\\\"\",%s,\"\\\"\")\n .db n,N\n" % w
        src += "#define  N concat( \"\\\"\" , %s , \"\\\"\" )\n .db 9\n .db n\n" % " , ".join(CELS[i][0] for i in case["s"])
        exp += [ord(c) for c in t]
        m = None
        if all(CELS[i][1] and CELS[i][1].isdigit() for i in case["s"]) and int(t) < 2 ** 31:
            src += "#undef v\n#define v concat(%s)\n .dl v\n .dl 1+v\n" % w
            exp += list(le(int(t), 3)) + list(le(int(t) + 1, 3))
        return self.finish(src, bytes(exp), ctx, src[-200:])

    CONT = ["#define n 5", "#defcont +2", "#define m n", "#defcont *n", "#define n"]

    def k_cont(self, case, ctx):
        """#defcont goes on with the most recent #define"""
        m = Model()
        last = None
        exp, src, ops = [], "", []
        for k, i in enumerate(case["s"]):
            before = tuple(sorted(m.t.items()))
            op = self.CONT[i]
            if i in (1, 3):
                if last is None or (i == 3 and last == "m" and "n" not in m.t):
                    ctx.count("not enabled")
                    return None
                m.put(last, last + " " + op[9:])
            else:
                last = op.split()[1]
                m.define(last, " ".join(op.split()[2:]))
            ops.append(op)
            ctx.state("c", tuple(sorted(m.t.items())))
            ctx.transition(before, op, tuple(sorted(m.t.items())))
            src += op + "\n" + self.probe(m, ("n", "m"), 0, exp)
        return self.finish(src, bytes(exp), ctx, " / ".join(ops))


CHECK = C10()
