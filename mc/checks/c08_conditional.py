"""C08: all short sequences of conditional directives against a reference interpreter; skipped text of every kind."""
import itertools
from .. import core
from ..lib import clean, reported, diags

OPEN = {"I1": 1, "I0": 0, "D1": 1, "D0": 0, "N1": 1, "N0": 0}
TOK = ["I1", "I0", "E1", "E0", "L", "X", "D1", "D0", "N1", "N0"]
SHORT = ["I1", "I0", "E1", "E0", "L", "X"]
TRUE = ["1", "K=3", "K>2&&1", "(K-3)=0", "D", "$>=0", "-1", "0||K", "K!=4", "$100"]
FALSE = ["0", "K=4", "K-3", "1&&0", "D-5", "$>$ffff", "2>3", "K>3||0", "!" if False else "K!=3", "1<1"]
HEAD = "K = 3\n#define D 5\n"


def text(t, k):
    if t in ("I1", "I0"):
        return "#if " + (TRUE if t == "I1" else FALSE)[k % 10]
    if t in ("E1", "E0"):
        return "#elif " + (TRUE if t == "E1" else FALSE)[(k * 3 + 1) % 10]
    return {"D1": "#ifdef D", "D0": "#ifdef ud", "N1": "#ifndef ud", "N0": "#ifndef D", "L": "#else", "X": "#endif"}[t]


def interp(s):
    """-> (verdict, [active after token k]) verdict: ok / error / unjudged"""
    st = []          # [parent active, some branch taken, else seen, active]
    act = [True]
    verdict = "ok"
    for t in s:
        cur = st[-1][3] if st else True
        if t in OPEN:
            v = bool(OPEN[t])
            st.append([cur, v, False, cur and v])
        elif not st:
            return "error", act
        else:
            f = st[-1]
            if t == "X":
                st.pop()
            else:
                if f[2]:
                    if f[0]:
                        return "error", act
                    verdict = "unjudged"
                v = True if t == "L" else t == "E1"
                f[3] = f[0] and not f[1] and v
                f[1] = f[1] or v
                f[2] |= t == "L"
        act.append(st[-1][3] if st else True)
    return ("error" if st else verdict), act


def wellformed(n, al):
    """all properly nested sequences of exactly n tokens"""
    def go(k, st, acc):
        if n - k < len(st):
            return
        if k == n:
            yield acc
            return
        for t in al:
            if t in OPEN:
                yield from go(k + 1, st + [False], acc + [t])
            elif not st:
                continue
            elif t == "X":
                yield from go(k + 1, st[:-1], acc + [t])
            elif not st[-1]:
                yield from go(k + 1, st[:-1] + [t == "L"], acc + [t])
    yield from go(0, [], [])


SKIP = ["lab: nop", "K = 9", "#define D2 1", "#undef D", "#define D 9", '#include "missing.inc"', '#import "missing.bin"', ' .echo "x"', ' .error "x"', " .org $1000",
        "garbage !! $", " don't", " it's isn't", ' .db "open', "; #endif", " nop ; #endif", ' .db "\\\\ #endif"', " ld a,'\"'", " ld a,';'", " ld a,'\\''",
        "#comment\n #xyz\n#endcomment", "#if 1\n nop\n#else\n nop\n#endif", "#IFDEF D\n .db 7\n#ELIF 1\n#ENDIF", "#define q9 #endif", ' .echo > "f.txt","x"', "_:",
        " .nolist", "#macro D3(x)\n .db x\n#endmacro", " mac()", ' wr(" nop")', " ld a,300", " jr K+5000", ' .db "a\\\\" \\ nop', " .db ';',\"'\" ; '\"", "\tnop\t", "  #if 0\n  #endif ; #endif",
        " .dw 1/0", "#ifndef D \\ nop \\ #endif", "lab:#endif_", "_x = (", '#define D "', ';"', "; '", "#undef ; x"]
STRUCT = [["I0", "P", "X"], ["I0", "P", "L", "M", "X"], ["I1", "M", "L", "P", "X"], ["I1", "M", "E1", "P", "X"], ["I1", "M", "E0", "P", "L", "P", "X"],
          ["I0", "P", "E0", "P", "E1", "M", "L", "P", "X"], ["I0", "I1", "P", "L", "P", "X", "P", "X"], ["I1", "I0", "P", "L", "M", "X", "L", "P", "X"], ["D0", "P", "X"],
          ["N0", "P", "E1", "M", "X"], ["I1", "I1", "M", "E1", "P", "X", "M", "E0", "P", "X"]]
ARG = ["", "5", "E0", '"s"', '""', "lab", "fw", "nosuch", "(1+2)", "K", " ", "x", "y", "D"]      # "" and " ": none was given
CTX = ["plain", "style", "macro", "include", "crlf"]


class C08(core.Check):
    id = "C08"
    level = "exploration"
    rule = ("all sequences of conditional directives (10 kinds: #if/#ifdef/#ifndef true and false, #elif true and false, #else, #endif) of length <=4 (thorough <=5), "
            "all properly nested ones over 6 kinds of length <=8 (thorough <=10), with a marker statement between any two and 10 renderings of each condition, in "
            "5 contexts (plain, indented/upper case/commented, macro body, included file, CRLF; all on one line up to length 6), against a reference interpreter; "
            "plus 44 kinds of skipped text and all their pairs in 11 structures x 5 contexts, which must leave no trace; plus #ifdef/#ifndef of macro parameters with 14 x 14 kinds of given and omitted arguments in 4 structures. Non-trivial: distinct outputs")
    assumptions = ["conditions are known values; a malformed sequence inside a branch that is itself skipped is not judged"]

    def cases(self, tier):
        full = tier != "quick"
        for n in range(1, 6 if full else 5):
            for s in itertools.product(TOK, repeat=n):
                yield {"s": s, "c": [0] if n > 3 else [0, 1, 3, 4, 5]}
        for n in range(2, 11 if full else 9):
            for s in wellformed(n, SHORT):
                yield {"s": s, "c": [0, 1, 2, 3, 4, 5] if n <= 6 else [0, 2]}
        for st in range(len(STRUCT)):
            for c in range(5):
                for a in range(len(SKIP)):
                    yield {"st": st, "c": c, "p": [a]}
        for t in itertools.product(range(4), repeat=2):
            for sh in range(4):
                for a in range(len(ARG)):
                    yield {"t": t, "sh": sh, "a": a}
        for a in range(len(SKIP)):
            for b in range(len(SKIP)):
                for st in (range(len(STRUCT)) if full else (1, 2, 5)):
                    for c in ((0, 2, 4) if full else ((0,) if a != b else (0, 2))):
                        yield {"st": st, "c": c, "p": [a, b]}

    def wrap(self, lines, c):
        """-> (source, files)"""
        body = "\n".join(lines) + "\n"
        if c == 1:
            body = "".join("%s%s ; it's\n" % ("\t  " if l.startswith("#") else "", l.upper() if l.startswith("#") else l) if '"' not in l else l + "\n" for l in lines)
        if c == 2:
            return HEAD + "#macro mm\n" + body + "#endmacro\n mm\n", {}
        if c == 3:
            return HEAD + '#include "b.inc"\n', {"b.inc": body}
        if c == 4:
            return (HEAD + body).replace("\n", "\r\n"), {}
        if c == 5:
            return HEAD + " \\ ".join(lines) + "\n", {}
        return HEAD + body, {}

    def run(self, case, ctx):
        if "s" in case:
            verdict, act = interp(case["s"])
            exp = bytes(k + 1 for k, a in enumerate(act) if a)
            lines = [" .db 1"]
            for k, t in enumerate(case["s"]):
                lines += [text(t, k), " .db %d" % (k + 2)]
            for c in case["c"]:
                if c == 2 and verdict != "ok":
                    continue
                src, files = self.wrap(lines, c)
                m = self.judge(ctx, src, files, verdict, exp, ())
                if m:
                    return m
            return None
        if "t" in case:
            return self.args(case, ctx)
        lines = [" .db 1"]
        pay = "\n".join(SKIP[a] for a in case["p"])
        if case["c"] == 2 and ("#macro" in pay or "#comment" in pay):
            return None
        exp = b"\1"
        n = 1
        for k, t in enumerate(STRUCT[case["st"]]):
            if t == "P":
                lines += pay.split("\n")
            elif t == "M":
                n += 1
                lines.append(" .db %d" % n)
                exp += bytes([n])
            else:
                lines.append(text(t, k))
        lines += [" .dw K,D,$", "#ifdef D2", " .db 99", "#endif", "#ifdef D3", " .db 98", "#endif"]
        pc = len(exp) + 4
        exp += bytes([3, 0, 5, 0, pc, 0])
        src, files = self.wrap(lines, case["c"] if case["c"] != 1 else 0)
        if case["c"] == 1:
            src = src.replace("\n#", "\n  #").replace("#if", "#IF").replace("#else", "#Else")
        return self.judge(ctx, src, files, "ok", exp, ("lab",))

    def args(self, case, ctx):
        """#ifdef/#ifndef of a parameter: whether an argument was given, whatever it is"""
        t, sh, a = case["t"], case["sh"], ARG[case["a"]]
        tests = [("#if%sdef %s" % ("n" if q & 1 else "", "xy"[q >> 1]), q >> 1, q & 1) for q in t]
        body = {0: "{0}\n .db 1\n#else\n .db 2\n#endif\n{1}\n .db 3\n#else\n .db 4\n#endif\n", 1: "{0}\n .db 1\n{1}\n .db 3\n#else\n .db 4\n#endif\n#else\n .db 2\n#endif\n",
                2: "#if 0\n .db 9\n#else\n{0}\n#else\n .db 2\n{1}\n .db 3\n#endif\n#endif\n#endif\n", 3: "#if 0\n{0}\n#else\n{1}\n#endif\n#endif\n#elif 1\n{1}\n .db 3\n#endif\n{0}\n .db 1\n#else\n .db 2\n#endif\n#endif\n"}[sh].format(tests[0][0], tests[1][0])
        src, exp = "#define E0\nlab:\n#macro M(x,y)\n" + body + "#endmacro\n", b""
        for b in ARG:
            calls = [(a, b if b.strip() else None)]      # a comma with nothing after it is an error
            for x, y in calls:
                if y is not None and not x.strip():
                    continue      # is an empty argument before a comma given?
                src += " M(%s)\n" % (x if y is None else x + "," + y)
                v = [x.strip() != "", y is not None and y.strip() != ""]
                r = [v[p] != bool(n) for _, p, n in tests]
                exp += bytes({0: [1 if r[0] else 2, 3 if r[1] else 4], 1: ([1, 3 if r[1] else 4] if r[0] else [2]), 2: ([] if r[0] else [2] + ([3] if r[1] else [])), 3: ([3] if r[1] else []) + [1 if r[0] else 2]}[sh])
        src += "fw = 3\n"
        return self.judge(ctx, HEAD + src, {}, "ok", exp, ())

    def judge(self, ctx, src, files, verdict, exp, labels):
        r = ctx.asm(src, *(["-L"] if labels else []), files=files)
        ctx.outcome(verdict, exp)
        ctx.count(verdict)
        show = src[len(HEAD):] + "".join(files.values())
        if r.crashed:
            return "%r: %s" % (show, r.brief())
        if verdict == "ok":
            if not clean(r) or r.files.get("a.bin") != exp or set(r.files) - {"a.bin", "a.lab"}:
                return "%r must assemble to %s: %s" % (show, exp.hex(" "), r.brief()[:400])
            if labels and b"LAB " in r.files.get("a.lab", b"").upper():
                return "%r: a label in skipped text was defined" % show
        elif verdict == "error" and not (r.status and [d for d in diags(r) if d[2] == "error"]):
            return "%r is malformed but was not reported: %s" % (show, r.brief()[:300])
        return None


CHECK = C08()
