"""C30: every short list of .echo/.error elements, and every short history of echoes, against a model of the texts.

list  : all element lists up to length 3 (4) over strings, numbers, labels, defines, lists, macros, forward references x console / file
error : all element lists up to length 2 (3) given to .error: the text is reported, assembly fails
hist  : all sequences of echoes (console, file, append, in macros, includes, branches, generated code), redefinitions and code up to a depth
len   : every text length around the limits, in one string and over many: printed whole or reported
bad   : every element that has no value, in every position and sink: reported
name  : every spelling of the name of the file
"""
import itertools
from .. import core
from ..lib import clean, diags

FW, ORG = 0x1234, 0x8000
KEEP = 0o10644      # an input that is looked at afterwards, too
# text, expected (or function of the state), known when it is read
E = [
    ('"abc"', "abc", 1), ('""', "", 1), ('"a b;c,d"', "a b;c,d", 1), ('"q\\"q"', 'q"q', 1), ('"b\\\\s"', "b\\s", 1), ('"n\\nl"', "n\nl", 1), ('"%d%s%n"', "%d%s%n", 1),
    ('"(x]"', "(x]", 1), ('"\'"', "'", 1), ('"t\\tt"', "t\tt", 1), ('"K S fw back"', "K S fw back", 1), ('5', "5", 1), ('-1', "-1", 1), ("$80000000", "-2147483648", 1), ("'a'", "97", 1),
    ("','", "44", 1), ("1+2*3", "9", 1), ("7==7", "1", 1), ("(3)", "3", 1), ("%101", "5", 1), ("K", "77", 1), ("S", "str;,", 1), ("L", "l1", 1), ("LB", "l177e", 1), ("LF", "%dz" % FW, 0),
    ("F(4)", "8", 1), ("F(fw)", str(2 * FW), 0), ("G(1,2)", "1/2", 1), ('G(fw,"x")', "%d/x" % FW, 0), ("back", str(ORG), 1), ("$", lambda s: str(s["pc"]), 1), ("fw", str(FW), 0),
    ("fw-$", lambda s: str(FW - s["pc"]), 0), ("fw2", "-5", 0), ("-_", str(ORG + 1), 1), ("_", lambda s: str(s["last"]), 0), ("d", lambda s: str(s["d"]), 1), ("lx", str(ORG + 1), 1),
    ("LN(2)", "<2>77", 1), ("EV", "9", 1), ('"\\0x\\0"', "\0x\0", 1), ('"//\\\\;"', "//\\;", 1),
]
HEAD = ('#define S "str;,"\n#define K 77\n#define L "l",1\n#define LB L,K,"e"\n#define LF fw,"z"\n#define F(x) x*2\n#define G(x,y) x,"/",y\n#define LN(q) "<",q,">",K\n#define EV 4+5\n#define d 3\n'
        " .org $8000\n_\nback: nop\n_\nlx\n")
TAIL = "\n_\nfw = $1234\nfw2 = -5\n"
SEP = [",", ", ", " , ", "\t,\t"]
END = ["", " ; comment, \"x\"", "\\ nop", " \t", " \\ nop ; x"]
OPTS = [[], ["-T"], ["-L"], ["-E"], ["-T", "-L"], ["-I."]]


def text(e, s):
    return e(s) if callable(e) else e


def printed(r):
    """what the second pass printed"""
    o = r.out
    i = o.find("Pass two... \n")
    j = o.rfind("Assembly time")
    return o[i + 13:j] if i >= 0 and j > i else None


class Echo(core.Check):
    id = "C30"
    level = "exploration"
    rule = ("all lists of up to 3 (thorough: 4) of %d elements x console/file; all histories of 15 kinds of statements up to depth 4 (thorough: 5) with their files; all lists of up to 2 (3) elements for .error; "
            "text lengths 0..260 and sums around the limits; every valueless element in every position; file name spellings") % len(E)
    assumptions = ["values print in decimal, as signed 32-bit numbers", "with a redirection values must be known at the line (a later one is an error)", "an argument or a single expression over 250 characters may be refused, but not silently"]

    def bounds(self, tier):
        return {"list length": 3 if tier == "quick" else 4, "history depth": 4 if tier == "quick" else 5}

    def cases(self, tier):
        q = tier == "quick"
        n = len(E)
        for i in range(n):
            yield ["list", 1, i]
            for j in range(n):
                yield ["list", 3, i, j]
                if not q:
                    for k in range(n):
                        yield ["list", 4, i, j, k]
        for i in range(n):
            yield ["error", 1, i]
            yield ["error", 2, i]
            if not q:
                for j in range(n):
                    yield ["error", 3, i, j]
        m = len(self.ACTS)
        for i in range(m):
            yield ["hist", 1, i]
            for j in range(m):
                yield ["hist", 4 if q else 3, i, j]
                if not q:
                    for k in range(m):
                        yield ["hist", 5, i, j, k]
        for a in range(0, 264, 4):
            yield ["len", a]
        yield ["sum"]
        for i in range(len(self.BAD)):
            yield ["bad", i]
        yield ["name"]

    def run(self, case, ctx):
        bad = list(itertools.islice((m for m in getattr(self, "f_" + case[0])(ctx, *case[1:]) if m), 3))
        return "\n".join(bad) or None

    def f_list(self, ctx, k, *pre):
        free = k - len(pre)
        combos = [pre + c for f in range((0 if k == 1 else 0), free + 1) for c in itertools.product(range(len(E)), repeat=f)] if k != 4 else [pre + c for c in itertools.product(range(len(E)), repeat=free)]
        if k == 1:
            combos = [pre]
        for at in range(0, len(combos), 45):
            yield self.batch(ctx, combos[at:at + 45], "console")
            yield self.batch(ctx, combos[at:at + 45], "file")
        if k == 1:
            for o in OPTS:
                yield self.batch(ctx, combos, "console", o)
                yield self.batch(ctx, combos, "file", o)
                yield self.batch(ctx, combos, "macro", o)

    def batch(self, ctx, combos, sink, opts=None):
        pc, lines = ORG + 1, []
        for c in combos:
            if sink == "file" and any(not E[i][2] for i in c):
                continue
            h = sum(c) * 7 + len(c) + len(lines)
            lines.append((c, h, pc))
            pc += 1 + ("nop" in END[h % 5])
        if not lines:
            return None
        src, exp = HEAD, ""
        if sink == "macro":
            src = src.replace(" .org", "#macro em(x)\n; body\n .echo x,fw\n .echo x\n#endmacro\n .org", 1)
        for c, h, p in lines:
            s = {"pc": p, "last": pc, "d": 3}
            body = SEP[h % 4].join(E[i][0] for i in c)
            t = "".join(text(E[i][1], s) for i in c)
            dire = (" .echo ", "\t.ECHO\t", " .Echo  ", "lab%d: .echo " % p)[h % 4]
            ctx.state((c, sink))
            if sink == "macro":
                if len(c) != 1 or "," in E[c[0]][0]:
                    return None
                # the arguments are expanded where the macro is called
                src += " em(%s)\n nop\n" % body
                exp += t + str(FW) + "\n" + t + "\n"
                continue
            if sink == "file":
                dire += "> \"f%d.txt\" " % (h % 3) if len(lines) == 1 else ">> \"f.txt\" "
                exp += t
            else:
                exp += t + "\n"
            src += dire + body + END[h % 5] + "\n nop\n"
        o = OPTS[lines[0][1] % 6] if opts is None else opts
        r = ctx.asm(src + TAIL, *o, files={"f0.txt": "old text\n", "f1.txt": "", "f2.txt": "x" * 300}, modes={"f%d.txt" % i: KEEP for i in range(3)})
        ctx.traces += 1
        ctx.transition((tuple(combos[0]), tuple(o), sink))
        if sink == "file":
            name = "f%d.txt" % (lines[0][1] % 3) if len(lines) == 1 else "f.txt"
            got = r.files.get(name)
            got = got.decode("latin-1") if got is not None else None
            if printed(r) not in ("", None):
                return "echo to a file also prints %r: %r" % (printed(r), src[-200:])
        else:
            got = printed(r)
        ctx.outcome(exp[:40])
        if not clean(r) or got != exp:
            # narrow it down
            if len(combos) > 1:
                for c in combos:
                    m = self.batch(ctx, [c], sink, o)
                    if m:
                        return m
            p = next((i for i in range(min(len(got or ""), len(exp))) if got[i] != exp[i]), min(len(got or ""), len(exp)))
            return "%s %s: got %r, expected %r (%s): %r" % (sink, o, (got or "")[max(0, p - 20):p + 40], exp[max(0, p - 20):p + 40], r.brief()[:200] if not clean(r) else "", src[len(HEAD):][:200])
        return None

    def f_error(self, ctx, k, *pre):
        for rest in itertools.product(range(len(E)), repeat=k - len(pre)):
            c = pre + rest
            h = sum(c) * 5 + len(c)
            late = any(not E[i][2] for i in c)
            s = {"pc": ORG + 1, "last": 0, "d": 3}
            t = "".join(text(E[i][1], s) for i in c)
            body = SEP[h % 4].join(E[i][0] for i in c)
            for place in range(4 if k < 3 else 1):
                if place == 0:
                    src, ln = HEAD + " .error " + body + "\n", HEAD.count("\n") + 1
                elif place == 1:
                    src, ln = HEAD + "#if 1\n\t.ERROR\t" + body + " ; c\n#endif\n", HEAD.count("\n") + 2
                elif place == 2:
                    src, ln = HEAD.replace(" .org", "#macro em()\n; body\n .error " + body + "\n#endmacro\n .org", 1) + " em()\n", None
                else:
                    src, ln = HEAD + "#if 0\n .error " + body + "\n#else\n nop\n#endif\n", 0
                r = ctx.asm(src + TAIL, *OPTS[h % 6])
                ctx.traces += 1
                ctx.state((c, "error"))
                ctx.transition((c, "error", place))
                if place == 3:
                    if not clean(r):
                        yield "skipped .error: %r: %s" % (body, r.brief()[:300])
                    continue
                if r.crashed or r.status == 0 or not any(d[2] == "error" for d in diags(r)):
                    yield ".error doesn't fail: %r: %s" % (body, r.brief()[:300])
                elif not late and "\0" not in t:
                    if ": " + t + "\n" not in r.out:
                        yield ".error %r doesn't report %r: %s" % (body, t, r.brief()[:300])
                    elif ln and not any(d[1] == ln and d[3] == t.split("\n")[0] for d in diags(r)):
                        yield ".error %r not at line %d: %s" % (body, ln, r.brief()[:300])
                    elif len([d for d in diags(r) if d[2] == "error"]) != 1:
                        yield ".error %r reports more than itself: %s" % (body, r.brief()[:300])

    # histories --------------------------------------------------------------------------------------------------
    ACTS = ["A", "B", "C", "d", "n", "m", "i", "e", "f", "g", "h", "w", "_", "2", "z"]

    def f_hist(self, ctx, k, *pre):
        free = k - len(pre)
        seqs = [pre] if k == 1 else [pre + c for f in range(free + 1) for c in itertools.product(range(len(self.ACTS)), repeat=f)] if k in (3, 4) else [pre + c for f in range(1, free + 1) for c in itertools.product(range(len(self.ACTS)), repeat=f)]
        for seq in seqs:
            yield self.history(ctx, [self.ACTS[i] for i in seq])

    def history(self, ctx, seq):
        src = "#macro em(x)\n; body\n .echo \"m\",x,fw\n .echo \"k\",x,d\n#endmacro\n#define d 3\n .org $8000\n"
        con, files = [], {"g.txt": "old\n"}
        pc, d, anon, a = ORG, 3, None, None
        for n, a in enumerate(seq):
            if a == "A":
                src += ' .echo "a",d\n'
                con.append("a%d" % d)
            elif a == "B":
                src += ' .echo "b",fw\n'
                con.append("b%d" % FW)
            elif a == "C":
                src += ' .echo $,",",d,"/",fw-$\n'
                con.append("%d,%d/%d" % (pc, d, FW - pc))
            elif a == "d":
                d += 1
                src += "#undef d\n#define d %d\n" % d
            elif a == "n":
                src += " nop\n"
                pc += 1
            elif a == "m":
                src += " em(d+1)\n"
                con += ["m%d%d" % (d + 1, FW), "k%d%d" % (d + 1, d)]
            elif a == "i":
                src += '#include "e.inc"\n'
                con.append("i%d" % d)
                con.append("%dj%d" % (FW, d))
            elif a == "e":
                src += '#if d=%d\n .echo "e",d\n#else\n .echo "x"\n .echo > "no.txt" "x"\n#endif\n' % d
                con.append("e%d" % d)
            elif a == "f":
                src += ' .echo > "f.txt" "x",d\n'
                files["f.txt"] = "x%d" % d
            elif a == "g":
                src += ' .echo >> "f.txt" "y",$,"\\n"\n'
                files["f.txt"] = files.get("f.txt", "") + "y%d\n" % pc
            elif a == "h":
                src += ' .echo >> "g.txt" d,";"\n'
                files["g.txt"] += "%d;" % d
            elif a == "w":
                src += ' wr(" .echo ",d,"\\\\ nop")\n run()\n'
                con.append(str(d))
                pc += 1
            elif a == "_":
                src += "_\n .echo -_,\"<\"\n"
                con.append("%d<" % pc)
            elif a == "2":
                src += ' .echo "1"\\ .echo $\\ nop\\ .echo $,fw\n'
                con += ["1", str(pc), "%d%d" % (pc + 1, FW)]
                pc += 1
            elif a == "z":
                src += '#comment\n .echo "no"\n#endcomment\n; .echo "no"\n#macro un%d()\n .echo "no"\n#endmacro\n' % n
            ctx.transition((tuple(seq[:n]), a))
        src += "fw = $1234\n nop\n"
        o = OPTS[(len(src) + len(seq)) % 6]
        r = ctx.asm(src, *o, files={"e.inc": ' .echo "i",d\n .echo fw,"j",d\n', "g.txt": "old\n", "unrelated.txt": "u"}, modes={"g.txt": KEEP, "unrelated.txt": KEEP})
        ctx.traces += 1
        ctx.state(tuple(seq))
        ctx.outcome((con[:6], sorted(files.items())))
        if not clean(r):
            return "history %s: %s" % (seq, r.brief()[:300])
        exp = "".join(t + "\n" for t in con)
        if printed(r) != exp:
            return "history %s %s prints %r, expected %r" % (seq, o, printed(r)[:300], exp[:300])
        got = {n: v.decode("latin-1") for n, v in r.files.items() if n.endswith(".txt")}
        files["unrelated.txt"] = "u"
        if got != files:
            return "history %s %s: files %r, expected %r" % (seq, o, got, files)

    # lengths ----------------------------------------------------------------------------------------------------
    def whole(self, ctx, what, src, exp, file=None, must=True):
        """the text is there completely, or (unless it must be accepted) an error says so"""
        r = ctx.asm(src)
        ctx.traces += 1
        got = printed(r) if file is None else (r.files.get(file) or b"").decode("latin-1")
        if clean(r) and got == exp:
            ctx.outcome("whole")
            return None
        if r.crashed or clean(r) or must or r.status < 2 or not ("error" in r.out.lower() or "too long" in r.out):
            return "%s: %d characters of %d: %s" % (what, len(got or ""), len(exp), r.brief()[:200])
        ctx.outcome("refused")
        return None

    def f_len(self, ctx, a):
        for n in range(a, a + 4):
            must = n <= 200
            for ch, spelled in (("x", "x"), ("\"", "\\\""), ("\\", "\\\\"), ("\n", "\\n"), ("%", "%")):
                c = n // len(spelled)
                s, t = '"' + spelled * c + '"', ch * c
                ctx.state((n, ch))
                ctx.transition((n, ch))
                yield self.whole(ctx, "string of %d" % n, " .echo %s\n nop\n" % s, t + "\n", must=must)
                yield self.whole(ctx, "string of %d, late" % n, " .echo %s,fw\n nop\nfw = 7\n" % s, t + "7\n", must=must)
                yield self.whole(ctx, "string of %d, define" % n, "#define S %s\n .echo S,S,S,1\n nop\n" % s, 3 * t + "1\n", must=must)
                yield self.whole(ctx, "string of %d, define, late" % n, "#define S %s\n .echo S,fw,S,S\n nop\nfw = 7\n" % s, t + "7" + t + t + "\n", must=must)
                yield self.whole(ctx, "string of %d to a file" % n, " .echo > \"f.txt\" %s,5\n nop\n" % s, t + "5", "f.txt", must=must)
                yield self.whole(ctx, "string of %d to a file, define" % n, "#define S %s\n .echo > \"f.txt\" S,S\n nop\n" % s, t + t, "f.txt", must=must)
                if ch in "x%" and n:
                    for src in (" .error %s\n" % s, "#define S %s\n .error S,S,2\n" % s, "#define S %s\n#macro em(q)\n; b\n .error q,1,q\n#endmacro\n em(S)\n" % s):
                        r = ctx.asm(src)
                        e = {" ": t, "S": t + t + "2", "q": t + "1" + t}[" " if src.startswith(" ") else "q" if "em(" in src else "S"]
                        if r.crashed or (r.status or 0) < 2 or must and ": " + e + "\n" not in r.out:
                            yield ".error of %d characters: %s" % (n, r.brief()[:300])
            # blanks between the elements count for nothing
            yield self.whole(ctx, "%d blanks" % n, " .echo %s\"a\",%s1\n nop\n" % (" " * n, " " * n), "a1\n", must=n <= 100)

    def f_sum(self, ctx):
        for n in (1, 2, 3, 10, 50, 100, 120):
            for k in (1, 2, 3, 5, 8, 16, 31, 40, 64):
                t = "".join(chr(97 + (n + i) % 26) for i in range(n))
                names = ",".join("S" for _ in range(k))
                for late in (0, 1):
                    l = ",fw" if late else ""
                    yield self.whole(ctx, "%d times %d" % (k, n), "#define S \"%s\"\n .echo %s%s\n nop\nfw = 7\n" % (t, names, l), t * k + ("7" if late else "") + "\n")
                yield self.whole(ctx, "%d times %d" % (k, n), "#define S \"%s\"\n .echo > \"f.txt\" %s\n nop\nfw = 7\n" % (t, names), t * k, "f.txt")
                r = ctx.asm("#define S \"%s\"\n .error %s\n" % (t, names))
                if r.crashed or (r.status or 0) < 2 or ": " + t * k + "\n" not in r.out:
                    yield ".error of %d times %d characters: %s" % (k, n, r.brief()[:300])
                ctx.state((n, k))
                ctx.transition((n, k))

    # elements without a value
    BAD = ["nope", "nope(1)", "1+", "5 6", '"abc', "(1", "nope+1", "+", "F(", "NE", "NL", "F(nope)", "1+nope", "\"a\"b", "'ab", "$G", "((1)", "G(1,nope)", "NL2", "{1}"]

    def f_bad(self, ctx, i):
        b = self.BAD[i]
        head = HEAD + "#define NE nope\n#define NL 1,nope,2\n#define NL2 NL,3\n"
        ok = ['"s"', "5", "fw", "L", "S"]
        for n in (1, 2, 3):
            for pos in range(n):
                for rest in itertools.product(ok, repeat=n - 1):
                    els = list(rest[:pos]) + [b] + list(rest[pos:])
                    for dire in (" .echo ", " .echo > \"f.txt\" ", " .error "):
                        if dire != " .echo " and "fw" in rest:
                            continue
                        r = ctx.asm(head + dire + ",".join(els) + "\n nop\n" + TAIL)
                        ctx.traces += 1
                        ctx.state((b, pos, n))
                        ctx.transition((b, pos, rest, dire))
                        if r.crashed or not r.status or not diags(r) and "rror" not in r.out:
                            yield "%s%s is accepted: %s" % (dire, ",".join(els), r.brief()[:200])

    def f_name(self, ctx):
        files = {"sub/e.inc": ' .echo > "f.txt" "x"\n', "sub/k.txt": "k"}
        for head, spell, name in (("", '"f.txt"', "f.txt"), ("", "f.txt", "f.txt"), ("#define N \"f.txt\"\n", "N", "f.txt"), ("#define N f.txt\n", "N", "f.txt"), ("", '"a b.txt"', "a b.txt"), ("", '"sub/f.txt"', "sub/f.txt"),
                                  ("", '"./f.txt"', "f.txt"), ("", '"f;x.txt"', "f;x.txt"), ("", "\"f,x.txt\"", "f,x.txt"), ("", '"sub/../f.txt"', "f.txt"), ("", '"%s.txt"', "%s.txt"), ("", '"' + "n" * 200 + '"', "n" * 200),
                                  ("#define N \"sub/f.txt\"\n", "N", "sub/f.txt"), ("", '"F.TXT"', "F.TXT")):
            for gap in ("> ", ">", ">\t", ">  ", ">> ", ">>", ">>\t"):
                if gap == ">" and spell[0] != '"':
                    continue
                for old in (None, "", "old", "x" * 5000):
                    for body, t in (('"hi",3', "hi3"), ("back", "0"), ('""', ""), ('"a\\nb"', "a\nb"), ("5,\"x\" ; c", "5x")):
                        f = dict(files)
                        if old is not None and name not in ("sub/f.txt",):
                            f[name] = old
                        src = head + "back:\n .echo " + gap + spell + " " + body + "\n nop\n"
                        r = ctx.asm(src, files=f, modes={n: KEEP for n in f})
                        ctx.traces += 1
                        ctx.state((spell, gap, old and len(old)))
                        ctx.transition((spell, gap, old and len(old), body))
                        exp = (f.get(name, "") if ">>" in gap else "") + t
                        got = r.files.get(name)
                        if not clean(r) or got is None or got.decode("latin-1") != exp:
                            yield "echo %s%s (%s before): %r, expected %r: %s" % (gap, spell, old and len(old), got and got[:40], exp[:40], r.brief()[:200])
        # from an include in another folder, and with a source in another folder
        r = ctx.asm('#include "sub/e.inc"\n nop\n', files=files)
        if not clean(r) or r.files.get("f.txt") != b"x":
            yield "echo in an include: %s" % r.brief()[:200]


CHECK = Echo()
