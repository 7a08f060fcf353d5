"""C26: every permutation and spelling of bounded option sets on option-sensitive programs.

perm : every subset of the options up to a size, every interleaving with the input and output names, every spelling;
       the bytes are modelled, and console output, listing and symbol table must equal those of the canonical order
sets : every subset of all ten options in four orders
def  : command-line defines against the same #define lines at the top of the source
line : a line given with -V against a file with that content
name : default output, listing and symbol table names
incl : include directory lists in every spelling and order
misc : help, unknown options, options without their argument, no input, at every position
color: console output with and without -N
"""
import itertools
import re
from .. import core
from ..lib import le

P1 = """#ifdef OPT
 .db OPT
#else
 .db $EE
#endif
#ifdef lab
 .db lab
#else
 .db $DD
#endif
#ifdef LAB
 .db LAB
#else
 .db $CC
#endif
st: ld hl,$1234
 jp st
"""
P2 = P1 + "#include \"only.inc\"\n"
FILES = {"only.inc": " .db 1\n", "dir/only.inc": " .db $A1\n", "nodir2/x": ""}
del FILES["only.inc"]
OPTS = {
    "E": [["-E"]], "T": [["-T"]], "C": [["-C"]], "L": [["-L"]], "S": [["-S"]], "O": [["-O"]], "A": [["-A"]], "N": [["-N"]],
    "I": [["-Idir"], ["-I", "dir"], ["-I", "nodir;dir"], ["-Inodir,dir"]],
    "D": [["-DOPT=7"], ["-D", "OPT=7"]],
    "M": [["-Dlab=3"], ["-D", "lab=3"]],
}
ORDER = "ETCLSOANIDM"
ESC = re.compile("\x1b\\[[0-9;]*m")


def norm(r):
    return re.sub(r"Assembly time: [0-9.]+ seconds", "Assembly time", r.out)


def bare(r):
    return ESC.sub("", norm(r))


def model(s, prog2):
    """expected binary or None when the program must be rejected"""
    if prog2 and "I" not in s:
        return None
    b = b"\x07" if "D" in s else b"\xee"
    b += b"\x03" if "M" in s else b"\xdd"
    b += b"\x03" if "M" in s and "A" not in s else b"\xcc"
    n = 3 if "E" in s else 2
    st = len(b)
    b += b"\x21" + le(0x1234, n) + b"\xc3" + le(st, n)
    return b + (b"\xa1" if prog2 else b"")


def orders(items):
    """all interleavings that keep the input name before the output name"""
    for p in itertools.permutations(items):
        if "out" in p and p.index("out") < p.index("in"):
            continue
        yield p


def args_of(p, spell, out):
    a = []
    for x in p:
        a += ["a.asm"] if x == "in" else [out] if x == "out" else OPTS[x][spell.get(x, 0)]
    return a


def verdict(ctx, s, prog2, args, out, ref, names=("a", "a")):
    """ref: the canonical run"""
    r = ctx.exec(args, dict(FILES, **{"a.asm": P2 if prog2 else P1}))
    ctx.count("orders", 1)
    exp = model(s, prog2)
    base = names[0]
    if r.crashed:
        return "%r crashed: %s" % (args, r.brief()[:300])
    if exp is None:
        if r.status == 0 or r.files:
            return "%r: missing include accepted: %s" % (args, r.brief()[:300])
    else:
        want = {}
        if "O" not in s:
            want[out] = exp
        if r.status != 0:
            return "%r: status %d: %s" % (args, r.status, r.brief()[:300])
        got = set(r.files)
        need = set(want) | ({base + ".lst"} if "T" in s else set()) | ({base + ".lab"} if "L" in s else set())
        if got != need:
            return "%r wrote %s instead of %s" % (args, sorted(got), sorted(need))
        for k in want:
            if r.files[k] != want[k]:
                return "%r: %s holds %s instead of %s" % (args, k, r.files[k].hex(), want[k].hex())
        if ("Min. execution time" in r.out) != ("C" in s) or ("Number of labels" in r.out) != ("S" in s):
            return "%r: wrong counters printed: %r" % (args, r.out)
    if ("\x1b" in r.out) == ("N" in s) and r.out.strip():
        if "N" in s or ref is not None and "\x1b" in ref.out:
            return "%r: colours %s: %r" % (args, "in spite of -N" if "N" in s else "missing", r.out)
    if ref is not None:
        if r.status != ref.status or norm(r) != norm(ref) or r.files != ref.files:
            return "%r differs from the canonical order:\n%s\n--- canonical\n%s" % (args, r.brief()[:400], ref.brief()[:400])
    ctx.state((s, prog2))
    ctx.transition((s, prog2, tuple(args)))
    ctx.traces += 1
    ctx.outcome((r.status, tuple(sorted(r.files)), len(r.out) // 40))
    return r


# ---------------------------------------------------------------- defines
DNAMES = ["x", "Xy", "_z", "abc1"]
DVALS = ["", "=", "=1", "=0", "=$12", "=%101", "=-1", "=1+2*3", "=(4)", "=other", "=\"s\"", "='A'", "=300", "= 5", "=5 ", "=a=b", "==", "=x", "=1,2"]
DSRC = """#ifdef %(n)s
 .db 1
#else
 .db 2
#endif
#ifdef %(u)s
 .db 3
#endif
#if %(n)s
 .db 4
#endif
 .dw %(n)s
 .db %(n)s+1
 .echo %(n)s,"\\n"
#undefine %(n)s
#ifdef %(n)s
 .db 5
#endif
#define %(n)s 9
 .db %(n)s
other = 77
"""

LINES = [" nop", " ld a,5", " ld a,5\\ inc a", "l1: jp l1", "x1 = 5\\ .db x1", " .db \"text\",0", " ld hl,$1234", " .db q", " bogus", " .echo \"hi\"", "",
         "; comment", " .dw l2\\l2: nop", "#define k 4\n .db k", "#include \"g.inc\"", " .db 1 \\ .db 2 \\ .db 3", " .error \"e\"", " .fill 3,7", "#macro m(a)\n; b\n .db a\n#endmacro\n m(4)",
         " .org $100\\l3: .dw l3", "#ifdef z1\n .db 1\n#else\n .db 2\n#endif", " ld a,'\\\\'", " .db \"a\\\\b\"", " jr $", " ld b,300", " .db %d,%c,%s", " .import", "#import \"d.bin\""]
LOPTS = ["", "E", "A", "D", "L", "T", "O", "LT", "EA", "LTO", "C", "S"]

NAMES = ["a", "a.asm", "a.b.asm", "a.z80", "d/a", "d/a.asm", "d.x/a", "d.x/a.y", "./a.asm", "./a", "d/../a.asm", "a.", ".asm", "a..asm", "d.x/../a", "long" * 20 + ".asm", "a b.asm", "d.x/.a"]
OUTN = [None, "o.bin", "o", "o.hex", "e/o.8xv", "e.x/o", "e.x/o.8xv", "./o.bin", "o.b.hex"]


def chext(n, e):
    d, f = n.rsplit("/", 1) if "/" in n else (None, n)
    f = f.rsplit(".", 1)[0] if "." in f else f
    return (d + "/" if d is not None else "") + f + "." + e


def clean_path(p):
    out = []
    for c in p.split("/"):
        if c == "..":
            out.pop()
        elif c != ".":
            out.append(c)
    return "/".join(out)


class Options(core.Check):
    id = "C26"
    level = "exploration"
    rule = ("every subset of {-E,-T,-C,-L,-S,-O,-A,-N,-I,-D,-D} up to a size x every interleaving with input and output names x every spelling; all 2048 subsets in four orders; "
            "command-line defines (all single, all pairs) == #define at the top; -V lines == files; default names; include lists; help / unknown / incomplete options at every position; colours")
    assumptions = ["an option is recognised by the letter after the dash; '-D name' takes the rest of the argument as name[=value]"]

    def bounds(self, tier):
        return {"permuted options": 3 if tier == "quick" else 4, "define names x values": [len(DNAMES), len(DVALS)], "lines": len(LINES), "names": [len(NAMES), len(OUTN)]}

    def cases(self, tier):
        k = 3 if tier == "quick" else 4
        for n in range(k + 1):
            for s in itertools.combinations(ORDER, n):
                if n < 4:
                    yield ["perm", "".join(s), 0, 1]
                else:
                    for part in range(6):
                        yield ["perm", "".join(s), part, 6]
        for m in range(0, 2048, 16):
            yield ["sets", m]
        for i in range(len(DNAMES)):
            for v in range(len(DVALS)):
                yield ["def", i, v]
        for l in range(len(LINES)):
            yield ["line", l]
        for i in range(len(NAMES)):
            yield ["name", i]
        for i in range(6):
            yield ["incl", i]
        for s in itertools.combinations("ETCLSOAD", 2):
            yield ["misc", "".join(s)]
        yield ["misc", ""]
        for o in ["", "E", "T", "L", "C", "S", "O", "A"]:
            yield ["color", o]

    def canonical(self, ctx, s, prog2, out):
        a = ["a.asm"] + ([out] if out else [])
        for x in s:
            a = OPTS[x][0] + a
        return ctx.exec(a, dict(FILES, **{"a.asm": P2 if prog2 else P1}))

    def run(self, case, ctx):
        bad = list(itertools.islice(getattr(self, "f_" + case[0])(ctx, *case[1:]), 6))
        return "\n".join(bad) or None

    def f_perm(self, ctx, s, part, parts):
        sp = [range(len(OPTS[x])) for x in s]
        prog2s = [True, False] if "I" in s or len(s) < 3 else [False]
        for prog2 in prog2s:
            for out in ("o.bin", None):
                ref = None
                for n, p in enumerate(orders(list(s) + ["in"] + (["out"] if out else []))):
                    if n % parts != part:
                        continue
                    if ref is None:
                        ref = self.canonical(ctx, s, prog2, out)
                    for c in itertools.product(*sp):
                        a = args_of(p, dict(zip(s, c)), out)
                        r = verdict(ctx, s, prog2, a, out or "a.bin", ref, ("o" if out else "a",))
                        if isinstance(r, str):
                            yield r

    def f_sets(self, ctx, m0):
        for m in range(m0, m0 + 16):
            s = "".join(x for i, x in enumerate(ORDER) if m >> i & 1)
            prog2 = "I" in s
            ref = self.canonical(ctx, s, prog2, "o.bin")
            l = list(s)
            h = len(l) // 2
            for p in (["in", "out"] + l, l + ["in", "out"], l[::-1][:h] + ["in"] + l[::-1][h:] + ["out"], l[h:] + ["in"] + l[:h] + ["out"]):
                for v in (0, 1):
                    a = args_of(p, {x: v for x in "IDM"}, "o.bin")
                    r = verdict(ctx, s, prog2, a, "o.bin", ref, ("o",))
                    if isinstance(r, str):
                        yield r

    def same(self, ctx, what, a, fa, b, fb, ren=lambda x: x, strip=False):
        """two runs must agree on status, messages and program"""
        r1, r2 = ctx.exec(a, fa), ctx.exec(b, fb)
        ctx.state((what, "r"))
        ctx.transition((what, "same"))
        ctx.traces += 1
        ctx.outcome((r1.status, len(r1.files)))
        if r1.crashed or r2.crashed:
            return "%s crashed: %s" % (what, (r1 if r1.crashed else r2).brief()[:300])
        o1, o2 = ren(norm(r1)), ren(norm(r2))
        f1, f2 = ({ren(k): v.replace(b'Listing for file "-v"', b'Listing for file "a.asm"') if k.endswith(".lst") else v
                   for k, v in r.files.items()} for r in (r1, r2))
        if r1.status != r2.status or o1 != o2 or f1 != f2:
            return "%s: %r\n%s\n--- but %r\n%s" % (what, a, r1.brief()[:500], b, r2.brief()[:500])
        return None

    def f_def(self, ctx, i, v):
        n = DNAMES[i]

        def top(defs):
            t = ""
            for nm, val in defs:
                val = val[1:] if val.startswith("=") else val
                t += "#define %s %s\n" % (nm, val if val.strip() else "1")
            return t

        def fl(src, defs, style):
            a = []
            for k, (nm, val) in enumerate(defs):
                d = nm + val
                a += ["-D" + d] if style >> k & 1 else ["-D", d]
            return a

        def ren(t):
            return re.sub(r"(?m)^(?:Commandline:0|a\.asm:[12]): ", "DEF: ", t)
        n2s = [None] + DNAMES
        for n2 in n2s:
            for v2 in range(len(DVALS)) if n2 else [0]:
                if n2 and n2.lower() == n.lower():
                    continue        # repeated definitions are examined by f_misc
                defs = [(n, DVALS[v])] + ([(n2, DVALS[v2])] if n2 else [])
                for u in ([n2] if n2 else [n]):
                    body = DSRC % {"n": u, "u": n.swapcase()}
                    for opts in ([], ["-A"]):
                        for style in range(1 << len(defs)) if n2 is None or v2 < 4 else [0]:
                            pad = "\n" * len(defs)
                            e = self.same(ctx, "defines %r" % (defs,), ["-N"] + opts + fl(0, defs, style) + ["a.asm"], {"a.asm": pad + body},
                                          ["-N"] + opts + ["a.asm"], {"a.asm": top(defs) + body}, ren)
                            if e:
                                yield e

    def f_line(self, ctx, l):
        t = LINES[l]
        files = {"g.inc": " .db $61\n", "d.bin": b"\x01\x02\x03"}

        def ren(x):
            return re.sub(r"(?m)^(-v|a)(\.asm)?(?=[:.]|$)", "IN", x)
        for o in LOPTS:
            opts = [y for x in o for y in OPTS[x][0]]
            for a in (["-N"] + opts + ["-V", t], ["-N"] + opts + ["-V" + t], ["-V", t] + opts + ["-N"], ["-N", "-V", "junk", "-V", t] + opts):
                if a[-1] == "-V" or "-V" in a and t == "" and "-V" + t in a and a[a.index("-V"):] in (["-V"],):
                    continue
                e = self.same(ctx, "line %r" % t, a, files, ["-N"] + opts + ["a.asm"], dict(files, **{"a.asm": t + "\n"}), ren)
                if e:
                    yield e

    def f_name(self, ctx, i):
        n = NAMES[i]
        for o in OUTN:
            for opts in ([], ["-T"], ["-L"], ["-T", "-L"], ["-O", "-T"], ["-O", "-L", "-T"]):
                out = o or chext(n, "bin")
                files = {n: "l1: .db 1,2,3\n", "e/k": "", "e.x/k": "", "d/k": "", "d.x/k": ""}
                if ".." in n:
                    files[clean_path(n)] = files.pop(n)
                if n.startswith("./"):
                    files[n[2:]] = files.pop(n)
                for args in (["-N"] + opts + [n] + ([o] if o else []), [n] + opts + ([o] if o else []) + ["-N"]):
                    r = ctx.exec(args, files)
                    ctx.state(("name", n, o))
                    ctx.transition(("name", n, o, tuple(opts)))
                    ctx.traces += 1
                    want = set() if "-O" in opts else {clean_path(out)}
                    if "-T" in opts:
                        want.add(clean_path(chext(out, "lst")))
                    if "-L" in opts:
                        want.add(clean_path(chext(out, "lab")))
                    ctx.outcome(tuple(sorted(want)))
                    if r.crashed or r.status != 0 or set(r.files) != want:
                        yield "%r wrote %s instead of %s: %s" % (args, sorted(r.files), sorted(want), r.brief()[:300])
                    elif "-O" not in opts and (o is None or o.endswith(".bin")) and r.files[clean_path(out)] != b"\1\2\3":
                        yield "%r: wrong bytes: %s" % (args, r.brief()[:300])

    def f_incl(self, ctx, i):
        dirs = list(itertools.permutations(["d1", "d2", "d3"]))[i]
        present = {"d1": ["p.inc", "q.inc", "r.inc"], "d2": ["q.inc", "r.inc", "s.inc"], "d3": ["r.inc", "s.inc", "t.inc"]}
        files = {"%s/%s" % (d, f): " .db $%d%d\n" % (int(d[1]), "pqrst".index(f[0])) for d in present for f in present[d]}
        for n in range(1, 4):
            use = dirs[:n]
            spellings = set()
            for sep in (";", ","):
                for cut in range(1 << (n - 1)):
                    groups, cur = [], [use[0]]
                    for k in range(1, n):
                        if cut >> (k - 1) & 1:
                            groups.append(cur)
                            cur = []
                        cur.append(use[k])
                    groups.append(cur)
                    for st in range(1 << len(groups)):
                        for slash in ("", "/"):
                            a = []
                            for g, grp in enumerate(groups):
                                t = sep.join(x + slash for x in grp)
                                a += ["-I" + t] if st >> g & 1 else ["-I", t]
                            spellings.add(tuple(a))
            for f in "pqrst":
                d = next((x for x in use if f + ".inc" in present[x]), None)
                for a in sorted(spellings):
                    for args in (["-N", *a, "a.asm"], ["a.asm", *a, "-N"], ["a.asm", "a.bin", *a, "-N"]):
                        r = ctx.exec(args, dict(files, **{"a.asm": "#include \"%s.inc\"\n" % f}))
                        ctx.state(("incl", use, f))
                        ctx.transition(("incl", use, f, a))
                        ctx.traces += 1
                        if r.crashed:
                            yield "%r crashed: %s" % (args, r.brief()[:300])
                        elif d is None:
                            if r.status == 0 or "a.bin" in r.files:
                                yield "%r: %s.inc found although none of the directories has it: %s" % (args, f, r.brief()[:300])
                        else:
                            exp = bytes([int(d[1]) * 16 + "pqrst".index(f)])
                            if r.status or r.files.get("a.bin") != exp:
                                yield "%r: %s.inc should come from %s: %s" % (args, f, d, r.brief()[:300])

    def f_misc(self, ctx, s):
        base = [OPTS[x][0] for x in s] + [["-N"]]
        files = {"a.asm": " .db 1\n"}

        def at(extra, *names):
            for p in itertools.permutations(base + [extra] + [[x] for x in names]):
                if len(names) == 2 and p.index([names[0]]) > p.index([names[1]]):
                    continue
                yield [y for x in p for y in x], p
        for h in ("-H", "-h"):
            for names in ((), ("a.asm",), ("a.asm", "o.bin")):
                for a, p in at([h], *names):
                    r = ctx.exec(a, files)
                    ctx.transition(("help", tuple(a)))
                    ctx.traces += 1
                    if r.crashed or r.status or r.files or "spasm [options]" not in r.out or any("-%s" % x not in r.out for x in "ETCLSOIADNVH"):
                        yield "%r: no help: %s" % (a, r.brief()[:300])
        for u in ("-Q", "-x", "--", "-e", "-", "-1"):
            for a, p in at([u], "a.asm", "o.bin"):
                r = ctx.exec(a, files)
                ctx.transition(("unknown", tuple(a)))
                ctx.traces += 1
                if r.crashed or r.status == 0 or r.files or "nrecognized" not in r.out:
                    yield "%r: unknown option accepted: %s" % (a, r.brief()[:300])
        for p in itertools.permutations(base):
            a = [y for x in p for y in x]
            r = ctx.exec(a, files)
            ctx.transition(("noinput", tuple(a)))
            ctx.traces += 1
            if r.crashed or r.status == 0 or r.files or "o input file" not in r.out:
                yield "%r: no input file accepted: %s" % (a, r.brief()[:300])
            for l in ("-I", "-D", "-V"):
                b = ["a.asm"] + a + [l]
                r = ctx.exec(b, files)
                ctx.transition(("incomplete", tuple(b)))
                ctx.traces += 1
                if r.crashed or "%s used without" % l not in r.out:
                    yield "%r: missing argument not reported: %s" % (b, r.brief()[:300])
                elif r.files and any(v != b"\1" for k, v in r.files.items() if k.endswith(".bin")):
                    yield "%r: wrong output: %s" % (b, r.brief()[:300])
        ctx.state(("misc", s))
        if "O" in s or "E" in s:
            return
        # repeated defines behave like repeated #define lines: last one wins, with a warning
        dvals = [v for v in DVALS if v != "=x"]     # the place blamed for a self-reference is the current line
        for v1, v2 in itertools.product(dvals, dvals):
            for n in ("x",):
                opts = [y for x in s for y in OPTS[x][0]]
                e = self.same(ctx, "x defined twice", ["-N"] + opts + ["-Dx" + v1, "-D", "x" + v2, "b.asm"], {"b.asm": "\n\n .dw x\n .db x\nother = 5\n"},
                              ["-N"] + opts + ["b.asm"], {"b.asm": "".join("#define x %s\n" % (v[1:] if v[1:].strip() else "1") for v in (v1, v2)) + " .dw x\n .db x\nother = 5\n"},
                              lambda t: re.sub(r"(?m)^(?:Commandline:0|b\.asm:[12]): ", "DEF: ", t)) if "T" not in s and "L" not in s and "S" not in s else None
                if e:
                    yield e

    def f_color(self, ctx, o):
        progs = [P1, " bogus\n", " .db q\n", " .echo \"t\"\n", " .warn \"w\"\n", " .error \"e\"\n", "#include \"none\"\n", " ld b,300\n", "x = 1\nx = 2\n", "#if 1\n", " .db 1\n", "l1:\nl1:\n", "#macro m()\n bogus\n#endmacro\n m()\n"]
        opts = [y for x in o for y in OPTS[x][0]]
        for p in progs:
            f = {"a.asm": p}
            r1 = ctx.exec(opts + ["a.asm"], f)
            r2 = ctx.exec(["-N"] + opts + ["a.asm"], f)
            r3 = ctx.exec(["a.asm"] + opts + ["-N"], f)
            ctx.state(("color", o, p))
            ctx.traces += 3
            ctx.transition(("color", o, p))
            if "\x1b" in r2.out or "\x1b" in r3.out:
                yield "escape sequences in spite of -N: %r %r" % (r2.out, r3.out)
            if (bare(r1), r1.status, r1.files) != (norm(r2), r2.status, r2.files) or (norm(r2), r2.status, r2.files) != (norm(r3), r3.status, r3.files):
                yield "-N changes more than colours: %s\n---\n%s\n---\n%s" % (r1.brief()[:300], r2.brief()[:300], r3.brief()[:300])


CHECK = Options()
