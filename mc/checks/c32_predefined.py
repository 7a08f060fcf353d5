"""C32: histories of .option/#define/#undef/#macro with .show and values as probes against a model of the definitions in force; __LINE and __FILE in every kind of text at every kind of place; .end anywhere.

show : all histories up to length 3 (4) over two names of definitions, options, macros, continuations, removals and .show (before, between and after)
opt  : all lists of one and two (three) options in all spellings, the values and texts of the definitions they make
line : every kind of text that holds __LINE x every kind of place it is used at x where the text is written x known / deferred
file : the same for __FILE
pre  : the predefined names under every combination of the options, and redefined
end  : .end at every place of every program changes nothing
"""
import itertools, re
from .. import core
from ..lib import clean, diags, le

# show: steps on a name; (source, definition: (args, text) / None removed / False no change)
D = [
    ("#define {n} 5", ("", " 5")), ("#define {n}", ("", "1")), ("#define {n}(a,bC) bC+a", ("(a, bC)", " bC+a")), ("#define {n} \"a;b\" ; c", ("", ' "a;b" ')), ("#define {n} eval(1+4+4)", ("", "$9")),
    ("#macro {n}(q)\n ld a,q\n nop ; x\n#endmacro", ("(q)", "ld a,q\n nop ; x")), ("#macro {n}\n inc a\n#endmacro", ("", "inc a")), ("#undef {n}", None), (" .option {n}=7+1", ("", "7+1")), (" .option {n}", ("", "1")),
    (" .show {n}", "show"), (" .show {N} ; c", "show"), (" .show {n} \\ nop", "show"), ("#define {n} 1\n#defcont +2\n#defcont +x", ("", " 1 +2 +x")), ("#ifndef {n}\n#define {n} 6\n#endif", "ifn"), ("#ifdef {n}\n nop\n#endif", "ifd"),
    ("#if 0\n#define {n} 66\n .show {n}\n#endif", False),
]
OV = [("=5", "5", 5), ("=1+1", "1+1", 2), ("", "1", 1), (" = 9", "9", 9), ("=", "1", 1), ("=(1+2)*3", "(1+2)*3", 9), ("=$1F", "$1F", 31), ("=%11", "%11", 3), ("='a'", "'a'", 97), ("=\"x\"", '"x"', 120), ("=','", "','", 44),
      ("=\"\"", '""', None), ("=\"a,b=c;\"", '"a,b=c;"', b"a,b=c;"), ("=-1", "-1", 255), ("=K", "K", 77), ("=fw", "fw", 0x34), ("=F(3)", "F(3)", 6), ("=F(1)+F(2)", "F(1)+F(2)", 6), ("=__z", "__z", 3), ("=7==7", "7==7", 1), ("=0", "0", 0)]
ON = ["o", "o1", "lo_ng_Name", "A", "zZ"]
OSEP = [",", ", ", " , "]

SYMS = {"SPASM": 1, "SPASMVER": 2, "TRUE": 1, "FALSE": 0, "__BM_SHD": 2, "__BM_MSK_RGB": 0xFF00}


class Names(core.Check):
    id = "C32"
    level = "exploration"
    rule = ("all histories of %d kinds of definitions, removals and .show of two names; all lists of options in %d spellings; __LINE and __FILE in every kind of text x place x deferred; predefined names x options; .end at every place; against a model of the "
            "definitions in force") % (len(D), len(OV))
    assumptions = ["a definition not known yet when .show is read is shown at the end, as it is then", "the order of such texts among the others is not promised", "__LINE and __FILE in a macro that stands for a list of values, and __FILE in a define, are not specified"]

    def cases(self, tier):
        th = tier == "thorough"
        n = len(D)
        for L in (1, 2, 3):
            for h in itertools.product(range(n), repeat=L):
                if any(D[k][1] == "show" for k in h):
                    yield {"g": "show", "h": list(h), "A": sum(h) % 2}
                if th and L > 1 or L == 2:
                    for w in range(1, 1 << L):
                        yield {"g": "show", "h": list(h), "A": sum(h) % 2, "w": w}
        if th:
            for h in itertools.product(range(n), repeat=4):
                if any(D[k][1] == "show" for k in h):
                    yield {"g": "show", "h": list(h), "A": sum(h) % 2}
        nv, k = len(OV), 0
        for L in (1, 2, 3) if th else (1, 2):
            for v in itertools.product(range(nv), repeat=L):
                for nm in ([0, 1, 2], [3, 2, 3], [4, 0, 1]) if L < 3 else ([0, 1, 2],):
                    k += 1
                    yield {"g": "opt", "v": list(v), "n": nm[:L], "s": k % 3, "e": k // 3 % 4, "A": k // 5 % 2}
        for kind in range(len(KINDS)):
            for place in range(len(PLACES)):
                if KINDS[kind] == "equ" and "macro" in PLACES[place][-5:]:
                    continue            # the label would be defined twice
                for where in range(3):
                    for late in (0, 1):
                        for eol in range(3) if th else [(kind + place + where + late) % 3]:
                            yield {"g": "line", "k": kind, "p": place, "w": where, "late": late, "eol": eol}
                            if not late and KINDS[kind] in FKINDS:
                                yield {"g": "file", "k": kind, "p": place, "w": where, "late": late, "eol": eol}
        for o in itertools.product((0, 1), repeat=4):
            for m in range(len(SYMS) + 2):
                yield {"g": "pre", "o": list(o), "m": m}
        for p in range(len(PROGS)):
            for f in range(len(ENDS)):
                for i in range(PROGS[p].count("\n") + 1):
                    yield {"g": "end", "p": p, "f": f, "i": i}

    def run(self, c, ctx):
        return getattr(self, "g_" + c["g"])(c, ctx)

    # definitions in force
    def g_show(self, c, ctx):
        names = ["__nam", "__Two"]
        w = c.get("w", 0)
        defs, now, late, src, unknown = {}, [], [], [], []
        nops = 0
        for i, k in enumerate(c["h"]):
            j = w >> i & 1
            n = names[j]
            t, d = D[k]
            if ".option" in t:
                t = t.replace("{n}", n[2:])
            key = n if c["A"] else n.upper()
            src.append(t.replace("{n}", n).replace("{N}", n if c["A"] else n.swapcase()))
            nops += t.endswith("\\ nop")
            if d == "show":
                if key in defs:
                    now.append(key + defs[key][0] + ": " + defs[key][1])
                else:
                    late.append((key, sum(s.count("\n") + 1 for s in src)))
            elif d == "ifn":
                defs.setdefault(key, ("", " 6"))
            elif d == "ifd":
                nops += key in defs
            elif d is None:
                defs.pop(key, None)
            elif d:
                defs[key] = d
            ctx.state("show", tuple(sorted(defs.items())), len(late))
            ctx.transition("show", k, j, tuple(sorted(defs.items())))
        src = "\n".join(src) + "\n"
        want = [k + defs[k][0] + ": " + defs[k][1] for k, l in late if k in defs]
        bad = [l for k, l in late if k not in defs]
        r = ctx.asm(src, *(["-A"] if c["A"] else []))
        ctx.outcome("show", len(now), len(want), len(bad))
        if r.crashed:
            return "%r: %s" % (src, r.brief())
        if [d[1] for d in diags(r) if d[2] == "error"] != bad or len(diags(r)) != len(bad):
            return "%r: names not defined are shown in lines %s; reported: %s" % (src, bad, diags(r))
        if not bad and r.status or bad and not r.status:
            return "%r: exit status %d" % (src, r.status)
        text = "\n".join(l for l in r.out.replace("\r", "").split("\n") if not l.startswith(("Pass ", "a.asm:", "Assembly time")) and l.strip())
        if not merges(norm(text), [norm(x) for x in now], [norm(x) for x in want]):
            return "%r: .show must print %s then (at the end) %s; printed %r" % (src, now, want, text)
        got = r.files.get("a.bin")
        if got != bytes(nops):
            return "%r: output is %s, not %d zeros" % (src, got, nops)

    # options
    def g_opt(self, c, ctx):
        up = (lambda x: x) if c["A"] else str.upper
        names = [ON[k] for k in c["n"]]
        vals = [OV[k] for k in c["v"]]
        sep = OSEP[c["s"]]
        line = " .option " + sep.join(n + v[0] for n, v in zip(names, vals)) + ["", " ; c,d=5", " \\ nop", "\t"][c["e"]]
        last = {}
        for n, v in zip(names, vals):
            last[up(n)] = (n, v)
        src = "#define K 77\n#define F(x) x*2\n .option z=3\n" + line + "\n"
        exp, show = b"", []
        if c["e"] == 2:
            exp += b"\0"
        for u, (n, v) in last.items():
            src += "#ifdef __%s\n .db $EE\n#endif\n .show __%s\n" % (n, n)
            exp += b"\xee"
            show.append("%s: %s" % (up("__" + n), v[1]))
            if isinstance(v[2], int):
                src += " .db __%s\n .dw (__%s)+256\n" % (n, n) if v[1] != '"x"' else " .db __%s\n" % n
                full = -1 if v[1] == "-1" else v[2]
                exp += bytes([v[2]])
                if v[1] != '"x"':
                    exp += le(full + 256, 2)
            elif v[2]:
                src += " .db __%s\n" % n
                exp += v[2]
        src += "fw = $34\n"
        r = ctx.asm(src, *(["-A"] if c["A"] else []))
        ctx.state("opt", tuple(sorted((u, v[1]) for u, (n, v) in last.items())))
        ctx.outcome("opt", len(last))
        if not clean(r) or r.files.get("a.bin") != exp:
            return "%r: must give %s; gives %s %s" % (src, exp.hex(" "), (r.files.get("a.bin") or b"").hex(" "), r.brief()[:300])
        got = [l for l in r.out.split("\n") if ": " in l and not l.startswith("Assembly time")]
        if [norm(l) for l in got] != show:
            return "%r: .show must print %s; printed %s" % (src, show, got)

    # place of the text
    def g_line(self, c, ctx):
        b = Prog(c, "line")
        r = ctx.asm(b.src, files=b.files)
        ctx.state("line", b.src)
        ctx.outcome("line", tuple(b.exp))
        exp = b"".join(b.exp)
        if not clean(r) or r.files.get("a.bin") != exp:
            return "%r %r: __LINE must give %s; gives %s %s" % (b.src, {f: t for f, t in b.files.items() if f.endswith("inc")}, exp.hex(" "), (r.files.get("a.bin") or b"").hex(" "), r.brief()[:300])

    def g_file(self, c, ctx):
        b = Prog(c, "file")
        r = ctx.asm(b.src, files=b.files)
        ctx.outcome("file", tuple(b.exp))
        exp = b"".join(b.exp)
        if not clean(r) or re.sub(rb"/dev/shm/mc\.\w{8}/", b"", r.files.get("a.bin") or b"") != exp:
            return "%r %r: __FILE must give %s; gives %s %s" % (b.src, {f: t for f, t in b.files.items() if f.endswith("inc")}, exp, r.files.get("a.bin"), r.brief()[:300])

    def g_pre(self, c, ctx):
        opts = [f for f, on in zip(["-A", "-E", "-T", "-L"], c["o"]) if on]
        names = list(SYMS)
        src, exp = "", b""
        if c["m"] < len(names):                 # a name redefined: the new text from then on
            n = names[c["m"]]
            src = " .dl %s\n#define %s 5+%s\n .dl %s\n#undef %s\n#ifdef %s\n .db 1\n#endif\n#define %s 9\n .dl %s\n" % ((n,) * 8)
            # a redefinition stands for the former text
            exp = le(SYMS[n], 3) + (le(5 + SYMS[n], 3) if n != "__BM_MSK_RGB" else le(5 + 0xFF00, 3)) + le(9, 3)
        elif c["m"] == len(names):
            src = "".join(" .dl %s\n" % n for n in names) + "".join("#ifndef %s\n .db 1\n#endif\n" % n for n in names + ["__LINE", "__FILE", "RGB"])
            exp = b"".join(le(v, 3) for v in SYMS.values())
        else:
            src = " .dl RGB(1,2,3),RGB(0,255,0),RGB(fw,0,0)\nfw = 5\n .dl __LINE,__LINE+1\n"
            exp = le(0x10203, 3) + le(0xFF00, 3) + le(0x50000, 3) + le(3, 3) + le(4, 3)
        r = ctx.asm(src, *opts)
        ctx.outcome("pre", c["m"])
        got = r.files.get("a.bin")
        if not clean(r) or got != exp:
            return "%r with %s: must give %s; gives %s %s" % (src, opts, exp.hex(" "), (got or b"").hex(" "), r.brief()[:300])

    def g_end(self, c, ctx):
        L = PROGS[c["p"]].split("\n")
        e = ENDS[c["f"]]
        ref = list(L)
        if "9" in e:
            ref.insert(c["i"], " .db 9 \\ nop" if "nop" in e else " .db 9")
        a = ctx.asm("\n".join(ref), files=FILES)
        inst = list(L)
        inst.insert(c["i"], e)
        b = ctx.asm("\n".join(inst), files=FILES)
        ctx.outcome("end", c["p"])
        if not clean(a) or not clean(b) or a.files["a.bin"] != b.files.get("a.bin"):
            return "%r: .end must change nothing: %s without, %s with; %s" % ("\n".join(inst), a.files.get("a.bin"), b.files.get("a.bin"), b.brief()[:300])


def norm(t):
    """blanks at the ends of a text don't matter"""
    return re.sub(r"(?m)^(\w+(?:\(.*?\))?:) +", r"\1 ", re.sub(r"(?m)[ \t]+$", "", t))


def merges(text, a, b):
    """is text the lines of a, in order, and of b, in order, mixed?"""
    seen = set()

    def go(t, i, j):
        if (t, i, j) in seen:
            return False
        seen.add((t, i, j))
        if not t.strip():
            return i == len(a) and j == len(b)
        for l, ni, nj in [(l, i + 1, j) for l in a[i:i + 1]] + [(l, i, j + 1) for l in b[j:j + 1]]:
            if t.startswith(l):
                rest = t[len(l):]
                if rest[:1] in ("", "\n") and go(rest[1:], ni, nj):
                    return True
        return False
    return go(text, 0, 0)


KINDS = ["direct", "define", "func", "funcarg", "mix", "value", "stmt", "stmtarg", "nested", "equ", "option", "cond", "fill", "redef", "eval", "instr", "two", "passon", "strdef"]
FKINDS = ["direct", "stmt", "stmtarg", "funcarg", "nested", "passon", "two", "mix"]
PLACES = ["top", "after_string", "after_skipped", "include", "macro", "ifmacro", "run", "backslash", "comment", "after_include", "else", "after_macro", "incmacro", "sameline", "ininclude2"]
FILES = {"e.inc": " nop\n\n nop\n", "d.bin": b"xyz"}
PROGS = [" nop\n ld a,5\nx: .db 1,2\n jr x\n", "#define q 5\n#if q == 5\n .db q\n#else\n .db 6\n#endif\n .dw $", "#macro m(a)\n .db a\n#endmacro\n m(1)\n m(fw)\nfw = 7\n", "#include \"e.inc\"\n .db 1\n#import \"d.bin\"\n .org 100\n .dw $", "_ nop\n jr -_\n .block 3\n .db \"a\"\n"]
ENDS = [".end", " .end", " .END", " .end ; c", " .end start", " .end \"x\" ; y", "\t.end\t", " .end 5,6", " .end \\ .db 9", " .end start \\ .db 9 ; c", " .end \"a;\\\\b\" \\ .db 9", " .db 9 \\ .end", " .db 9 \\ .end x \\ nop \\ .end"]


class Prog:
    """a program in which a text with __LINE (or __FILE) is written and used, with what it must give"""

    def __init__(self, c, what):
        self.what, self.exp, self.files = what, [], dict(FILES)
        kind, place, where, self.late = KINDS[c["k"]], PLACES[c["p"]], c["w"], c["late"]
        self.eol = ["\n", "\r\n", "\n"][c["eol"]]
        self.cur, self.out = "a.asm", {"a.asm": []}
        # where the texts are written: 0 before in the same file, 1 in another file, 2 after (0 where that makes no sense)
        if where == 2 and (kind in ("stmt", "stmtarg", "nested", "passon", "option", "cond", "fill", "redef", "eval", "equ", "direct", "two", "funcarg") or what == "file" or place in ("macro", "ifmacro", "incmacro", "run")):
            where = 0
        if where == 0:
            self.lines("", "; pad")
            self.defs(kind)
        elif where == 1:
            self.sub("def.inc", lambda: (self.lines("", "", ""), self.defs(kind)))
        use = lambda pre=" ": self.use(kind, pre)
        if place == "top":
            use()
        elif place == "after_string":
            self.lines(" .fill 0")
            self.string()
            use()
        elif place == "after_skipped":
            self.lines("#if 0", " foo", "#if 1", "#endif", "#else", "#endif")
            use()
        elif place == "include":
            self.sub("use.inc", lambda: (self.lines("", "; x"), use()))
        elif place == "ininclude2":
            self.sub("u1.inc", lambda: (self.lines(""), self.sub("u2.inc", lambda: (self.lines("", ""), use())), use()))
            use()
        elif place in ("macro", "ifmacro", "incmacro"):
            body = lambda: (self.lines("#macro um(z)", " .fill 0", "#if z", "; x") if place == "ifmacro" else self.lines("#macro um(z)", " .fill 0"), use(), self.lines("#else", "#endif", "#endmacro") if place == "ifmacro" else self.lines("#endmacro"))
            if place == "incmacro":
                self.sub("um.inc", lambda: (self.lines("", ""), body()))
            else:
                body()
            n = list(self.exp)
            self.lines("", " um(1)", " um(1)")
            self.exp = n + n
        elif place == "run":
            self.lines("")
            self.inrun(kind)
        elif place == "backslash":
            use(" .fill 0 \\ ")
            use(" .fill 0 \\ .fill 0 \\ ")
        elif place == "comment":
            self.lines("#comment", " foo", "", "#endcomment")
            use()
        elif place == "after_include":
            self.sub("e0.inc", lambda: self.lines(" .fill 0", "", "", ""))
            use()
        elif place == "else":
            self.lines("#if 0", "#elif 0", " foo", "#else")
            use()
            self.lines("#endif")
            use()
        elif place == "after_macro":
            self.lines("#macro am", "", " .fill 0", "", "#endmacro", " am()", " am()")
            use()
        elif place == "sameline":
            self.lines("lbl: .fill 0")
            use("lb2: .fill 0\\ ")
        if where == 2:
            self.lines("")
            self.defs(kind)
        self.lines("fw = 0")
        val = lambda v: val(v()) if callable(v) else le(v, 2) if isinstance(v, int) else v.encode() if isinstance(v, str) else v
        self.exp = [val(v) for v in self.exp]
        for f, l in self.out.items():
            if f == "a.asm":
                self.src = self.eol.join(l) + self.eol
            else:
                self.files[f] = self.eol.join(l) + self.eol

    def lines(self, *t):
        self.out[self.cur] += t

    def n(self):
        """the line about to be written, as it must be seen"""
        return len(self.out[self.cur]) + 1 if self.what == "line" else self.cur

    def sub(self, f, fn):
        self.lines("#include \"%s\"" % f)
        old, self.cur = self.cur, f
        self.out[f] = []
        fn()
        self.cur = old

    def string(self):
        # a string over three lines that is written nowhere
        self.lines("#if 0", " .db \"a", "b", "c\"", "#endif", " .echo > \"t.txt\" \"p", "", "q\"")

    def defs(self, kind):
        X = "__LINE" if self.what == "line" else "__FILE"
        fw = "+fw" if self.late else ""
        p = self.n
        self.d = None
        if kind in ("define", "instr"):
            self.d = p()
            self.lines("#define q " + X)
        elif kind == "strdef":
            self.d = p()
            self.lines("#define q" + "0 " + X, "", "#define q q0")
        elif kind == "func":
            self.d = p()
            self.lines("#define q(a) " + X if self.what == "file" else "#define q(a) (a)+" + X)
        elif kind in ("funcarg", "two"):
            self.lines("#define q(a) a", "", "#define q2(b) q(b)")
        elif kind == "mix":
            self.d = p()
            self.lines("#define q(a) (a)+(" + X + "*256)" if self.what == "line" else "#define q(a) a")
        elif kind == "value":
            self.lines("#macro q(a)", "#if 0", " 5", "#else", "")
            self.d = p()
            self.lines(" (a)+(" + X + "*256)" if self.what == "line" else " " + X, "#endif", "#endmacro")
        elif kind in ("stmt", "nested", "passon"):
            self.lines("#macro q(a)", " .fill 0", "")
            self.d = p()
            self.lines(" .dw (a)+(" + X + "*256)" + fw if self.what == "line" else " .db a," + X, "#endmacro")
            if kind in ("nested", "passon"):
                self.lines("", "#macro q3(b)", "")
                self.d2 = p()
                self.lines(" q(%s)" % (X if kind == "nested" else "b"), "#endmacro")
        elif kind == "stmtarg":
            self.lines("#macro q(a)", "", " .dw a" if self.what == "line" else " .db a", "", "#endmacro")
        elif kind == "option":
            self.d = p()
            self.lines(" .option qq=" + X)
        elif kind == "redef":
            self.lines("#define q 1", "")
            self.d = p()
            self.lines("#define q " + X)
        elif kind == "eval":
            self.d = p()
            self.lines("#define q eval(" + X + "*2)")

    def use(self, kind, pre=" ", rn=None):
        X = "__LINE" if self.what == "line" else "__FILE"
        dw = ".dw " if self.what == "line" else ".db "
        fw = "+fw" if self.late else ""
        if pre != " " and kind in ("cond", "equ"):
            pre = " "
        at = self.n() if rn is None else rn
        w = lambda t: self.lines(pre + t)
        e = self.exp.append
        L = self.what == "line"
        if kind == "direct":
            w(dw + X + fw); e(at)
        elif kind in ("define", "redef", "strdef"):
            w(dw + "q" + fw); e(lambda: self.d)
        elif kind == "instr":
            w("ld hl,q" + fw); e(lambda: b"\x21" + le(self.d, 2))
        elif kind == "option":
            w(dw + "__qq" + fw); e(lambda: self.d)
        elif kind == "eval":
            w(dw + "q" + fw); e(lambda: self.d * 2)
        elif kind == "func":
            w(dw + "q(%s)" % (X + fw)); e(lambda: self.d + at if L else self.d)
        elif kind == "funcarg":
            w(dw + "q2(%s)" % (X + fw)); e(at)
        elif kind == "two":
            w(dw + "q(%s),q2(%s),%s" % (X + fw, X, X + fw)); e(at); e(at); e(at)
        elif kind in ("mix", "value"):
            if L:
                w(dw + "q(%s)" % (X + fw)); e(lambda: at + 256 * self.d)
            else:
                w(dw + "q(%s)" % X); e(lambda: at if kind == "mix" else self.d)
        elif kind == "stmt":
            w("q(%s)" % (X + fw))
            if L: e(lambda: at + 256 * self.d)
            else: e(at); e(lambda: self.d)
        elif kind == "stmtarg":
            w("q(%s)" % (X + fw)); e(at)
        elif kind == "nested":
            w("q3(1)")
            if L: e(lambda: self.d2 + 256 * self.d)
            else: e(lambda: self.d2); e(lambda: self.d)
        elif kind == "passon":
            w("q3(%s)" % (X + fw))
            if L: e(lambda: at + 256 * self.d)
            else: e(at); e(lambda: self.d)
        elif kind == "equ":
            self.lines("eq%d = %s" % (len(self.exp), X), "", " .dw eq%d%s" % (len(self.exp), fw)); e(at)
        elif kind == "cond":
            self.lines("#if %s == %d" % (X, at), " .dw 1" + fw, "#else", " .dw 2", "#endif"); e(1)
        elif kind == "fill":
            w(".fill %s-%s,5" % (X, at - 4)); e(0x0505); e(0x0505)
        else:
            raise ValueError(kind)

    def inrun(self, kind):
        # lines of generated code count from the first one written
        save, self.cur = self.cur, "Built-in fcreate"
        self.out[self.cur] = [" .fill 0"]
        self.use(kind)
        gen = self.out.pop(self.cur)
        self.cur = save
        for l in gen:
            self.lines(" wr(\"%s\")" % l.replace("\\", "\\\\").replace('"', '\\"'))
        self.lines(" run()")


CHECK = Names()
