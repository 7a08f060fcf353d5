"""C13: every assignment of spellings to the occurrences of a name; oracle: the same program with the spellings made equal or distinct."""
import itertools, re
from .. import core, ez80, z80
from ..lib import clean, diags

SP = [str.lower, str.upper, str.title]
OTHER = ["foo", "qux", "zap"]
BASES = ["foo", "a.b", "_x1", "c[1]", "q!z", "e?", "zz_9", "x"]
T = [
    "{0}: nop\n .dw {1}\n jp {2}\n", " .dw {0}\n jp {1}\n{2} = 5\n", "{0} = 5\n{1} = 6\n .dw {2},{3}\n", "{0} .equ 5\n#ifdef {1}\n .db 1\n#else\n .db 2\n#endif\n#ifndef {2}\n .db 3\n#endif\n",
    "#define {0} 5\n .dw {1}\n#ifdef {2}\n .db 1\n#endif\n#undef {3}\n#ifdef {4}\n .db 2\n#endif\n", "#define {0} 5\n#define {1} 6+{2}\n .dw {3},{4}\n", "#define {0} 5\n#define {1} 6\n#define {2} 7\n .db {0},{1},{2}\n",
    "#define {0}(x) x+1\n .dw {1}(2)\n .dw {2}(later)\n#undef {3}\n#ifdef {4}\n .db 1\n#endif\nlater = 7\n", "#macro {0}(x)\n .db x\n#endmacro\n {1}(1)\n {2}(2)\n#undefine {3}\n {4}(3)\n",
    "#macro m({0})\n .db {1}\n#ifdef {2}\n nop\n#endif\n#endmacro\n m(3)\n .db 9\n", "#define f({0},y) {1}+y\n .db f(1,2)\n", "#define f({0},{1}) {2}-{3}\n .db f(1,2)\n",
    "{0} = 4\n#macro m({1})\n .db {2}\n#endmacro\n m(1)\n .db {3}\n", "#define {0} 3\n#macro m(x)\n#define {1} 4\n .db {2}\n#endmacro\n m(1)\n .db {3}\n",
    "{0} = 4\n#define q eval({1}+1)\n .db q\n#define r concat({2},1)\n .db r\n", "#define {0} 4\n#define q eval({1}+1)\n .db q\n#define r concat(\"{2}\",\"+1\")\n .db r\n",
    "#define {0} 1\n#defcont +2\n#define {1} 5\n#defcont +3\n .db {2},{3}\n", "#define {0} 1\n#defcont +{1}2\n#define {2}2 9\n .db {3}\n", "#define q {0}\n{1} = 8\n .db q\n .db q+{2}\n",
    " .option {0}=3\n .db __{1}\n#ifdef __{2}\n nop\n#endif\n", "{0}: nop\n .org $80\n{1}: nop\n .dw {2},{3}\n", "#macro {0}()\n nop\n#endmacro\n#macro {1}()\n .db 5\n#endmacro\n {2}()\n {3}()\n",
    " wr(\"{0}: .db 5\")\n run()\n .db {1}\n jp {2}\n", "#macro m({0})\n .db {1}\n n({2})\n#endmacro\n#macro n({3})\n .db {4}\n#endmacro\n m(5)\n", "#ifdef {0}\n .db 1\n#else\n .db 2\n#endif\n{1}: nop\n#ifdef {2}\n .db 3\n#endif\n",
    "#define {0} 5\n .echo {1}\n .show {2}\n", "{0} = 7\n .echo {1}+{2}\n", "#define {0}\n#ifdef {1}\n nop\n#endif\n#define {2} {3}\n .db {4}\n", "#define {0} {1}\n .db {2}\n#define {3} 6\n .db {4}\n",
    " .dw {0}+{1}\n jr {2}\n{3}: nop\n{4} = 1\n", " #include \"{0}.inc\"\n nop\n", "#define {0} \"ab\"\n .db {1},{2}\n", "#if {0}=1\n nop\n#else\n .db 2\n#endif\n{1} = 1\n#if {2}=1\n .db 3\n#elif {3}=1\n .db 4\n#endif\n",
    "#macro m({0})\n#define {1} 2\n .db {2}\n#endmacro\n m(1)\n#ifdef {3}\n .db 7\n#endif\n", " bit {0},a\n ld (ix+{1}),{2}\n rst {3}\n{4} = 0\n", "{0}\n .dw {1}\n{2}:\n .dw {3}\n", "#define u({0}) {1}*2\n .dw u(3)\n .dw u(later)\nlater = 4\n{2} = 1\n .db {3}\n",
]
OPT = [(["-D{0}=5"], " .db {1}\n#ifdef {2}\n nop\n#endif\n"), (["-D", "{0}"], " .db {1}\n#undef {2}\n#ifdef {3}\n nop\n#endif\n"), (["-D{0}=5", "-D{1}=6"], " .db {2},{3}\n"), (["-D{0}=5"], "#define {1} 8\n .db {2}\n .db {3}\n"),
       (["-D{0}={1}+1"], "{2} = 3\n .db {3}\n")]
# keywords: (program, bytes) without any user symbol but s (kept in one spelling)
KW = [(" .db $ab,0ABh,0fh,%11,1010b,12d,'a'\n", "abab0f030a0c61"), ("#define s 3\n#ifdef s\n .db 1\n#else\n .db 2\n#endif\n#ifndef s\n nop\n#endif\n", "01"), ("#if 0\n nop\n#elif 1\n .db 5\n#else\n .db 2\n#endif\n", "05"),
      ("#macro s(p)\n .db p\n#endmacro\n s(4)\n#undef s\n#undefine s\n#define p eval(2+3)\n .dw p\n#define q concat(1,2)\n .db q\n", "0405000c"), (" .org $10\n .dw $\n .fill 2,3\n .block 1\n .seek $+1\n .byte 7\n .word 8\n .long 9\n .dl 1\n", "1000030300" + "00" + "07" "0800" "090000" "010000"),
      (" wr(\" .db 5\")\n run()\n buf(2)\n wr(\" .db 6\")\n clr()\n buf(0)\n", "05"), ("#define q 1\n#defcont +2\n .db q\n#comment\n nop\n#endcomment\n#region s\n nop\n#endregion\n", "0300"), ("s .equ 5\n .list\n .nolist\n .option t=4\n .db s,__t\n", "0504"),
      (" .addinstr xy a 77 1 nop 1\n xy a\n .addinstr ld a,* 7600 3 nop 1\n", "77"), (" jr nz,$\n jp pe,$1234\n ld a,(ix+5)\n ld (iy-5),ixl\n" .replace("ld (iy-5),ixl", "ld iyh,5") + " ex af,af'\n push af\n in a,(c)\n", "20feea3412dd7e05fd260508f5ed78"),
      (" .db '\\n','\\t','\\r','a'\n .db \"\\n\\t\"\n", "0a090d610a09"), (" .show s\n#define s 5\n .echo \"x\"\n .end\n .db s\n", None), (" .error \"x\"\n", None), (" #import \"i.bin\"\n #include \"k.inc\"\n", "494a00")]
KWEZ = [(" .assume adl=0\n ld hl,5\n ld.lil hl,5\n ld.sis hl,5\n .assume adl=1\n ld.s hl,(hl)\n lea ix,iy+3\n rst.l $8\n mlt bc\n", None), (" ld.is hl,5\n ld.il hl,5\n call.sil 5\n jp.lis 5\n", None)]
# programs with long names: {a} and {b} differ in the last letter, {A} is {a} in some case; lines after ;cs only with -A, {{x}} and {{y}} differ from {a} in case only
LONG = [("{a} = 1\n{b} = 2\n;cs {{x}} = 3\n;cs {{y}} = 4\n .db {A}\n .db {B}\n ld a,{A}\n;cs .db {{x}}\n;cs .db {{y}}\n", ("01023e01", "01023e010304")),
        (" .db {A}\n .db {B}\n ld a,{A}\n;cs .db {{x}}\n;cs .db {{y}}\n{a} = 1\n{b} = 2\n;cs {{x}} = 3\n;cs {{y}} = 4\n", ("01023e01", "01023e010304")),
        ("#define {a} 1\n#define {b} 2\n;cs #define {{x}} 3\n .db {A}\n .db {B}\n#undef {A}\n#ifdef {a}\n .db 8\n#endif\n#ifdef {b}\n .db 9\n#endif\n;cs .db {{x}}\n", ("010209", "01020903")),
        ("#macro {a}()\n .db 1\n#endmacro\n#macro {b}()\n .db 2\n#endmacro\n;cs #macro {{x}}()\n;cs .db 3\n;cs #endmacro\n {A}()\n {B}()\n {A}\n;cs  {{x}}()\n", ("010201", "01020103")),
        ("#macro m({a},{b})\n .db {A}\n .db {B}\n#endmacro\n m(1,2)\n#define f({a},{b}) {B}*3+{A}\n .db f(1,2)\n", ("010207", "010207")),
        ("nop\n{a}:\n .db 1\n{b}\n .db 2\n ld hl,{A}\n ld hl,{B}\n jr {A}\n" .replace("nop", " nop", 1), ("00010221010021020018f6", "00010221010021020018f6")),
        ("#define {a}(x) x+1\n#define {b}(x) x+2\n .db {A}(5)\n .db {B}(5)\n", ("0607", "0607"))]


def alt(s, k):
    """letter case pattern k of a text; strings, character literals and user symbols s/t/p/q/x stay"""
    out, n, i = "", 0, 0
    keep = False
    for tok in re.findall(r'"(?:\\.|[^"\\])*"|\'(?:\\.|.)\'|af\'|[A-Za-z_][A-Za-z0-9_]*|.', s, re.S):
        if tok[0] in "\"'" or tok.lower() in ("s", "p", "q", "t", "__t"):
            out += tok
            continue
        for ch in tok:
            n += ch.isalpha()
            out += ch.upper() if k == 1 or (k == 2 and n & 1) or (k == 3 and not n & 1) or (k == 4 and ch == tok[0]) else ch.lower()
    return out


def norm(t, names, repl=None):
    for a in sorted(names, key=len, reverse=True):
        t = re.sub(r"(?<![\w.\[])" + re.escape(a) + r"(?![\w\]])", "NAME", t, flags=re.I)
    return t


class Case(core.Check):
    id = "C13"
    level = "exploration"
    rule = ("every assignment of 3 spellings to the (up to 5) occurrences of a name in programs covering every definition and use kind, x option -A (in every position) or not, x names of several shapes: without -A the result "
            "must be that of the program with one spelling, with -A that of the program in which every spelling is a name of its own; every instruction form (Z80 and eZ80 with suffixes) and every keyword in 5 letter-case patterns, both modes; "
            "names of 2 to 240 letters that differ in the last one only, in every kind of definition and use")
    assumptions = ["renaming a symbol to a fresh name does not change the output (its own mode of failure would be reported by other checks)"]

    def cases(self, tier):
        for a in range(len(KW)):
            yield {"g": "kw", "i": a}
        for a in range(len(KWEZ)):
            yield {"g": "kwez", "i": a}
        for n in list(range(2, 70)) + [100, 120, 127, 128, 129, 200, 240]:
            for p in range(len(LONG)):
                yield {"g": "long", "n": n, "p": p}
        for i in range(0, len(z80.FORMS), 10):
            yield {"g": "z80", "i": i}
        for i in range(0, len(ez80.FORMS), 10):
            yield {"g": "ez80", "i": i}
        for n in ("SPASM", "TRUE", "FALSE", "SPASMVER", "__LINE"):
            yield {"g": "builtin", "n": n}
        for b in range(len(BASES)):
            if tier != "thorough" and b > 2:
                ts = range(b % 5, len(T), 5)
            else:
                ts = range(len(T))
            for t in ts:
                if BASES[b][0] == "_" and ".option" in T[t]:
                    continue    # an option name begins with a letter
                k = len(set(re.findall(r"\{(\d)\}", T[t])))
                for s in itertools.product(range(3 if b == 0 or tier == "thorough" else 2), repeat=k):
                    yield {"g": "t", "t": t, "s": s, "b": b}
        for t in range(len(OPT)):
            k = len(set(re.findall(r"\{(\d)\}", " ".join(OPT[t][0]) + OPT[t][1])))
            for s in itertools.product(range(3), repeat=k):
                for b in (0, 2):
                    for pos in range(4):
                        yield {"g": "o", "t": t, "s": s, "b": b, "pos": pos}

    def one(self, ctx, opts, src, names, sens, pos):
        src = src.replace("{{", "{")
        a = ["-A"] if sens else []
        args = {0: a + opts + ["-N", "-L", "a.asm", "a.bin"], 1: opts + ["-N", "-L"] + a + ["a.asm", "a.bin"], 2: ["a.asm", "-L", "-N"] + opts + ["a.bin"] + a,
                3: ["-N"] + opts + ["a.asm"] + a + ["a.bin", "-L"]}[pos]
        inc = {n + ".inc": " .db 7\n" for n in set(names)}
        r = ctx.exec(args, {"a.asm": src, **inc})
        lab = r.files.get("a.lab", b"").decode("latin-1").splitlines()
        lab = sorted(norm(l, names).upper() for l in lab)
        con = [norm(l, names).upper() for l in r.lines()]
        return (r.status, r.signal, r.timed, r.files.get("a.bin"), lab, con), r

    def run(self, c, ctx):
        g = c["g"]
        if g in ("t", "o"):
            base = BASES[c["b"]]
            opts, src = ([], T[c["t"]]) if g == "t" else OPT[c["t"]]
            sp = [SP[i](base) for i in c["s"]]
            if len(set(sp)) < len(set(c["s"])):
                return None     # the name has fewer spellings
            pos = c["pos"] if g == "o" else sum(c["s"]) % 4
            names = list(OTHER) + [f(base) for f in SP] + [base]
            names += ["__" + n for n in names] + [n + "2" for n in names]
            for sens in (0, 1):
                ref = [OTHER[i] if sens else OTHER[0] for i in c["s"]]
                real, r = self.one(ctx, [o.format(*sp) for o in opts], src.format(*sp), names, sens, pos)
                want, w = self.one(ctx, [o.format(*ref) for o in opts], src.format(*ref), names, 1, 0)
                ctx.outcome(c["t"], g, real[:4])
                if src.startswith(" #include"):
                    continue
                if real != want:
                    k = next(i for i in range(6) if real[i] != want[i])
                    what = ("status", "signal", "time-out", "bytes", "symbol file", "console")[k]
                    return "%r %swith -A must behave like %r: %s %r instead of %r" % (" ".join(o.format(*sp) for o in opts) + src.format(*sp), "" if sens else "not ", src.format(*ref), what, real[k], want[k])
            return None
        if g == "long":
            # names of n letters that differ in the last one, or in the case of the first or last
            stem = ("longnamewithmanyletters_" * 11)[:c["n"] - 1]
            a, b = stem + "a", stem + "b"
            for sens, a2 in ((0, a), (0, a[:-1] + "A"), (0, a.upper()), (1, a)):
                src = LONG[c["p"]][0].format(a=a, b=b, A=a2, B=b)
                if sens:
                    src = src.replace(";cs ", "") + "\n"
                    src = src.format(x=stem + "A", y=stem.upper() + "a")
                else:
                    src = re.sub(";cs .*", "", src)
                r = ctx.asm(src, *["-A"] * sens)
                want = bytes.fromhex(LONG[c["p"]][1][sens])
                ctx.outcome(g, c["n"], c["p"], sens, r.status)
                if not clean(r) or r.files.get("a.bin") != want:
                    return "names of %d letters%s: %r: must give %s: %s" % (c["n"], " with -A" if sens else "", src[:300], want.hex(), r.brief()[:300])
            return None
        if g == "builtin":
            for f in SP + [lambda n: n]:
                for sens in (0, 1):
                    n = f(c["n"])
                    r = ctx.asm("#ifdef %s\n .db 1\n#else\n .db 2\n#endif\n" % n, *["-A"] * sens)
                    want = b"\1" if not sens or n == c["n"] else b"\2"
                    ctx.outcome(n, sens)
                    if not clean(r) or r.files.get("a.bin") != want:
                        return "built-in %s spelled %s%s: %s" % (c["n"], n, " with -A" if sens else "", r.brief()[:200])
            return None
        if g in ("kw", "kwez"):
            src, exp = (KW if g == "kw" else KWEZ)[c["i"]]
            opts = [] if g == "kw" else ["-E"]
            files = {"i.bin": b"IJ", "k.inc": " nop\n"}
            ref = ctx.asm(src, *opts, files=files)
            if exp is not None and (not clean(ref) or ref.files.get("a.bin", b"").hex() != exp):
                return "%r must give %s: %s" % (src, exp, ref.brief()[:300])
            if exp is None and ".error" not in src and "a.bin" not in ref.files:
                return "%r is rejected: %s" % (src, ref.brief()[:300])
            for k in range(5):
                for sens in (0, 1):
                    v = alt(src, k)
                    r = ctx.asm(v, *(opts + ["-A"] * sens), files=files)
                    ctx.outcome(c["i"], g, k)
                    if (r.status, r.files.get("a.bin")) != (ref.status, ref.files.get("a.bin")):
                        return "%r%s must give the same as %r: %s / %s" % (v, " with -A" if sens else "", src, r.brief()[:300], ref.brief()[:200])
            return None
        forms = (z80 if g == "z80" else ez80).FORMS[c["i"]:c["i"] + 10]
        for k in range(5):
            for sens in (0, 1):
                src, out = " .org $1000\n", b""
                for f in forms:
                    for suf in ([""] if g == "z80" else ez80.SUFFIXES):
                        t = z80.text(f, "5", "+3", "$")
                        if suf:
                            mn, _, rest = t.partition(" ")
                            t = mn + suf + " " + rest
                        enc = z80.encode(f, 5, 3, -2) if g == "z80" else None
                        if enc is None:
                            e = "e" in f.enc
                            n = 2
                            if e:
                                e0 = ez80.encode(f, suf, 1, 5, 3, 0)
                                enc = ez80.encode(f, suf, 1, 5, 3, -len(e0))
                            else:
                                enc = ez80.encode(f, suf, 1, 5, 3, 0)
                        src += " " + alt(t, k) + "\n"
                        out += enc
                        ctx.outcome(g, f.mn, f.ops, suf)
                r = ctx.asm(src, *(["-A"] * sens + ([] if g == "z80" else ["-E"])))
                if not clean(r) or r.files.get("a.bin") != out:
                    got = r.files.get("a.bin") or b""
                    p = next((i for i in range(min(len(got), len(out))) if got[i] != out[i]), min(len(got), len(out)))
                    return "%r%s must give %s (differs at %d): %s" % (src, " with -A" if sens else "", out.hex(), p, r.brief()[:300])


CHECK = Case()
