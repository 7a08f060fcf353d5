"""C22: every diagnosable situation x context x output format/option set, alone and combined; status, diagnostics and output must agree."""
import itertools
from .. import core
from ..lib import diags
from .c17_output import readhex

# (class, text, bytes); class g = clean, w = warning, e = error
G = [(" nop", "00"), (" ld a,LATE2", "3e05"), (" .db \"ab\",LATE2", "616205"), ("g%d:", ""), ("g%d = LATE2X+1", ""), ("#define g%d 5", ""), ("; error: text", ""), (" jr $", "18fe"), (" .dw LATE", "2c01"), ("", ""), ("_ nop", "00"), (" .fill 3,1", "010101"),
     (" gm(LATE2)", "05"), ("#include \"g.inc\"", "0077"), ("#import \"d.bin\"", "6162"), (" .echo \"x\"", ""), (" wr(\" nop\")\n run()", "00"), ("g%d: .db 1 \\ .db g%d-g%d", "0100"), ("#ifdef nope\n foo\n#endif", ""), ("#undef nope", ""), (" .option opt=1", ""), (" bit LATE2,a", "cb6f"),
     (" .addinstr GZ%d \"\" 00 1 NOP 1\n gz%d", "00"), ("#if nope\n foo\n#else\n nop\n#endif", "00"), (" ld (ix+LATE2),LATE2", "dd360505"), ("#macro um%d(a,b)\n foo a,b\n#endmacro", ""), (" .db ';',\"\\\\\"", "3b5c"), ("#comment\n foo\n#endcomment", ""), (" .org $5000", ""), (" rst 8", "cf")]
W = [(" .db 256", "00"), (" .db -200", "38"), (" ld a,256", "3e00"), (" ld a,LATE", "3e2c"), (" .db LATE", "2c"), (" ld a,(5", "3e05"), (" ld a,((5)+1", "3e06"), (" .db 'a", "61"), (" .db gf(1,2)", "01"), (" gm(1,2)", "01"), ("w%d = 5\nw%d = 5+LATE2X", ""),
     (" .db 1,LATE,2", "012c02"), (" add a,(((2)))", "c602"), (" .db LATE+LATE", "58"), (" nop \\ ld b,LATE", "00062c"), (" .fill 2,256", "0000"), (" in a,(LATE)", "db2c"), (" cp -129", "fe7f")]
E = [" .org -1", " .org", " .fill -1", " .fill", " .block -1", " .addinstr", " .addinstr FOO", " .addinstr FOO \"\" 1", " .echo >", " .echo > \"no/dir/x\" \"a\"", " .echo nope", " .echo \"v\",nope+1", " .echo 5/0", " .error \"boo\"", " .error", "e%d .equ", "5 = 5", " .option",
     " .option 5=5", " .seek -1", " .seek 1000000000", " .assume foo=1", " .assume", " .db", " .db ,", " .db 1,", " .db 1,,2", " .dw", " .dw nope", " .db nope", " .db 1,nope,2", " .dl nope", " ld a,nope", " ld a,nope2+1", " ld hl,(nope)", " ld a,1+", " ld a,+", " ld a,", " ld", " ld q,q", " ld a,(ix+200)",
     " ld a,(ix-129)", " ld a,(ix+LATE)", " ld a,(ix*2)", " bit 8,a", " bit -1,a", " set LATE,a", " rst 5", " rst 64", " rst LATE", " im 3", " jr 60000", " djnz 60000", " jr LATEF", " jr nope", " foo", " foo a,b", " foo(1)", " foo()", " .foo", "#foo", "#", " ld a,5/0", " ld a,5%0", " ld a,LATE/(LATE-300)", " ld a,5)",
     " ld a,(5))", " .db \"abc", " ld a,$GG", " ld a,5G", " ld a,%12", " ld a,12h3", " ld a,@9", " ld a,$1FFFFFFFF", " ld a,99999999999", " ld a,1 2", " ld a,5 nop", " nop 5", " ld hl,#5", " ld a,1?2", " ld a,&", " jp -_", " jp -", " jp +_nope_", " run()", " wr()", " wr(\" foo q\")\n run()", " buf(3)\n run()",
     " .db ef(1)+", " .db gf()", " gm()", "#define r%d r%d\n .db r%d", "e%d .equ nope\n .db e%d", " ld a,e%d\ne%d = nope", " .db -2147483648/-1", " .db 5,\"a\"nop", "#define", "#define e%d(b", "#define e%d(b,b) b", "#undef", "#include", "#include \"nope.inc\"", "#include nope.inc", "#import", "#import \"nope.bin\"",
     "#macro", "#macro e%d(a,a)\n#endmacro", "#define e%d 1\ne%d:", "e%d:\n#define e%d 1", "#define e%d 1\ne%d = 2", "#if\n#endif", "#if 1/0\n#endif", "#if $1FFFFFFFF\n#endif", " .dw nope-$", " .db $+nope", " ld (ix+nope),1", " ld (ix+1),nope", " set nope,a", " call nope", " jp z,nope", " out (nope),a", " nop \\ foo",
     " foo \\ nop", " ld a,1 \\ ld a,nope", " .db bad1", " bad2", " .db gf(nope)", " gm(nope)", "#include \"e.inc\"", "#include \"e2.inc\"", " em()", " em2()", " .db \"a\",nope", " .org nope", " .fill nope", " .fill 2,nope", " .block nope", " .seek nope"]
# structures that reach past themselves: only on their own, at the top level
S = ["#else", "#elif 1", "#endif", "#ifdef", "#if 1\n nop", "#if 0\n nop", "#ifdef nope\n nop", "#if 1\n#else\n nop", "#macro s\n nop", "#include \"s.inc\"", "#if 1\n#include \"s.inc\"\n", "#include \"g.inc", "#if 1\n#if 1\n#endif\n nop", "#endif\n#if 1", "#macro s()\n#if 1\n#endmacro\n s()\n nop"]
# places for a value x values that can never be had: all combinations must fail
HOSTS = [" .db X", " .db 1,X", " .dw X", " .dl X", " .db \"a\",X,2", " ld a,X", " ld hl,X", " ld (ix+X),1", "h%d = X\n .dw h%d", "h%d .equ X\n .db 2+h%d", " .echo X", " .echo \"a\",X,5", " .echo > \"e.txt\" X", " .fill X", " .fill 1,X", " .block X", " .org X", "#if X\n#endif", "#if 0\n#elif X\n#endif", "#if 1==X\n nop\n#endif",
         " gm(X)", " .db gf(X)", " ld a,gf(X)", " bit X,a", " rst X", " im X", " .db 1+X", " .db (X)", " .db -X", " .db ~X", " .db 1,gf(X),2", " .option q%d=X", " jp X", " call nz,X", " jr X", " .db gf(1)+X", "#define q%d X\n .db q%d", "#define q%d X\n ld a,q%d", "#define q%d 1,X\n .db q%d",
         "#macro q%d(a)\n X\n#endmacro\n .db q%d(1)", "#macro q%d(a)\n#if a==1\n X\n#else\n 5\n#endif\n#endmacro\n ld b,q%d(1)", "#macro q%d(a)\n .db a\n#endmacro\n q%d(X)", "#macro q%d(a)\n nop\n .dw 1,X\n#endmacro\n q%d(1)", "lb%d: .db X", " nop \\ .db X", " .db X \\ nop", " .seek X", " .addinstr H%d \"\" X 1 NOP 1",
         " .db getc(\"d.bin\",X)", " .db eval(X)", "#define q%d eval(X)\n .db q%d", " .db \"ab\"+X", " .db gf(gf(X))", "#define q%d(a) a,a\n .db q%d(X)", " wr(\" .db 1+\",X)\n run()", " .error X", " .dw $,X,$", " in a,(X)", " cp X", " ld (X),a", " ld bc,(X)", " .db 5*(1+X)", " .db 0*X", " .db 0&&X", " .db 1||X"]
VALS = ["nope", "1/0", "1%0", "$GG", "$100000000", "12G", "getc(\"none\",0)", "getc(none,0)", "getc(\"d.bin\",-1)", "getc(\"d.bin\",nope)", "getc(\"d.bin\",1/0)", "nope(1)", "bad1", "bdiv", "brec", "bm2", "bm3(1)", "gf(nope)", "gf(1/0)", "gf()", "gx(1/0)", "eval(1/0)", "eval(nope)", "(1", "1)", "1 2", "1+", "*1", "(", ")", "1?2",
        "@", "-_", "+_", "nope+1", "1+nope", "(nope)", "-nope", "nope-nope", "nope*0", "$-nope", "1/(2-2)", "1/(LATE-300)", "LATE/0", "LATE/(LATE-LATE)", "bm4(nope)", "bm4(1/0)", "gf(gf(1/0))", "(1/0)"]
PRO = ("#define bdiv 1/0\n#define brec brec\n#macro bm2\n#if 0\n 1\n#endif\n#endmacro\n#macro bm3(a)\n 1/(a-1)\n#endmacro\n#macro bm4(a)\n#if 0\n 1\n#else\n a\n#endif\n#endmacro\n#define gx(a) a*1\nLATE2X = 4\n#define gf(x) x\n#define bad1 nope\n#define bad2 foo\n#macro gm(x)\n .db x\n#endmacro\n#macro em()\n nop\n foo\n#endmacro\n#macro em2()\n ld a,nope\n#endmacro\n#define ef(x) (x)\n")
EPI = "LATE = 300\nLATE2 = 5\nLATEF = 60000\n"
FILES = {"g.inc": " nop\n .db $77\n", "d.bin": b"ab", "e.inc": " nop\n foo\n", "e2.inc": " nop\n ld hl,nope\n", "s.inc": " nop\n#endif\n"}
CTX = ["top", "label", "after", "before", "macro", "macro2", "include", "if", "else", "wr", "off", "comment", "uncalled", "offelse", "offinc"]
OUTS = [([], "o.bin"), ([], "o.hex"), ([], "o.8xp"), ([], "o.xyz"), (["-T"], "o.bin"), (["-L"], "o.bin"), (["-S"], "o.bin"), (["-C"], "o.bin"), (["-O"], "o.bin"), (["-A"], "o.bin"), (["-T", "-L", "-S", "-A"], "o.8xv"), (["-C", "-O"], "o.bin"), (["-O", "-T"], "o.bin"), ([], "o.rom"), ([], "o.8xk"),
        (["-C", "-T", "-L"], "o.hex"), (["-O", "-L"], "o.bin"), (["-E"], "o.bin")]


def wrap(t, ctx, i, files):
    """(source of statement t in this context, extra bytes before, after) or None"""
    one = "\n" not in t
    ind = t[:1] == " " or t == ""
    if ctx == "top":
        return t + "\n", b"", b""
    if ctx == "label":
        return ("lb%d:%s\n" % (i, t), b"", b"") if one and ind and not t.startswith((" =", " .equ")) else None
    if ctx == "after":
        return (" nop \\%s\n" % t, b"\0", b"") if one and t[:1] == " " and not t.startswith((" =", " .equ")) else None
    if ctx == "before":
        return ("%s \\ nop\n" % t, b"", b"\0") if one and t[:1] == " " and "\"" not in t and "'" not in t and "(5" not in t and "((" not in t else None
    if ctx == "macro":
        if t.startswith("#macro"):
            return None
        return "#macro cm%d()\n; body\n%s\n#endmacro\n cm%d()\n" % (i, t, i), b"", b""
    if ctx == "macro2":
        if t.startswith("#macro"):
            return None
        return "#macro ca%d()\n; body\n%s\n nop\n#endmacro\n#macro cb%d()\n nop\n ca%d()\n#endmacro\n cb%d()\n" % (i, t, i, i, i), b"\0", b"\0"
    if ctx == "include":
        files["c%d.inc" % i] = t + "\n"
        return "#include \"c%d.inc\"\n" % i, b"", b""
    if ctx == "if":
        return "#if 1\n%s\n#else\n foo\n#endif\n" % t, b"", b""
    if ctx == "else":
        return "#if 0\n foo\n#else\n%s\n#endif\n" % t, b"", b""
    if ctx == "wr":
        return (" wr(\"%s\")\n run()\n" % t, b"", b"") if one and t[:1] == " " and "\"" not in t and "\\" not in t and "run" not in t and "wr" not in t else None
    if ctx == "off":
        return "#if 0\n%s\n#endif\n" % t, None, None
    if ctx == "comment":
        return "#comment\n%s\n#endcomment\n" % t, None, None
    if ctx == "uncalled":
        return None if t.startswith("#macro") else ("#macro cu%d()\n%s\n#endmacro\n" % (i, t), None, None)
    if ctx == "offelse":
        return "#ifndef nope\n nop\n#elif 1\n%s\n#else\n%s\n#endif\n" % (t, t), None, b"\0"
    if ctx == "offinc":
        files["c%d.inc" % i] = t + "\n"
        return "#if 0\n#include \"c%d.inc\"\n#endif\n" % i, None, None


SIZES = [" nop\n", "l1:\n ld a,5\n.dw l1,l2\nl2:\n" * 1, " ld a,5\n" * 150, " ld a,5\n" * 700 + "".join("lab%d:\n" % i for i in range(600)), " .fill 9000,5\n nop\n"]
FULL = [([], "o.bin"), (["-T"], "o.bin"), (["-L"], "o.bin"), (["-T", "-L"], "o.bin"), (["-T", "-O"], "o.bin"), (["-L", "-O"], "o.bin"), ([], "o.hex"), ([], "o.rom"), ([], "o.8xv"), (["-T"], "o.8xv"), (["-T"], "o.hex")]

class Status(core.Check):
    id = "C22"
    level = "exploration"
    rule = ("%d clean, %d warning and %d error statements, each in %d contexts (active and inactive) and under %d output/option sets, plus all sequences of two over the whole alphabet and of three over its classes and %d unbalanced structures: "
            "status 0 <=> nothing reported and the complete output; warnings give 1 with the complete output, errors 2 or 3, 3 leaves no program file") % (len(G), len(W), len(E), len(CTX), len(OUTS), len(S))
    assumptions = ["the code counter suppresses messages: there only the status is judged"]

    def cases(self, tier):
        n = len(G) + len(W) + len(E)
        for k in range(n):
            for x in CTX:
                yield {"g": "ctx", "s": [k], "x": x, "o": 0}
        for k in range(n):
            for o in range(1, len(OUTS)):
                yield {"g": "out", "s": [k], "x": "top", "o": o}
        reps = list(range(0, len(G), 3)) + list(range(len(G), len(G) + len(W), 3)) + list(range(len(G) + len(W), n, 6))
        full = range(n)
        for a in full:
            for b in (full if tier == "thorough" else reps):
                yield {"g": "two", "s": [a, b], "x": "top", "o": 0}
                if tier == "thorough" or a not in reps:
                    yield {"g": "two", "s": [b, a], "x": "top", "o": (a + b) % len(OUTS) if OUTS[(a + b) % len(OUTS)][1] != "o.8xk" else 0}
        r3 = reps[::2]
        for s in itertools.product(reps if tier == "thorough" else r3, repeat=3):
            yield {"g": "three", "s": list(s), "x": "top", "o": 0}
        for x in CTX[1:]:
            for a in reps:
                for b in (reps if tier == "thorough" else r3):
                    yield {"g": "mixed", "s": [a, b], "x": x, "o": 0}
        for k in range(len(S)):
            for o in range(len(OUTS)):
                yield {"g": "struct", "k": k, "o": o}
        for h in range(len(HOSTS)):
            for v in range(len(VALS)):
                yield {"g": "host", "h": h, "v": v}
        for k in range(12):
            yield {"g": "misc", "k": k}
        for z in range(len(SIZES)):
            for o in range(len(FULL)):
                yield {"g": "full", "z": z, "o": o}

    def judge(self, c, ctx, src, cls, exp, files, o):
        opts, out = OUTS[o]
        kw = {}
        r = ctx.exec(["-N"] + opts + ["a.asm", out], dict(files, **{"a.asm": src}), **kw)
        d = diags(r)
        ctx.outcome(c["g"], tuple(c.get("s", ())), c.get("x"), o, r.status)
        if r.crashed:
            return "%r: %s" % (src[len(PRO):], r.brief()[:300])
        sev = max([{"error": 2, "warning": 1}[x[2]] for x in d] or [0])
        what = "%r %s %s" % (src[len(PRO):-len(EPI)], opts, out)
        quiet = "-C" in opts
        w = 0
        if out == "o.xyz" and "-O" not in opts:
            w = 1
        if out == "o.8xp" and exp[:2] not in (b"\xbb\x6d", b"\xef\x69", b"\xef\x7b"):
            w = 1
        if out == "o.8xk" and cls < 2:
            cls = 2                         # no application header
        # consistency of status and messages whatever the program
        if r.status not in (0, 1, 2, 3) or (sev == 2 and r.status < 2) or (sev == 1 and r.status < 1) or (r.status and not d and not quiet) or (r.status >= 2 and sev < 2 and not quiet):
            return "%s: status %s although the messages are %s" % (what, r.status, [x[1:] for x in d][:4])
        if r.status == 3 and out in r.files:
            return "%s: fatal error, but an output file of %d bytes" % (what, len(r.files[out]))
        if cls == 2:
            if "-O" in opts and "-T" not in opts:
                return                      # without any output the operands are not resolved
            if r.status < 2 or (sev < 2 and not quiet):
                return "%s: the error is not reported: %s" % (what, r.brief()[:200])
            return
        want = max(cls, w)
        if "-O" in opts and "-T" not in opts and "-L" not in opts and r.status == 0:
            want = 0
        if r.status != want or (not quiet and sev != want):
            return "%s: status %s, severity %s instead of %s: %s" % (what, r.status, sev, want, [x[1:] for x in d][:4])
        f = r.files.get(out)
        if "-O" in opts:
            if f is not None:
                return "%s: unrequested output" % what
        elif f is None:
            return "%s: no output, status %s" % (what, r.status)
        else:
            p = f
            if out == "o.hex":
                p, e = readhex(f)
                if e:
                    return "%s: %s" % (what, e)
            elif out == "o.rom":
                p, exp = f, exp + b"\xff" * (512 * 1024 - len(exp))
            elif out in ("o.8xp", "o.8xv"):
                p, exp = f[74:-2] if out == "o.8xp" else f[74:-2], exp
            if p != exp:
                return "%s: output %s instead of %s" % (what, p[:80].hex(), exp[:80].hex())
        for x, y in (("-T", "lst"), ("-L", "lab")):
            if (x in opts) != (("o." + y) in r.files):
                return "%s: %s file %s" % (what, y, "missing" if x in opts else "unrequested")

    def run(self, c, ctx):
        g = c["g"]
        files = dict(FILES)
        if g == "struct":
            return self.judge(c, ctx, PRO + S[c["k"]] + "\n" + EPI, 2, b"", files, c["o"])
        if g == "misc":
            return self.misc(c["k"], ctx)
        if g == "full":
            return self.full(c, ctx)
        if g == "host":
            t = HOSTS[c["h"]].replace("%d", "q").replace("X", VALS[c["v"]])
            if self.vague(HOSTS[c["h"]], VALS[c["v"]]):
                return
            return self.judge(c, ctx, PRO + t + "\n" + EPI, 2, b"", files, 0)
        src, exp, cls = PRO, b"", 0
        for i, k in enumerate(c["s"]):
            if k < len(G):
                kc, (t, b) = 0, G[k]
            elif k < len(G) + len(W):
                kc, (t, b) = 1, W[k - len(G)]
            else:
                kc, t, b = 2, E[k - len(G) - len(W)], ""
            t = t.replace("%d", "XYZ"[i] + "q")
            x = c["x"] if i == len(c["s"]) - 1 or g != "mixed" else "top"
            wv = wrap(t, x, i, files)
            if wv is None:
                return
            s, b0, b1 = wv
            src += s
            if b0 is None:
                exp += b1 or b""
            else:
                exp += b0 + bytes.fromhex(b) + b1
                cls = max(cls, kc)
        return self.judge(c, ctx, src + EPI, cls, exp, files, c["o"])

    def vague(self, h, v):
        """combinations that do have a meaning (or whose meaning is not this property's subject)"""
        if v in ("(1", "1)") or (v == ")" and h == " .fill 1,X"):
            return True  # unclosed parentheses are only warned of, extra ones ignored
        if h.startswith(" .option"):
            return True  # kept as text
        if h[:3] == "#if":  # an unknown name is false in a condition
            return any(n in v for n in ("nope", "LATE", "bad1", "+_"))
        return False

    def full(self, c, ctx):
        """a disk with room for k bytes of each file: status 0 exactly if every file is complete"""
        opts, out = FULL[c["o"]]
        files = {"a.asm": SIZES[c["z"]]}
        b = ctx.exec(["-N"] + opts + ["a.asm", out], files)
        if b.status != 0:
            return "%s %s: %s" % (opts, out, b.brief()[:200])
        top = max(len(x) for x in b.files.values())
        ks = {0, 1, 2, 55, 57, 73, 75}
        for x in b.files.values():
            ks |= {len(x) + d for d in (-2, -1, 0, 1)} | set(range(0, min(len(x), 70000), 4096)) | {len(x) // 4096 * 4096}
        for k in sorted(ks):
            if k < 0:
                continue
            r = ctx.exec(["-N"] + opts + ["a.asm", out], files, fsize=k)
            ctx.outcome("full", c["z"], c["o"], k, r.status, tuple((n, len(x)) for n, x in sorted(r.files.items())))
            ok = {n: x for n, x in r.files.items()} == {n: x for n, x in b.files.items()}
            if r.crashed or (k >= top and (r.status or not ok)) or (r.status == 0 and not ok):
                return "%s %s with room for %d bytes: status %s, files %s instead of %s: %s" % (opts, out, k, r.status, [(n, len(x)) for n, x in sorted(r.files.items())], [(n, len(x)) for n, x in sorted(b.files.items())], r.brief()[:200])

    def misc(self, k, ctx):
        def go(args, files, lo, hi, out=None, present=None):
            r = ctx.exec(args, files, timeout=20000)
            ctx.outcome("misc", k, r.status, tuple(sorted(r.files)))
            if r.crashed or not lo <= (r.status or 0) <= hi or (present is not None and (out in r.files) != present):
                return "%s: %s, files %s" % (args, r.brief()[:300], sorted(r.files))
        N = " nop\n"
        A = {"a.asm": N}
        if k == 0:
            return go(["-N", "nope.asm", "o.bin"], {}, 2, 3, "o.bin", False)
        if k == 1:
            return go(["-N", "-V", " nop", ], {}, 0, 0, "-v.bin", True)
        if k == 2:
            return go(["-N", "-V", " foo"], {}, 2, 3)
        if k == 3:
            return go(["-N", "-V", " .db 256"], {}, 1, 1, "-v.bin", True)
        if k == 4:
            return go(["-N", "a.asm", "o.bin"], {"a.asm": " .fill 9000000\n .fill 9000000\n"}, 2, 3, "o.bin", False)
        if k == 5:
            return go(["-N", "a.asm", "o.bin"], {"a.asm": ""}, 0, 0, "o.bin", True)
        if k == 6:
            return go(["-N", "a.asm"], A, 0, 0, "a.bin", True)
        if k == 7:
            return go(["-N", "-DX=5", "a.asm", "o.bin"], {"a.asm": " .db x\n"}, 0, 0, "o.bin", True)
        if k == 8:
            return go(["-N", "-DX=nope", "a.asm", "o.bin"], {"a.asm": " .db x\n"}, 2, 3)
        if k == 9:
            return go(["-N", "a.asm", "o.8xk"], A, 3, 3, "o.8xk", False)
        if k == 10:
            return go(["-N", "a.asm", "no/dir/o.bin"], A, 2, 3)
        if k == 11:
            return go(["-N", "a.asm", "o.bin"], {"a.asm": " .db nope\n" * 500}, 2, 3)


CHECK = Status()
