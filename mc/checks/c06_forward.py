"""C06: differential: the same program with the symbol defined before and after its use."""
import itertools
from .. import core
from ..lib import clean, diags

Z = ["ld a,%", "ld hl,%", "ld (%),a", "ld a,(%)", "ld (%),bc", "jr %", "djnz %", "jr nz,%", "jp %", "call z,%", "bit %,a", "set %,(ix+1)",
     "res 1,(iy+%)", "ld (ix+%),5", "ld (ix+1),%", "ld (ix+%),%", "ld a,(iy+%)", "rst %", "im %", "out (%),a", "in a,(%)", "add a,%", "cp %",
     ".db %", ".dw %", ".dl %", ".db 1,%,2", '.db "a",%,"b"', ".dw %,%", "ld (ix-%),a", "sub (ix+%)"]
E = ["ld hl,%", "ld a,(%)", "ld (%),hl", "jp %", "call %", "jr %", "ld.sis hl,%", "jp.lil %", "rst.lil %", "lea ix,iy+%", "ld hl,(ix+%)", "pea ix+%",
     "in0 a,(%)", "tst a,%", "ld.is hl,%", "ld.lil (%),a", ".dl %", ".dw %", ".db %", "ld (iy+%),bc", "ld bc,%", "rst %"]
X = ["S", "S+1", "1+S", "-S", "~S", "(S)", "(S+1)*2", "2*(S+1)", "S-$", "$-S", "$+S", "S&$FF", "S>>1", "S%7", "S*S", "'a'+S", "S+'('", "d5+S",
     "S+d34", "2*d34*S", "dS+1", "2*dS", "fn(S)", "fn(1)+S", "2*fn(S)", "S=5", "S<6&&S>1", "S+%101", "S+0Fh", "S+$a", "kn+S", "S-kn", "ng+S", "3-ng+S",
     "(kn-S)&7", "S<<1", "S/2", "S|1", "S^3", "par(S)", "par(par(S))+1", "5-par(2)-S", "2*(S-(3-S))", "S!5", "S+", "S$", "(S", "S)", "-(S)", "~(S+1)", "S, 1",
     "'S'+S", "S+aS", "as2+S", "fm(S)", "2*fm(3)*S"]
V = [0, 1, 5, 7, 8, 31, 56, 104, 127, 128, 200, 255, 256, 32767, 32768, 65535, 65536, 0xFFFFFF, -1, -5, -128, -129, -256, -32768, -32769]
VQ = [0, 5, 56, 104, 128, 255, 256, 65535, -1, -128, -129, -32769]
HEAD = (" .org 100\nkn = 3\nng = 0-3\naS = 11\nas2 = 12\n#define d5 5\n#define d34 3+4\n#define dS S+1\n#define par(x) x+1\n#macro fn(x)\n#if x>1000\nx+1\n#else\n"
        "x+2\n#endif\n#endmacro\n#macro fm(x)\nx+1 ; note\n#endmacro\n#macro mu(z)\n .dw z\n.db 9\n#endmacro\n#macro mu8(z,y)\n ld a,z\n.db y\n#endmacro\n#macro mt(@z)\n z\n#endmacro\n")
# how the use is wrapped: text with % for the statement
WRAP = [" %\n", "#if kn\n %\n#endif\n", "mt( % )\n" if False else " % ; it's \"S\"\n", " nop \\ % \\ nop\n", "lab: %\n", ' buf(1)\n wr(" %")\n run(1)\n', "#include \"u.inc\"\n"]
ARGX = [" mu(@)\n", " mu8(@,5)\n", " mu8(1,@)\n", "#define q @\n .dw q\n", "#define q @\n .dw 2*q\n", "#define q eval(@)\n .dw 2*q\n", "t = 5\n .dw t+(@)\n"]
MID = ["", "#define d5 9\n", "#undef d5\n", "#define d34 0\n", "#define dS 0\n", "kn = 50\n", "kn = 0-9\n", " .org 300\n", "#define par(x) x+9\n", "#undef par\n",
       "#macro fn(x)\nx+50\n#endmacro\n", "#define kn 77\n", "#define aS 5\n", "_:\n"]


class C06(core.Check):
    id = "C06"
    level = "exploration"
    rule = ("differential, exhaustive over the product: (31 Z80 + 22 eZ80 operand kinds) x 51 expressions x symbol values (quick 12, "
            "thorough 25) x 2 ways to define (equate, label); plus expressions x 14 intervening redefinitions x 4 kinds, "
            "x 6 statement wrappers, x 7 macro-argument/define contexts; the program with the definition before the use and the one "
            "with it after the use must give identical bytes, or both be diagnosed. Non-trivial: distinct (statement, value, bytes)")
    assumptions = ["operands that choose addresses or counts (.org, .fill, #if) need known values and are not in the property",
                   "the symbol is defined once, and is not itself defined through a forward reference"]

    def cases(self, tier):
        full = tier != "quick"
        for df in ("equ", "label"):
            for x in X:
                for t in Z:
                    yield {"st": t.replace("%", x), "df": df, "ez": 0, "v": "V" if full else "Q"}
                for t in E:
                    yield {"st": t.replace("%", x), "df": df, "ez": 1, "v": "V" if full else "Q"}
        for x in X:
            for m in range(1, len(MID)):
                for t in [".dw %", "ld a,%", "jp %", "ld (ix+%),%"]:
                    yield {"st": t.replace("%", x), "df": "equ", "ez": 0, "mid": m, "v": "M"}
            for w in range(1, len(WRAP)):
                for t in [".dw %", "ld a,%", "ld (ix+%),2", "jp %", "bit %,b"]:
                    yield {"st": t.replace("%", x), "df": "equ", "ez": 0, "wrap": w, "v": "M"}
            for a in range(len(ARGX)):
                for m in ((0, 1, 3, 4, 8) if not full else range(len(MID))):
                    yield {"x": x, "arg": a, "df": "equ", "ez": 0, "mid": m, "v": "M"}

    def key(self, case, msg):
        if case.get("mid") == 10 and "fn(S)" in case.get("st", case.get("x")):
            return "condition-on-later-symbol-in-redefined-macro"
        return super().key(case, msg)

    def use(self, case):
        if "arg" in case:
            return ARGX[case["arg"]].replace("@", case["x"])
        return WRAP[case.get("wrap", 0)].replace("%", case["st"]) if case.get("wrap") != 5 else WRAP[5].replace(
            "%", case["st"].replace("\\", "\\\\").replace('"', '\\"'))

    def build(self, case, vals, fwd):
        out, pre, post = [HEAD], [], []
        files = {}
        for k, v in enumerate(vals):
            s = "S%d" % k
            u = self.use(case)
            mid = MID[case.get("mid", 0)]
            # every value gets its own symbol and its own copies of the defines that are redefined between
            ren = lambda t: t.replace("dS", "d@%d" % k).replace("'S'", "'\1'").replace('"S"', '"\1"').replace("aS", "\2").replace(
                "S", s).replace("\1", "S").replace("\2", "aS").replace("@", "S")
            if case.get("wrap") == 6:
                files["u%d.inc" % k] = ren(" " + case["st"] + "\n")
                u = '#include "u%d.inc"\n' % k
            elif "wrap" in case or "st" in case or "arg" in case:
                u = ren(u)
            if "#define q" in u:
                u = u.replace("#define q ", "#define q%d " % k).replace(" .dw q", " .dw q%d" % k).replace("2*q", "2*q%d" % k)
            d = "%s = %d\n" % (s, v) if case["df"] == "equ" else " .org %d\n%s:\n" % (v, s)
            pre.append("#define dS%d %s+1\n" % (k, s))
            out.append((k, u, ren(mid), d))
        txt = HEAD + "".join(pre)
        if not fwd:
            txt += "".join(o[3] for o in out[1:]) + " .org 100\n"
        for k, u, mid, d in out[1:]:
            txt += " .org 100\n" + u + mid
        if fwd:
            txt += "".join(o[3] for o in out[1:])
        return txt, files

    def run(self, case, ctx):
        vals = {"V": V, "Q": VQ, "M": [5, 200, -3]}[case["v"]]
        if case["df"] == "label":
            vals = [v for v in vals if 0 <= v < (1 << 24 if case["ez"] else 65536)]
        if case.get("mid"):
            for v in vals:
                m = self.pair(case, [v], ctx)
                if m:
                    return m
            return None
        return self.pair(case, vals, ctx)

    def pair(self, case, vals, ctx):
        opts = ["-E"] if case["ez"] else []
        t1, f1 = self.build(case, vals, False)
        t2, f2 = self.build(case, vals, True)
        a = ctx.asm(t1, *opts, files=f1)
        b = ctx.asm(t2, *opts, files=f2)
        ga, gb = clean(a), clean(b)
        if ga and gb and a.files.get("a.bin") == b.files.get("a.bin"):
            ctx.count("accepted", len(vals))
            ctx.outcome(self.use(case), vals, a.files.get("a.bin"))
            return None
        if len(vals) > 1:
            h = len(vals) // 2
            return self.pair(case, vals[:h], ctx) or self.pair(case, vals[h:], ctx) or (
                None if not (ga and gb) else "%r with values %r: outputs differ only together" % (self.use(case), vals))
        # both fail, or both are assembled with a warning and the same result
        same = (a.status > 1 and b.status > 1) or a.status == b.status and a.files.get("a.bin") == b.files.get("a.bin")
        if same and not ga and not gb and diags(a) and diags(b) and a.status and b.status and not a.crashed and not b.crashed:
            ctx.count("rejected", len(vals))
            ctx.outcome(self.use(case), vals, "rejected")
            return None
        return "%r with S=%d: defined before: %s; defined after: %s" % (self.use(case) + MID[case.get("mid", 0)], vals[0], a.brief()[:400], b.brief()[:400])


CHECK = C06()
