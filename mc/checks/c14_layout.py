"""C14: every layout of every kind of statement. Slots: '~' blank may stand here, '_' a blank must stand here."""
import itertools
from .. import core, z80, ez80
from ..lib import clean, le

HEAD = "#define dd 7\n#define fn(x) x+1\n#define inl .db 3\nlab:\neq = $12\n#macro mm(p,q)\n .db p,q\n#endmacro\n#macro m0\n .db 77\n#endmacro\n"
TAIL = "later = $34\n"
FILES = {"inc.asm": " .db 5,6\n", "im.bin": b"I\r\nM"}
# (lines, bytes)
ST = [
    (["_nop~"], [0]),
    (["_ld_a~,~b~"], [0x78]),
    (["_ld_a~,~(~hl~)~"], [0x7E]),
    (["_ld_(~ix~+~5~)~,~9~"], [0xDD, 0x36, 5, 9]),
    (["_ld_a~,~(~iy~-~1~)~"], [0xFD, 0x7E, 255]),
    (["_ld_hl~,~later~+~$100~"], [0x21, 0x34, 1]),
    (["_ld_(~later~)~,~hl~"], [0x22, 0x34, 0]),
    (["_jr_nz~,~$~+~2~"], [0x20, 0]),
    (["_ex_af~,~af'~"], [8]),
    (["_add_hl~,~de~"], [0x19]),
    (["_bit_3~,~(~hl~)~"], [0xCB, 0x5E]),
    (["_push_bc~"], [0xC5]),
    (["_cp_';'~"], [0xFE, 59]),
    (["_cp_'\"'~"], [0xFE, 34]),
    (["_cp_'\\\\'~"], [0xFE, 92]),
    (["_cp_'\\''~"], [0xFE, 39]),
    (["~.db_'\"'~,~'\\\\'~,~'\\''~,~';'~"], [34, 92, 39, 59]),
    (["~#if_'\"'~==~34~", "~.db_'\"'~+~1~", "~#endif~"], [35]),
    (["~#if_(~';'~==~59~)~&&~(~'\\\\'~==~92~)~", "_ld_a~,~';'~", "~#endif~"], [0x3E, 59]),
    (["~.db_\"'\"~,~'\"'~,~\";\"~"], [39, 34, 59]),
    (["eq@~=~'\"'~", "~.db_eq@~"], [34]),
    (["~#define_de@_'\"'", "~.db_de@~,~\"\\\"\"~"], [34, 34]),
    (["_mm(~'\"'~,~';'~)~"], [34, 59]),
    (["_out_(~c~)~,~e~"], [0xED, 0x59]),
    (["la@:~"], []),
    (["la@:~ret_nz~"], [0xC0]),
    (["la@:~ld_(~ix~+~1~)~,~b~"], [0xDD, 0x70, 1]),
    (["la@:~jr_$~"], [0x18, 0xFE]),
    (["la@:~mm(~1~,~2~)~"], [1, 2]),
    (["la@:~m0~"], [77]),
    (["la@:~inl~"], [3]),
    (["la@:lb@:~nop~"], [0]),
    (["la@_ret_c~"], [0xD8]),
    (["la@:~.db_4~"], [4]),
    (["la@:_.dw_lab~,~4~"], [0, 0, 4, 0]),
    (["~.db_1~,~-~2~,~%11~,~'c'~,~\"a\\\";\\\\ b\"~"], [1, 254, 3, 99, 97, 34, 59, 92, 32, 98]),
    (["~.dw_(~1~+~2~)~*~3~,~later~<<~1~"], [9, 0, 0x68, 0]),
    (["~.db_1~==~1,~5~&~6~|~8~,~7~>=~8~,~1~&&~2~"], [1, 12, 0, 1]),
    (["~.db_dd~*~2~,~fn(~3~)~"], [14, 4]),
    (["~.fill_3~,~$AA~"], [0xAA] * 3),
    (["~.block_2~"], [0, 0]),
    (["eq@~=~7~", "~.db_eq@~"], [7]),
    (["eq@_.equ_8~", "~.db_eq@~+~1~"], [9]),
    (["eq@:_.equ_8~", "_.db_eq@~"], [8]),
    (["eq@:~=~lab~+~6~", "_.db_eq@~"], None),
    (["~.org_$~"], []),
    (["~#define_de@_6~", "~.db_de@~"], [6]),
    (["~#define_de@~", "~.db_de@~"], [1]),
    (["~#define_df@(~x~,~y~)_x~*~y~", "~.db_df@(~3~,~4~)~"], [12]),
    (["~#define_dx@_2", "~#undef_dx@~", "~#ifndef_dx@~", "_.db_2~", "~#endif~"], [2]),
    (["~#if_1~==~1~", "~.db_1~", "~#else~", "~.db_2~", "~#endif~"], [1]),
    (["~#if_1~>~1~", "~.db_1~", "~#else~", "~.db_2~", "~#endif~"], [2]),
    (["~#if_0~", "~.db_1~", "~#elif_dd~==~7~", "~.db_2~", "~#else~", "~.db_3~", "~#endif~"], [2]),
    (["~#ifdef_dd~", "_ret~", "~#endif~"], [0xC9]),
    (["~#ifdef_nodd~", "_ret~", "~#endif~", "_nop~"], [0]),
    (["~#macro_ma@~", "_ld_a~,~1~", "~#endmacro~", "_ma@()~"], [0x3E, 1]),
    (["~#macro_mb@(~x~,~y~)~", "~.db_x~,~y~", "~#endmacro~", "_mb@(~1~,~later~)~"], [1, 0x34]),
    (["_mm(~1~,~eq~+~1~)~"], [1, 0x13]),
    (["_m0~"], [77]),
    (["_inl~"], [3]),
    (["~#include_\"inc.asm\"~"], [5, 6]),
    (["~#import_\"im.bin\"~"], [73, 13, 10, 77]),
    (["~#comment~", "_x y z ; \" '", "~#endcomment~", "_nop~"], [0]),
    (["~.echo_\"t;x\"~,~5~"], []),
    (["~.addinstr_XQ@_*_ED@@_3_NOP_1~"], []),
    (["~.nolist~"], []), (["~.list~"], []),
    (["_~"], []),
    (["~"], []),
    (["_!"], []),
    (["_call_z~,~lab~", "_djnz_$~"], [0xCC, 0, 0, 0x10, 0xFE]),
    (["la@:", "_jp_la@~"], None),
    (["_jr_-~", "_~", "_!"], None),
]
ST = [s for s in ST if s[1] is not None and s[0] != ["_!"]]
DROP = []
OPT = ["", " ", "\t", "  ", " \t "]
REQ = [" ", "\t", "   ", "\t \t"]
CM = ["; plain", ";", ";\"", ";'", "; it's \\ .db 9", ";;", ";)(,", "; a\\", "; \xe9\xff", ";\t", ";#endif", "; \"q\" ; x", ";.db 1", "; /* */"]
EOL = ["\n", "\r\n"]


def sub(lines, i):
    return [l.replace("@@", "%02X" % (i + 0x10)).replace("@", "qz" + "abcdefgh"[i]) for l in lines]


def slots(lines):
    return [c for l in lines for c in l if c in "~_"]


def fill(lines, vals):
    it = iter(vals)
    return ["".join(next(it) if c in "~_" else c for c in l) for l in lines]


def plain(lines):
    return fill(lines, ["" if c == "~" else " " for c in slots(lines)])


def joinable(s, first):
    """may this be put on one line with another statement? definitions take the rest of their line as their text, a macro or comment block begins on the next line"""
    return not any(l.lstrip("~_").startswith(("#define", "#macro", "#comment", "#endcomment")) for l in s[0])


class Layout(core.Check):
    id = "C14"
    level = "exploration"
    rule = ("every kind of statement (instructions with all operand shapes, labels, equates, data and other directives, every preprocessor command, calls) x every choice of blanks at its token boundaries (all for up to 5 "
            "boundaries, all pairs beyond) x every comment shape after each line x line endings; every pair of statements joined by a backslash; every pair and core triple x every choice of line ending per line x "
            "final newline x byte-order mark x blank lines, in the main and in an included file; tiny files; every instruction form of both processors in 5 spacings and 3 letter cases")
    assumptions = ["a statement in column 0 is a label, so an instruction needs a blank before it", "#define takes the rest of its line, a #macro or #comment block starts on the next line: these aren't joined with a backslash"]

    def cases(self, tier):
        n = len(ST)
        for i in range(n):
            s = ST[i]
            sl = slots(s[0])
            k = len(sl)
            if k <= (5 if tier == "quick" else 7):
                for v in itertools.product(range(3), repeat=k):
                    yield {"g": "blank", "i": i, "v": v}
            else:
                base = [0] * k
                for u in range(4):
                    yield {"g": "blank", "i": i, "v": [u] * k}
                for a in range(k):
                    for b in range(a + 1, k):
                        for x, y in itertools.product(range(3 if tier == "quick" else 4), repeat=2):
                            for bg in (0, 1):
                                v = [bg] * k
                                v[a], v[b] = x, y
                                yield {"g": "blank", "i": i, "v": v}
        for i in range(n):
            for c in range(len(CM)):
                for sp in range(3):
                    for e in range(2):
                        yield {"g": "comment", "i": i, "c": c, "sp": sp, "e": e}
            for ln in range(len(ST[i][0])):
                for sp in range(3):
                    for c in (range(len(CM)) if tier != "quick" else (0, 2, 3, 4)):
                        yield {"g": "comment1", "i": i, "c": c, "sp": sp, "l": ln}
        for i in range(n):
            for ln in range(len(ST[i][0]) + 1):
                for b in range(6):
                    yield {"g": "blankline", "i": i, "l": ln, "b": b}
        for i, j in itertools.product(range(n), repeat=2):
            if joinable(ST[i], 1) and joinable(ST[j], 0):
                for sp in range(3):
                    yield {"g": "join", "s": [i, j], "sp": sp}
            for m in range(8):
                yield {"g": "eol", "s": [i, j], "m": m}
        core_ = [1, 5, 14, 16, 19, 25, 30, 34, 36, 40, 41, 44, 46]
        for s in itertools.product(core_ if tier == "quick" else range(0, n, 2), repeat=3):
            if all(joinable(ST[x], 0) for x in s):
                yield {"g": "join", "s": s, "sp": sum(s) % 3}
            for m in range(4) if tier != "quick" else (sum(s) % 8,):
                yield {"g": "eol", "s": s, "m": m}
        for i in range(n):
            for where in ("main", "inc"):
                for bom in (0, 1):
                    for nl in (0, 1, 2):
                        for e in (0, 1):
                            yield {"g": "file", "i": i, "w": where, "b": bom, "nl": nl, "e": e}
        al = ["", " ", "\n", "\r", "\t", ";", "a", "_", "\\", ".", "#", "\xef", "\xbb", "\xbf"]
        ok = ["", " ", "\n", "\r\n", "\t", ";", "\r"]
        for where in ("main", "inc"):
            for k in range(0, 4):
                for t in itertools.product(ok[1:], repeat=k):
                    yield {"g": "tiny", "w": where, "t": "".join(t)}
                    yield {"g": "tiny", "w": where, "t": "\xef\xbb\xbf" + "".join(t)}
            for t in ("a", "ab", "a:", "_", "__", "a\n", "a:\n", "\xef\xbb\xbfa", "\xef\xbb\xbf ret", " ei", "\tei", " ei\n"):
                yield {"g": "tiny", "w": where, "t": t}
        for ez in (0, 1):
            forms = ez80.FORMS if ez else z80.FORMS
            for a in range(0, len(forms), 40):
                for st in range(8):
                    yield {"g": "forms", "ez": ez, "a": a, "st": st}

    def expect(self, ctx, src, exp, files=None, what="", opts=()):
        r = ctx.asm(src, *opts, files=dict(FILES, **(files or {})))
        ctx.outcome(src if isinstance(src, str) else bytes(src))
        if not clean(r) or r.files.get("a.bin") != bytes(exp):
            return "%s%r must give [%s] but gives %s" % (what, src, bytes(exp).hex(" "), r.brief()[:400])

    def run(self, c, ctx):
        g = c["g"]
        if g == "blank":
            s = ST[c["i"]]
            sl = slots(s[0])
            k = sum(c["v"]) + c["i"]
            vals = [(OPT if x == "~" else REQ)[(v if v == 0 else 1 + (v - 1 + (k if len(sl) > 5 else 0)) % (len(OPT if x == "~" else REQ) - 1))] for x, v in zip(sl, c["v"])]
            lines = fill(sub(s[0], 0), vals)
            return self.expect(ctx, HEAD + "\n".join(lines) + "\n .db $55\n" + TAIL, s[1] + [0x55])
        if g == "comment" or g == "comment1":
            s = ST[c["i"]]
            cm = ["", " ", "\t"][c["sp"]] + CM[c["c"]]
            lines = [l + (cm if g == "comment" or q == c["l"] else "") for q, l in enumerate(plain(sub(s[0], 0)))]
            nl = EOL[c.get("e", 0)]
            return self.expect(ctx, HEAD + nl.join(lines) + nl + " .db $55" + nl + TAIL, s[1] + [0x55])
        if g == "blankline":
            s = ST[c["i"]]
            lines = plain(sub(s[0], 0))
            lines[c["l"]:c["l"]] = [[""], [" "], ["\t"], ["; c"], ["", " ;\\", ""], ["\r"]][c["b"]]
            return self.expect(ctx, HEAD + "\n".join(lines) + "\n .db $55\n" + TAIL, s[1] + [0x55])
        if g == "join":
            lines, exp = [], []
            for q, i in enumerate(c["s"]):
                lines += plain(sub(ST[i][0], q))
                exp += ST[i][1]
            sep = ["\\", " \\", "\t\\"][c["sp"]]
            return self.expect(ctx, HEAD + sep.join(lines) + sep + " .db $55\n" + TAIL, exp + [0x55])
        if g == "eol":
            lines, exp = [], []
            for q, i in enumerate(c["s"]):
                lines += plain(sub(ST[i][0], q))
                exp += ST[i][1]
            m = c["m"]
            text = HEAD.replace("\n", EOL[m & 1])
            for q, l in enumerate(lines):
                text += l + EOL[(m >> 1 ^ (q * (m & 1))) & 1] + ("" if not m & 4 else EOL[(m + q) & 1])
            return self.expect(ctx, text + " .db $55\r\n" + TAIL, exp + [0x55])
        if g == "file":
            s = ST[c["i"]]
            lines = plain(sub(s[0], 0))
            nl = EOL[c["e"]]
            text = ("\xef\xbb\xbf" if c["b"] else "")
            if c["w"] == "main":
                text += (HEAD + TAIL).replace("\n", nl) + nl.join(lines)
                return self.expect(ctx, text + [nl, "", " "][c["nl"]], s[1])
            text += nl.join(lines) + [nl, "", ";"][c["nl"]]
            return self.expect(ctx, HEAD + "#include \"x.asm\"\n .db $55\n" + TAIL, s[1] + [0x55], files={"x.asm": text}, what="x.asm = %r, " % text)
        if g == "tiny":
            b = {" ei": [0xFB], "\tei": [0xFB], " ei\n": [0xFB], "\xef\xbb\xbf ret": [0xC9]}.get(c["t"], [])
            if c["w"] == "main":
                return self.expect(ctx, c["t"], b)
            return self.expect(ctx, " .db 1\n#include \"x.asm\"\n .db 2\n", [1] + b + [2], files={"x.asm": c["t"]}, what="x.asm = %r, " % c["t"])
        # every instruction form
        st = c["st"]
        forms = (ez80.FORMS if c["ez"] else z80.FORMS)[c["a"]:c["a"] + 40]
        src, exp = "", b""
        for f in forms:
            src += self.respace(" " + z80.text(f, "$12", "+3", "$"), st) + "\n"
        ref = ""
        for f in forms:
            ref += " " + z80.text(f, "$12", "+3", "$") + "\n"
        o = ["-E"] if c["ez"] else []
        a, b = ctx.asm(ref, *o), ctx.asm(src, *o)
        ctx.outcome(src)
        if not clean(a):
            return "plain layout not accepted: %s" % a.brief()[:300]
        if not clean(b) or a.files["a.bin"] != b.files.get("a.bin"):
            return "%r: bytes change with the layout: %s / %s" % (src[:200], a.brief()[:200], b.brief()[:300])

    @staticmethod
    def respace(one, st):
        if st == 0:
            return one.upper()
        if st == 1:
            return "".join(ch.upper() if i & 1 else ch for i, ch in enumerate(one))
        if st == 2:
            return one.replace(",", " , ").replace("(", "( ").replace(")", " )")
        if st == 3:
            return "\t" + one.lstrip().replace(" ", "\t", 1).replace(",", ",\t").replace("+", " + ") + "\t"
        if st == 4:
            return "  " + one.replace(",", " ,").replace(")", " ) ") + ";x,(\"'"
        if st == 5:
            return one + " \\"
        if st == 6:
            return one.title() + "\r"
        return " " + one.replace(" ", "   ", 3).replace(",", " \t, \t") + "  ;"


CHECK = Layout()
