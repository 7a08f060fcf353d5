"""C19: all short programs over an alphabet of listing-relevant statements; the listing is parsed and compared with a model of the rows."""
import itertools, re
from .. import core
from ..lib import diags

# statement lines: (source lines, bytes emitted by each line, special)
S = [
    ([""], [0]), (["; note"], [0]), (["K%d:"], [0]), ([" nop"], [1]), (["K%d: ret"], [1]), ([" .db 1,2,3"], [3]), ([" .db 1,2,3,4"], [4]), ([" .db 5,6,7,8,9"], [5]),
    ([" .dw FF,$1234,FF"], [6]), ([" jp FF"], [3]), ([" .fill 9,$5a"], [9]), ([" .db 'a',\"bcd\",0 ; tail"], [5]), (["#define XX 1"], [0]),
    (["#if 0", " nop", "#endif"], [0, 0, 0]), (["#comment", " nop", "#endcomment"], [0, 0, 0]), ([" nop \\ ret \\ jp FF"], [5]), ([" m(7)"], [4]), ([" n()"], [9]), ([" n() \\ nop"], [10]),
    ([" .block 3"], [3]), (["K%d = 5"], [0]), ([" .db FF&255,FF&7,3,FF&15,FF&31"], [5]), (["#ifdef NOTDEF", " nop", "#else", " ret", "#endif"], [0, 0, 0, 1, 0]),
    (["#import \"d.bin\""], [6]), ([" .db \"a", "b\",1"], [4, 0]), (["#macro q%d(a)", " .db a", "", "#endmacro"], [0, 0, 0, 0]), ([" .echo \"x\""], [0]), (["\tld\thl,FF\t; t"], [3]),
]
NS = len(S)
INC = [" nop", " .dw FF", "; in"]          # i.inc
INCB = [1, 2, 0]
# specials: handled by the model below
SPECIAL = ["inc", "nest", "pinc", "nolist", "list", "nolist2", "list2", "mnolist", "mlist", "run", "org", "nlinc", "incnl", "incl", "bare"]
NAMES = [str(i) for i in range(NS)] + SPECIAL
PRO = ["#macro m(a)", " .db a", " jp FF", "#endmacro", "#macro n()", " m(1)", " ret", " m(2)", "#endmacro",
       "#macro p()", " .db 1", "#include \"i.inc\"", " .db 2,FF&255,3,4,5", "#endmacro", "#macro off()", " .nolist", "#endmacro", "#macro on()", " .list", "#endmacro"]
FILES = {"i.inc": "\n".join(INC) + "\n", "n.inc": " ret\n#include \"i.inc\"\n .db 9,FF&3\n", "d.bin": b"\x10\r\n\x00\x1a\xff", "off.inc": " nop\n .nolist\n ret\n", "on.inc": " nop\n .list\n ret\n", "z.inc": " nop"}


class Model:
    def __init__(self):
        self.items, self.pc, self.off, self.on, self.pend = [], 0, 0, True, False

    def line(self, num, text, n, opt=False, more=False):
        """one row group of n bytes"""
        if not more:
            if self.pend:
                self.on, self.pend = True, False
        if self.on and (n or not more):
            self.items.append(["more" if more else "line", num, {self.pc, self.pc + n}, text, self.off, n, opt])
        self.pc += n
        self.off += n

    def group(self, num, lines, sizes):
        a = len(self.items)
        p0 = self.pc
        for i, (l, s) in enumerate(zip(lines, sizes)):
            self.line(num + i, l, s)
        for it in self.items[a:]:
            if len(lines) > 1:
                it[2] |= {p0, self.pc}
        return num + len(lines)

    def file(self, lines, sizes):
        for i, (l, s) in enumerate(zip(lines, sizes)):
            self.line(i + 1, l, s)

    def special(self, k, num):
        """(source lines); adds the expected rows"""
        if k == "inc":
            src = ['#include "i.inc"']
            self.line(num, src[0], 0)
            self.file(INC, INCB)
        elif k == "nest":
            src = ['#include "n.inc" ; nested']
            self.line(num, src[0], 0)
            self.line(1, " ret", 1)
            self.line(2, '#include "i.inc"', 0)
            self.file(INC, INCB)
            self.line(3, " .db 9,FF&3", 2)
        elif k == "pinc":
            src = [" p()"]
            self.line(num, src[0], 1)
            self.file(INC, INCB)
            self.line(num, "", 5, more=True)
        elif k in ("nolist", "mnolist"):
            src = [" .nolist" if k == "nolist" else " off()"]
            self.line(num, src[0], 0, opt=True)
            self.on = False
        elif k == "list":
            src = [" .list ; on"]
            self.line(num, src[0], 0, opt=True)
            self.pend = True
        elif k == "mlist":
            src = [" on()"]
            self.line(num, src[0], 0, opt=True)
            self.pend = True
        elif k == "nolist2":
            src = [" .dw FF \\ .nolist \\ nop"]
            self.line(num, src[0], 2, opt=True)
            self.on = False
            self.line(num, "", 1, more=True)
        elif k == "list2":
            src = [".list \\ .dw FF"]
            self.line(num, src[0], 2, opt=True)
            self.pend = True
        elif k == "run":
            src = [' wr(" .dw FF")', " wr(\" ret\")", " run()"]
            self.line(num, src[0], 0)
            self.line(num + 1, src[1], 0)
            self.line(num + 2, src[2], 0)
            self.file([" .dw FF", " ret"], [2, 1])
        elif k == "org":
            src = [" .org $9d93"]
            p = self.pc
            self.line(num, src[0], 0)
            self.pc = 0x9D93
        elif k == "nlinc":
            src = [" .nolist", '#include "n.inc"', ".list"]
            self.line(num, src[0], 0, opt=True)
            self.on = False
            self.special("nest", num + 1)
            self.line(num + 2, src[2], 0, opt=True)
            self.pend = True
        elif k == "incnl":
            src = ['#include "off.inc"']
            self.line(num, src[0], 0)
            self.line(1, " nop", 1)
            self.line(2, " .nolist", 0, opt=True)
            self.on = False
            self.line(3, " ret", 1)
        elif k == "incl":
            src = ['#include "on.inc"']
            self.line(num, src[0], 0)
            self.line(1, " nop", 1)
            self.line(2, " .list", 0, opt=True)
            self.pend = True
            self.line(3, " ret", 1)
        else:
            src = ['#include "z.inc"']
            self.line(num, src[0], 0)
            self.line(1, " nop", 1)
        return src


def parse(t):
    """rows of the listing -> [kind, number, address, text, bytes] or a string"""
    out = []
    for row in t.replace("\r\n", "\n").split("\n"):
        if row.startswith("Listing for "):
            out.append(None)
            continue
        m = re.match(r"( {0,4}\d+) ([0-9A-F]{2}):([0-9A-F]{4}) ", row)
        body = row[m.end():] if m else row[14:]
        if not m and not row.strip():
            if row == "":
                out.append(None)
                continue
        if not m and not row.startswith(" " * 14):
            return "row %r" % row
        b = bytearray()
        for i in range(4):
            w = body[3 * i:3 * i + 3]
            if re.fullmatch(r"[0-9A-F]{2} ?", w):
                if len(b) != i:
                    return "row %r" % row
                b.append(int(w[:2], 16))
            elif w not in ("-  ", "   ", ""):
                return "columns of row %r" % row
        text = body[12:]
        if m:
            out.append(["line", int(m.group(1)), int(m.group(2) + m.group(3), 16), text, bytes(b)])
        elif out and out[-1] is not None and (len(out[-1][4]) % 4 == 0 and out[-1][4] and out[-1][3] == ""):
            out[-1][3] = text
            out[-1][4] += bytes(b)
        else:
            out.append(["more", None, None, text, bytes(b)])
    return [o for o in out if o is not None]


def compare(items, lst, code):
    rows = parse(lst)
    if isinstance(rows, str):
        return rows
    i = 0
    for it in items:
        kind, num, pcs, text, off, n, opt = it
        r = rows[i] if i < len(rows) else None
        ok = r is not None and r[0] == kind and r[4] == code[off:off + n] and (kind == "more" or r[1] == num and r[2] in {p & 0xFFFFFF for p in pcs} and r[3] == text)
        if ok:
            i += 1
        elif not opt:
            return "expected %s %s at %s %r bytes %s, the listing has %s" % (kind, num, [hex(p) for p in pcs], text, code[off:off + n].hex(), r and (r[0], r[1], r[2] and hex(r[2]), r[3], r[4].hex()))
    if i < len(rows):
        return "extra row %s" % (rows[i],)


RED = ["16", "17", "8", "15", "5", "25", "inc", "pinc", "nolist", "list", "nolist2", "list2", "mnolist", "mlist", "run", "13", "24", "18", "incnl", "incl"]


class Listing(core.Check):
    id = "C19"
    level = "exploration"
    rule = ("all programs of up to 2 (quick; thorough 3) statements over %d kinds and all of up to 3 (4) over the %d kinds that interact with the listing (macros, includes inside macros, run(), .list/.nolist, multi-line and deferred statements), "
            "each assembled with and without a listing; every row length and every position of a deferred operand against the row breaks; line endings; addresses above 64 KB; line numbers beyond 99999; lines and names of included files of every length class") % (len(NAMES), len(RED))
    assumptions = ["whether a line that itself contains .list or .nolist is shown is left open; bytes that a macro emits after an include it contains are listed after the included lines", "rows of one multi-line statement may carry the address before or after it"]

    def cases(self, tier):
        q = tier == "quick"
        for n in (1, 2) if q else (1, 2, 3):
            for s in itertools.product(NAMES, repeat=n):
                yield {"g": "prog", "s": " ".join(s), "e": "\n"}
        for n in (3,) if q else (4,):
            for s in itertools.product(RED, repeat=n):
                yield {"g": "prog", "s": " ".join(s), "e": "\n"}
        for e in ("\r\n", ""):
            for a in NAMES:
                for b in NAMES if not q else ("3", "inc"):
                    yield {"g": "prog", "s": b + " " + a, "e": e}
        for n in range(0, 30):
            for k in range(6):
                yield {"g": "row", "n": n, "k": k}
        for k in range(12):
            yield {"g": "ez", "k": k}
        for n in (9998, 9999, 10000, 99997, 99998, 99999, 100000, 100001):
            for k in range(4):
                yield {"g": "num", "n": n, "k": k}

        for n in list(range(1, 240, 7)) + [62, 63, 64, 126, 127, 128, 190, 191, 192, 238, 239, 240]:
            for k in range(3):
                yield {"g": "path", "n": n, "k": k}
        for n in list(range(0, 300)) + [510, 511, 512, 513, 1000, 1023, 1024, 4095, 4096, 9000]:
            for k in range(3):
                if k < 2 or n < 252:  # an expression may have 255 characters
                    yield {"g": "long", "n": n, "k": k}

    def run(self, c, ctx):
        m = Model()
        opts, extra = [], {}
        eol = "\n"
        if c["g"] == "prog":
            src = list(PRO)
            for i in (0, 4, 9, 14, 17):
                j = {0: 4, 4: 9, 9: 14, 14: 17, 17: 20}[i]
                m.group(i + 1, PRO[i:j], [0] * (j - i))
            for i, k in enumerate(c["s"].split()):
                if k in SPECIAL:
                    ls = m.special(k, len(src) + 1)
                else:
                    ls, sz = S[int(k)]
                    ls = [l.replace("%d", str(i)) for l in ls]
                    m.group(len(src) + 1, ls, sz)
                src += ls
            last = "FF: ret"
            m.line(len(src) + 1, last, 1)
            src.append(last)
            eol = c["e"] or "\n"
            text = eol.join(src) + c["e"]
            if "\r" in eol:
                # a string that spans lines then has a carriage return in it
                for it in m.items:
                    pass
                if " 24" in " " + c["s"]:
                    return
        elif c["g"] == "row":
            n, k = c["n"], c["k"]
            el, sz = [("FF", 1), ("FF", 2), ("FF", 3), ("FF+1,1,FF", 3), ("1", 1), ("FF,FF", 4)][k]
            d = [".db", ".dw", ".dl", ".db", ".db", ".dw"][k]
            ls = []
            if n:
                ls.append((" %s %s" % (d, ",".join([el] * n)), n * sz))
            ls.append((" .db %s \\ %s %s \\ ret" % (",".join(["7"] * (n + 1)), d, el), n + 1 + sz + 1))
            ls.append((" %s %s \\ .fill %d,1 \\ %s %s" % (d, el, n + 1, d, el), n + 1 + 2 * sz))
            src = [l for l, _ in ls] + ["FF = $12"] 
            for i, (l, s) in enumerate(ls):
                m.line(i + 1, l, s)
            m.line(len(src), src[-1], 0)
            text = "\n".join(src) + "\n"
        elif c["g"] == "path":
            # an included file with a name of n letters, in folders or not
            n, k = c["n"], c["k"]
            name = ("abcdefghij" * 24)[:n]
            if k:
                name = "/".join(name[i:i + (2, 40)[k - 1]] for i in range(0, n, (2, 40)[k - 1]))[:n].rstrip("/") or "a"
            extra = {name: ' .dw FF\n#include "i.inc"\n wr(" .dw FF")\n run()\n ret\n'}
            src = [" nop", '#include "%s"' % name, " nop", "FF = $12"]
            m.line(1, src[0], 1)
            m.line(2, src[1], 0)
            m.line(1, " .dw FF", 2)
            m.line(2, '#include "i.inc"', 0)
            m.file(INC, INCB)
            m.line(3, ' wr(" .dw FF")', 0)
            m.line(4, " run()", 0)
            m.file([" .dw FF"], [2])
            m.line(5, " ret", 1)
            m.line(3, src[2], 1)
            m.line(4, src[3], 0)
            text = "\n".join(src) + "\n"
        elif c["g"] == "long":
            # a line of more than n letters
            n, k = c["n"], c["k"]
            t = ("word " * 2000)[:n] + "."
            src = [" nop", [" .dw FF ;" + t, "; " + t, ' .dw FF\\ nop\\ .db "' + t + '"'][k], " ret", "FF = $12"]
            m.line(1, src[0], 1)
            m.line(2, src[1], (2, 0, 4 + n)[k])
            m.line(3, src[2], 1)
            m.line(4, src[3], 0)
            text = "\n".join(src) + "\n"
        elif c["g"] == "ez":
            opts = ["-E"]
            a = [0, 0xFFFF, 0x10000, 0x123456, 0xFFFF00, 0xD00000][c["k"] % 6]
            adl = c["k"] // 6
            ls = [(" .org $%X" % a, 0), (" .assume adl=%d" % adl, 0), (" ld hl,FF", 3 + adl), (" .dl FF,$112233", 6), ("K: jp.lil FF", 5), (" .dw FF&$FFFF", 2)]
            src = [l for l, _ in ls] + ["FF = $1234"]
            for i, (l, s) in enumerate(ls):
                m.line(i + 1, l, s)
                if i == 0:
                    m.pc = a
            m.line(len(src), src[-1], 0)
            text = "\n".join(src) + "\n"
        else:
            n, k = c["n"], c["k"]
            src = [[" .nolist"], [" nop", " .nolist"], [" .dw FF \\ .nolist"], [" nop", " .dw FF", " .db 1,2,3,4,5"]][k]
            pad = n - 1
            text = " .nolist\n" + "\n" * (pad - 2) + " .list\n"
            m.line(1, " .nolist", 0, opt=True)
            m.on = False
            m.pend = True
            src = src + [" nop", " .list", "FF = 3", " ret"]
            for i, l in enumerate(src):
                m.line(n + i, l, {" nop": 1, " ret": 1, " .dw FF": 2, " .dw FF \\ .nolist": 2, " .db 1,2,3,4,5": 5}.get(l, 0), opt="list" in l)
                if ".nolist" in l:
                    m.on = False
                elif ".list" in l:
                    m.pend = True
            text += "\n".join(src) + "\n"
        files = dict(FILES, **extra)
        files["a.asm"] = text
        for it in m.items:
            if it[0] == "line" and eol == "\r\n":
                it[3] = it[3]
        a = ctx.exec(["-N"] + opts + ["a.asm", "a.bin"], files, timeout=20000)
        b = ctx.exec(["-N", "-T"] + opts + ["a.asm", "a.bin"], files, timeout=20000)
        ctx.outcome(c["g"], b.files.get("a.lst"))
        if a.crashed or b.crashed or a.status or diags(a) or "a.bin" not in a.files:
            return "%s: %s" % (c, a.brief()[:300])
        if b.status or diags(b) or a.files["a.bin"] != b.files.get("a.bin") or a.lines() != b.lines():
            return "%s: with a listing %s, without %s" % (c, b.brief()[:200], a.brief()[:200])
        if m.off != len(a.files["a.bin"]):
            return "%s: %d bytes instead of %d" % (c, len(a.files["a.bin"]), m.off)
        bad = compare(m.items, b.files.get("a.lst", b"").decode("latin-1"), a.files["a.bin"])
        if bad:
            return "%s: %s" % (c["s"] if "s" in c else c, bad)


CHECK = Listing()
