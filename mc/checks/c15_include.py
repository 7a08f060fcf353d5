"""C15: every split of bounded programs into included files, every placement of a file over the search path."""
import itertools
import re
from .. import core
from ..lib import clean, diags

HEAD = "#define d 9\n#macro m(x)\n .db x,$EE\n#endmacro\nh0:\n_\n"
TAIL = "_\n .db d\nend_:\n"
S = [
    " .db 1", "la@: .dw la@,end_", "#define d 3@", " .db d+1", "#macro m(x)\n .db x,2@\n#endmacro", " m(4)", "_", " jr _", " jr +_", " .org $+$10", " .assume adl=1", " ld hl,end_",
    "e@ = $", "#defcont +1", "#undef d", "#ifdef d\n .db 7\n#else\n .db 8\n#endif", "lx@", " .equ 6", ".option o=2@", " .dw __o", " wr(\" .db 3\")", " run()", ".addinstr XX \"\" 4@ 1 NOP 1", " XX",
    ".echo \"t\",d", "#import \"im.bin\"", " bad", ".error \"x@\"", " .db end_-h0,la_", "#comment\n .db 1\n#endcomment", " .seek $+1", "BM@:", "", "; c", "_ .db $", "la_ = 4@ \\ .db 5", " .assume adl=0", " ld b,300",
]
CORE = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 16, 17]
IMP = b"I\r\n\x1a\0\xff"


def structures(lo, hi, depth):
    """all ways to write statements lo..hi-1 as a list of plain statements (int) and included files (list)"""
    if lo == hi:
        yield []
        return
    for rest in structures(lo + 1, hi, depth):
        yield [lo] + rest
    if depth:
        for k in range(lo + 1, hi + 1):
            for inner in structures(lo, k, depth - 1):
                if len(inner) == 1 and isinstance(inner[0], list):
                    if hi - lo > 1:
                        continue
                for rest in structures(k, hi, depth):
                    yield [inner] + rest


ST = {n: [s for s in structures(0, n, d) if any(isinstance(x, list) for x in s)] for n, d in ((1, 3), (2, 3), (3, 2), (4, 2))}
POS = re.compile(r"^\S*?:\d+: ", re.M)


class Include(core.Check):
    id = "C15"
    level = "exploration"
    rule = ("every sequence of up to N statements from a 38-statement alphabet (everything that carries state over statements) x every tree of included files over its statement boundaries up to depth 3 x file endings: "
            "same bytes, symbol file, exit status and messages as the inlined text; include chains of every depth to 60 and some to 250 and up to 1100 includes; imports of every size class and byte value; "
            "all spellings of paths of 1..6 directories with slashes and backslashes; getc() of every byte value; every subset of 5 places holding the file x spellings of the main file x orders and spellings of -I x include/import/bitmap")
    assumptions = ["a conditional block, macro or comment block stands in one file"]

    def cases(self, tier):
        n = len(S)
        for a in range(n):
            for t in range(len(ST[1])):
                for v in range(4):
                    yield {"g": "split", "s": [a], "t": t, "v": v}
        for d in list(range(1, 61)) + [64, 100, 127, 128, 129, 200, 250] if tier == "quick" else range(1, 300):
            yield {"g": "chain", "d": d}
        for k in (2, 3, 10, 100, 300, 1100):
            yield {"g": "many", "k": k, "d": 0}
            yield {"g": "many", "k": k, "d": 1}
        for k in list(range(0, 20)) + [255, 256, 257, 4095, 4096, 4097, 65535, 65536, 70000]:
            for w in range(3):
                yield {"g": "import", "k": k, "w": w}
        for what in ("include", "import", "bitmap"):
            for mask in range(32):
                for main in range(6):
                    for order in range(6):
                        yield {"g": "search", "what": what, "mask": mask, "main": main, "o": order}
        for what in ("include", "import"):
            for name in range(10):
                for where in range(6):
                    yield {"g": "missing", "what": what, "n": name, "w": where}
        for what in range(4):
            for name in range(14):
                yield {"g": "name", "what": what, "n": name}
        for what in ("include", "import", "bitmap", "getc", "echo"):
            for k in range(1, 7):
                for pre in range(6):
                    yield {"g": "path", "what": what, "k": k, "pre": pre}
        for a in range(0, 600, 40):
            for w in range(5):
                yield {"g": "getc", "a": a, "w": w}
        for s in itertools.product(range(n), repeat=2):
            for t in range(len(ST[2])):
                yield {"g": "split", "s": s, "t": t, "v": (s[0] + s[1] + t) % 4}
        for s in itertools.product(CORE, repeat=3):
            for t in range(len(ST[3])):
                yield {"g": "split", "s": s, "t": t, "v": (sum(s) + t) % 4}
        if tier == "thorough":
            for s in itertools.product(range(n), repeat=3):
                for t in range(0, len(ST[3])):
                    yield {"g": "split", "s": s, "t": t, "v": (sum(s) + t) % 4}
            for s in itertools.product(CORE[:9], repeat=4):
                for t in range(len(ST[4])):
                    yield {"g": "split", "s": s, "t": t, "v": (sum(s) + t) % 4}

    flat = {}

    def same(self, ctx, src, files, opts, key, what):
        """key: (flat text, opts)"""
        if key not in self.flat:
            if len(self.flat) > 64:
                self.flat.clear()
            r = ctx.exec(["-N", "-L"] + opts + ["a.asm", "a.bin"], {"a.asm": key[0], "im.bin": IMP})
            self.flat[key] = r
        a = self.flat[key]
        b = ctx.exec(["-N", "-L"] + opts + ["a.asm", "a.bin"], dict(files, **{"a.asm": src, "im.bin": IMP}))
        ctx.outcome(key[0], sorted(files))
        if a.crashed or b.crashed:
            return "crash: %s" % (a if a.crashed else b).brief()[:300]
        ma, mb = POS.sub("", "\n".join(a.lines())), POS.sub("", "\n".join(b.lines()))
        if a.status != b.status or a.files != b.files or ma != mb:
            return "%s: inlined %s / included %s" % (what, a.brief()[:500], b.brief()[:500])

    def run(self, c, ctx):
        g = c["g"]
        if g == "split":
            texts = [S[s].replace("@", "a1b2c3d4"[2 * i:2 * i + 2][1 if ("3@" in S[s] or "2@" in S[s] or "4@" in S[s]) else 0]) for i, s in enumerate(c["s"])]
            v = c["v"]
            nl = "\r\n" if v & 1 else "\n"
            files = {}

            def emit(st):
                out = []
                for x in st:
                    if isinstance(x, list):
                        body = nl.join(emit(x)) + ("" if v & 2 else nl)
                        name = next((k for k, b in files.items() if b == body), None) or "f%d.%s" % (len(files), ("inc", "asm", "z80")[len(files) % 3])
                        files[name] = body
                        out.append(("#include \"%s\"", " #INCLUDE %s", "#include \"%s\" ; c", "\t#include\t\"%s\" ")[(v + len(name) + len(files)) & 3] % name)
                    else:
                        out.append(texts[x].replace("\n", nl))
                return out
            body = nl.join(emit(ST[len(c["s"])][c["t"]]))
            opts = [["-E"], []][(sum(c["s"]) >> 1) & 1]
            key = (HEAD + "\n".join(texts) + "\n" + TAIL, tuple(opts))
            src = HEAD.replace("\n", nl) + body + nl + TAIL.replace("\n", nl)
            return self.same(ctx, src, files, opts, key, "%r + %r" % (src, files))
        if g == "chain":
            d = c["d"]
            files = {"f%d.inc" % i: " .db %d\n#include \"f%d.inc\"\nl%d: .dw l%d, k%d\nk%d:" % (i, i + 1, i, i, (i + 1) % d, i) for i in range(d)}
            files["f%d.inc" % d] = " ret"
            flat = "".join(" .db %d\n" % i for i in range(d)) + " ret\n" + "".join("l%d: .dw l%d, k%d\nk%d:\n" % (i, i, (i + 1) % d, i) for i in reversed(range(d)))
            return self.same(ctx, HEAD + "#include \"f0.inc\"\n" + TAIL, files, [], (HEAD + flat + TAIL, ()), "chain of %d" % d)
        if g == "many":
            k = c["k"]
            if c["d"]:
                return self.same(ctx, HEAD + "#include \"x.inc\"\n" * k + TAIL, {"x.inc": "#include \"y.inc\"\n#import \"im.bin\"", "y.inc": " .db 1\n"}, [], (HEAD + (" .db 1\n#import \"im.bin\"\n") * k + TAIL, ()), "%d includes" % k)
            return self.same(ctx, HEAD + "".join("#include \"x%d.inc\"\n" % (i % 50) for i in range(k)) + TAIL, {"x%d.inc" % i: " .db %d" % i for i in range(50)}, [],
                             (HEAD + "".join(" .db %d\n" % (i % 50) for i in range(k)) + TAIL, ()), "%d includes" % k)
        if g == "import":
            k = c["k"]
            data = bytes((i * 7 + i // 256) & 255 for i in range(k))
            src = [" .db 1\n#import \"x.bin\"\nl: .dl l\n", " .dw l\n.org $100\n#import \"x.bin\"\nl: .dw $&$ffff\n", "#define n \"x.bin\"\n#import \"x.bin\"\n#import \"x.bin\" ; c\nl: .dl l\n"][c["w"]]
            exp = [b"\1" + data + (1 + k).to_bytes(3, "little"), ((0x100 + k) & 0xFFFF).to_bytes(2, "little") + data + ((0x100 + k) & 0xFFFF).to_bytes(2, "little"), data + data + (2 * k).to_bytes(3, "little")][c["w"]]
            if c["w"] == 1:
                src = src.replace(".dw l", ".dw l&$ffff")
            r = ctx.asm(src, files={"x.bin": data})
            ctx.outcome(exp)
            if not clean(r) or r.files.get("a.bin") != exp:
                return "import of %d bytes: %r gives %s" % (k, src, r.brief()[:300])
            return
        if g == "search":
            return self.search(c, ctx)
        if g == "missing":
            name = ["nofile", "\"nofile\"", "\"no such.inc\"", "\"sub/no.inc\"", "\"../zz/no.inc\"", "\"/nonexistent/x.inc\"", "\"\"", "\"a.asm/x\"", "\"sub\"", "\"no.inc"][c["n"]]
            st = "#%s %s\n" % (c["what"], name)
            files = {"sub/x.inc": " .db 1\n"}
            w = c["w"]
            if w == 0:
                src = " .db 1\n" + st + " .db 2\n"
            elif w == 1:
                src, files["y.inc"] = " .db 1\n#include \"y.inc\"\n .db 2\n", st
            elif w == 2:
                src = "#if 0\n" + st + "#endif\n .db 1\n"
            elif w == 3:
                src = "#ifdef spasm\n" + st + "#endif\n .db 1\n"
            elif w == 4:
                src = "#macro mm()\n" + st + "#endmacro\n mm()\n"
            else:
                src = "l: .dw l\n" + st
            r = ctx.exec(["-N", "-I", "sub", "a.asm", "a.bin"], dict(files, **{"a.asm": src}))
            ctx.outcome(src)
            if w == 2:
                if not clean(r):
                    return "%r in a skipped block: %s" % (st, r.brief()[:300])
                return
            e = [m for f, l, sv, m in diags(r) if sv == "error"]
            if r.crashed or r.status in (0, None) or not e:
                return "%r: missing file not reported: %s" % (src, r.brief()[:300])
            base = name.strip('"')
            if base and c["n"] != 9 and not any(base in m for m in e):
                return "%r: no error names the file: %s" % (src, r.brief()[:300])
            return
        if g == "path":
            return self.path(c, ctx)
        if g == "getc":
            return self.getc(c, ctx)
        # names
        what = c["what"]
        names = ["x.inc", "X.INC", "x y.inc", "x;y.inc", "x,y.inc", "x'y.inc", "x(1).inc", "sub/x.inc", "./x.inc", "sub/../x.inc", "x", "x.tar.inc", "sub dir/x.inc", "d.inc"]
        nm = names[c["n"]]
        q = ['"%s"', ' "%s" ', '"%s" ; "c', '%s'][what]
        if what == 3 and not re.fullmatch(r"[\w./]+", nm):
            return
        f = {nm: " .db 5\n", "sub/k": "", "b": b"\7"}
        r = ctx.asm("#define d 4\n .db 1\n#include %s\n .db 2\n" % (q % nm), files=f)
        r2 = ctx.asm("#define d 4\n .db 1\n#import %s\n .db 2\n" % (q % nm), files={nm: b"\7", "sub/k": ""})
        ctx.outcome("name", what, nm)
        if not clean(r) or r.files.get("a.bin") != b"\1\5\2":
            return "#include %s: %s" % (q % nm, r.brief()[:300])
        if not clean(r2) or r2.files.get("a.bin") != b"\1\7\2":
            return "#import %s: %s" % (q % nm, r2.brief()[:300])

    def path(self, c, ctx):
        """every spelling of a path of k directories: each separator is a slash or a backslash"""
        what, k, pre = c["what"], c["k"], ["", ".", "d0/..", "..", "d0/../.", "./."][c["pre"]]
        dirs = ["d%d" % i for i in range(k)]
        px = b"BM" + (66).to_bytes(4, "little") + bytes(4) + (62).to_bytes(4, "little") + (40).to_bytes(4, "little") + (8).to_bytes(4, "little") + (1).to_bytes(4, "little") + b"\1\0\1\0" + bytes(24) + b"\xff\xff\xff\0\0\0\0\0" + b"\x55\0\0\0"
        body = {"include": " .db $55\n", "import": b"\x55", "bitmap": px, "getc": b"\x55", "echo": None}[what]
        real = "/".join(dirs) + "/f." + ("bmp" if what == "bitmap" else "x")
        parts = (pre.split("/") if pre else []) + dirs
        up = "wd/" if ".." == pre else ""
        for seps in itertools.product("/\\", repeat=len(parts)):
            name = "".join(p + x for p, x in zip(parts, seps)) + real.rsplit("/", 1)[1]
            src = {"include": '#include "%s"\n', "import": '#import "%s"\n', "bitmap": '#define __BM_HDR 0\n#include "%s"\n', "getc": ' .db getc("%s",0)\n', "echo": ' .echo > "%s" "U"\n .db $55\n'}[what] % (name.replace("\\", "\\\\") if what in ("getc", "echo") else name)
            if up and what in ("getc", "echo"):
                return          # a file is looked for from where the assembler was started
            files = {real: body if body is not None else "old", up + "a.asm": "#define __BM_HDR 0\n" + src, "d0/k": ""}
            r = ctx.exec(["-N", up + "a.asm", "a.bin"], files, modes={real: 0o10644} if what == "echo" else {})
            ctx.outcome(what, name)
            got = r.files.get("a.bin")
            if what == "bitmap" and got and got[-1:] == b"\x55":
                got = b"\x55"
            if not clean(r) or got != b"\x55" or (what == "echo" and r.files.get(real) != b"U"):
                return "%s of %s: %s" % (what, name, r.brief()[:300])

    def getc(self, c, ctx):
        """getc(file, n) is byte n of the file, whatever it is and however the file is named"""
        data = bytes(range(256)) + b"\r\n\r\r\n\n\x1a\0\xff\xfe" + bytes((i * 7 + 3) & 255 for i in range(600))
        form = ['getc("d.bin",%s)', "getc(q,%s)", "getc(d.bin , %s )", "g(%s)", 'GetC( "d.bin" ,%s)'][c["w"]]
        src, exp = "#define q d.bin\n#define g(n) getc(\"d.bin\",n)\n#macro h(f,n)\n .db getc(f,n)\n#endmacro\n", b""
        for i in range(c["a"], c["a"] + 40):
            e = [str(i), "$%X" % i, "%d+1" % (i - 1), "x%d" % i, "(%d)" % i][i % 5]
            if e[0] == "x":
                src += "x%d = %d\n" % (i, i)
            f = form % e
            v = data[i]
            u = [" .db %s\n" % f, " ld a,%s\n" % f, "y%d = %s\n .dw y%d\n" % (i, f, i), "#if %s == %d\n .db 1\n#else\n .db 0\n#endif\n" % (f, v), " h(\"d.bin\",%s)\n" % e, " .dw (%s)*2+1,z%d\nz%d = %s\n" % (f, i, i, f), "#define w%d %s\n .db w%d\n" % (i, f, i)][i % 7]
            src += u
            exp += [bytes([v]), bytes([0x3E, v]), bytes([v, 0]), b"\1", bytes([v]), (1 + v * 2).to_bytes(2, "little") + bytes([v, 0]), bytes([v])][i % 7]
        r = ctx.asm(src, files={"d.bin": data})
        ctx.outcome("getc", c["a"], c["w"])
        if not clean(r) or r.files.get("a.bin") != exp:
            return "%r... must give %s: %s" % (src[:300], exp[:40].hex(" "), r.brief()[:400])

    def search(self, c, ctx):
        """places: beside the main file, three include directories, another directory that must never be used"""
        sv = ctx.server("plain")
        if not sv.proc:
            sv.start()
        root = sv.dir
        main = ["a.asm", "./a.asm", "src/a.asm", "./src/a.asm", root + "/a.asm", root + "/src/a.asm"][c["main"]]
        beside = "src" if "src/" in main else "."
        order = list(itertools.permutations(["i1", "i2", "i3"]))[c["o"]]
        if c["what"] == "bitmap" and c["o"] & 1:
            return
        places = [beside, order[0], order[1], order[2], "other"]
        def content(i):
            if c["what"] == "include":
                return " .db %d\n" % (i + 1)
            if c["what"] == "import":
                return bytes([i + 1])
            px = bytes([0x80 >> i]) + b"\0\0\0"
            return b"BM" + (66).to_bytes(4, "little") + bytes(4) + (62).to_bytes(4, "little") + (40).to_bytes(4, "little") + (8).to_bytes(4, "little") + (1).to_bytes(4, "little") + b"\1\0\1\0" + bytes(24) + b"\xff\xff\xff\0\0\0\0\0" + px
        files = {"i1/k": "", "i2/k": "", "i3/k": "", "src/k": "", "other/k": ""}
        for i, p in enumerate(places):
            if c["mask"] >> i & 1:
                files[p + "/f.x"] = content(i)
        rel = main.replace(root + "/", "")
        files[rel] = "#%s \"f.x\"\n .db $77\n" % ("import" if c["what"] == "import" else "include")
        o = c["o"]
        k = c["mask"] + c["main"]
        iopts = [["-I", order[0], "-I", order[1], "-I", order[2]], ["-I" + ";".join(order)], ["-I", ",".join(order)], ["-I", order[0] + ";" + order[1], "-I./" + order[2]],
                 ["-I" + root + "/" + order[0], "-I", order[1] + "/," + order[2]], ["-I" + order[0], "-I" + order[1] + ";" + order[2] + ";"]][(o + k) % 6]
        args = ["-N"] + iopts + [main, "o.bin"] if k & 1 else ["-N", main, "o.bin"] + iopts
        r = ctx.exec(args, files)
        ctx.outcome("search", c["what"], c["mask"], c["main"], o)
        first = next((i for i in range(4) if c["mask"] >> i & 1), None)
        if first is None:
            if beside == "src":
                pass
            if r.crashed or r.status == 0 or not diags(r):
                return "no file on the search path, but %s: %s" % (args, r.brief()[:300])
            return
        exp = bytes([first + 1 if c["what"] != "bitmap" else 0x80 >> first]) + b"\x77"
        if not clean(r) or r.files.get("o.bin") != exp:
            return "%s with f.x in %s: must use the one in %s but %s" % (args, [places[i] for i in range(5) if c["mask"] >> i & 1], places[first], r.brief()[:300])


CHECK = Include()
