"""C33: the include files shipped in inc/, taken from the working tree, against independent models.

equ   : every equate of the system include files: the value of the label is the conventional value of its expression (independent evaluator, usual precedence)
mac   : every macro of ti83plus.inc x operands x places x options
ext   : every instruction of z80ext.inc: the bytes of the instructions it is made of (from the independent Z80 model), in all sequences of two
app   : all histories of pages of app.inc with page numbers and sizes around the limits
rel   : all histories of relocate, endrelocate and code of relocate.inc
pair  : every sequence of two (three) of the files, with and without the options
"""
import itertools, os, re
from .. import core, z80, build
from ..lib import clean, diags, le

SYS = ["ti83plus.inc", "ti83asm.inc", "ti84pce.inc", "tokens.inc"]
ALLF = SYS + ["z80ext.inc", "app.inc", "relocate.inc"]
NEEDS_EQU = ("ti83asm.inc", "tokens.inc")          # these leave the spelling of EQU to the program
TOK = re.compile(r"\s*(?:(\$[0-9A-Fa-f]+|[0-9][0-9A-Fa-f]*[hH]\b|[01]+[bB]\b|%[01]+|0x[0-9a-fA-F]+|\d+\b|'.')|([A-Za-z_]\w*)|(<<|>>|[-+*/|&^()~]))")
OWN = {"__BM_MSK_RGB", "__BM_SHD", "__LINE", "FALSE", "SPASM", "SPASMVER", "TRUE", "TI84PCE"}


def text(f):
    with open(os.path.join(build.REPO, "inc", f), "rb") as h:
        return h.read()


def files():
    return {f: text(f) for f in ALLF}


def equates(f):
    out = []
    for l in text(f).decode("latin-1").splitlines():
        m = re.match(r"([A-Za-z_]\w*):?\s+\.?equ\s+([^;]*)", l, re.I) or re.match(r"([A-Za-z_]\w*)\s*=\s*([^;]*)", l)
        if m:
            out.append((m.group(1), m.group(2).strip()))
    return out


def number(n):
    if n[0] == "$":
        return int(n[1:], 16)
    if n[0] == "%":
        return int(n[1:], 2)
    if n[0] == "'":
        return ord(n[1])
    if n[-1] in "hH":
        return int(n[:-1], 16)
    if n[:2].lower() == "0x":
        return int(n, 16)
    return int(n[:-1], 2) if n[-1] in "bB" else int(n)


def value(e, env, up):
    s, p = "", 0
    while e[p:].strip():
        m = TOK.match(e, p)
        if not m:
            raise ValueError(e[p:])
        p = m.end()
        n, w, o = m.groups()
        s += str(number(n)) if n else "(%d)" % env[up(w)] if w else o
    return eval(s.replace("/", "//"), {})


def model(f, up=str.upper):
    """name -> value (None where it refers to a name that is not defined)"""
    env = {}
    for n, e in equates(f):
        try:
            env[up(n)] = value(e, env, up)
        except KeyError:
            env[up(n)] = None
        except TypeError:
            env[up(n)] = None
    return env


# statement, bytes of it with the operand v
MAC = [("bcall({})", "ef ww"), ("B_CALL {}", "ef ww"), ("bjump({})", "cd 50 00 ww"), ("bcallz({})", "20 03 ef ww"), ("bcallnz({})", "28 03 ef ww"), ("bcallc({})", "30 03 ef ww"), ("bcallnc({})", "38 03 ef ww"),
       ("AppOnErr({})", "21 ww cd 59 00"), ("AppOffErr", "cd 5c 00"), ("db {}&255", "b"), ("DB 1,{}&255", "01 b"), ("BCALL({})", "ef ww"), ("b_call {}", "ef ww")]
OPER = [("_ClrLCDFull", 0x4540), ("$4540", 0x4540), ("lbl", None), ("later", 0x7654), ("_ClrLCDFull+1-1", 0x4540), ("0", 0), ("65535", 65535)]
AT = ["plain", "label", "macro", "if", "line", "after", "rept", "incl", "run"]

# instructions of z80ext.inc that are not a plain one with a post-increment
PAIRS = {"bc": "bc", "de": "de", "hl": "hl"}


def enc(line):
    """bytes of a plain instruction, from the model"""
    mn, _, ops = line.partition(" ")
    for f in z80.FORMS:
        if f.mn == mn and f.ops.replace("{n}", "5") == ops and len([x for x in f.enc if not isinstance(x, int)]) == f.ops.count("{n}"):
            return bytes(5 if x == "n" else x for x in f.enc)
    raise KeyError(line)


def extended():
    """[(source, bytes)] of every instruction z80ext.inc adds, from its spelling"""
    out = []
    for l in text("z80ext.inc").decode("latin-1").splitlines():
        m = re.match(r"\.ADDINSTR\s+(\S+)\s+(\S+)\s", l, re.I)
        if not m:
            continue
        mn, ops = m.group(1).lower(), m.group(2).lower().replace("*", "5")
        src = mn + " " + ops
        if ops == "hl,a,(hl)":                                 # hl from (hl), by way of a
            b = enc("ld a,(hl)") + enc("inc hl") + enc("ld h,(hl)") + enc("ld l,a")
        elif mn == "ld" and re.fullmatch(r"(bc|de|hl),(bc|de|hl)", ops):
            b = enc("ld %s,%s" % (ops[1], ops[4])) + enc("ld %s,%s" % (ops[0], ops[3]))
        else:
            p = re.search(r"\((bc|de|hl)([+-])\)", ops)
            plain = re.sub(r"[+-]\)", ")", ops)
            if mn in ("add", "adc", "sbc") or not plain.startswith("a,") or mn == "ld":
                b = enc({"sl1": "sll"}.get(mn, mn) + " " + plain)
            if p:
                b += enc(("inc " if p.group(2) == "+" else "dec ") + p.group(1))
        out.append((src, b))
    return out


APP_SIZES = [0, 1, 100, 16253 - 1, 16253, 16253 + 1, 16384, 16385]
REL = ["nop", " relocate($8000)", " endrelocate()", " .dw $", "q{}: .dw q{}", " relocate($C000+1)", " jp $", " .fill 3"]


class Shipped(core.Check):
    id = "C33"
    level = "exploration"
    rule = ("every equate of %d system include files against an independent evaluator; every macro of ti83plus.inc x %d operands x %d places; every instruction of z80ext.inc, in all sequences of two; all page histories of app.inc; all relocate histories; all pairs of files"
            % (len(SYS), len(OPER), len(AT)))
    assumptions = ["an equate has the value its expression has with the usual precedence", "arrays.inc is not covered: it doesn't work with any version", "the bytes of app.inc's header are taken from its text"]

    def key(self, case, msg):
        return "equ %s %s" % (case["f"], case["n"]) if case["g"] == "undef" else super().key(case, msg)

    def cases(self, tier):
        th = tier == "thorough"
        for f in SYS:
            env = model(f)
            names = [n for n, _ in equates(f)]
            for o in range(3):
                for i in range(0, len(names), 1000):
                    yield {"g": "equ", "f": f, "i": i, "o": o}
            for n in names:
                if env[n.upper()] is None:
                    yield {"g": "undef", "f": f, "n": n}
        for m in range(len(MAC)):
            for o in range(len(OPER)):
                for a in range(len(AT)):
                    yield {"g": "mac", "m": [m], "o": o, "a": a}
            for m2 in range(len(MAC)):
                yield {"g": "mac", "m": [m, m2], "o": (m + m2) % len(OPER), "a": m2 % len(AT)}
        n = len(extended())
        for a in range(n):
            yield {"g": "ext", "x": [a]}
            for b in range(n):
                yield {"g": "ext", "x": [a, b]}
        sizes = APP_SIZES
        for k in (1, 2, 3) if th else (1, 2):
            for s in itertools.product(range(len(sizes)), repeat=k):
                for nm in (0, 1, 2, 3):
                    yield {"g": "app", "s": list(s), "p": list(range(k)), "nm": nm}
        for p in ([0], [1], [0, 2], [0, 1, 2], [0, 1, 1], [0, 0], [0, 1, 3], [0, 3], [0, 2, 1], [0, 1, 2, 3], [0, 2, 4], [0, 1, 0]):
            for s in ([1] * len(p), [2] * len(p)):
                yield {"g": "app", "s": s, "p": p, "nm": 0}
        for k in (1, 2, 3, 4, 5) if th else (1, 2, 3, 4):
            for h in itertools.product(range(len(REL)), repeat=k):
                yield {"g": "rel", "h": list(h), "A": sum(h) % 2}
        for k in (1, 2, 3) if th else (1, 2):
            for h in itertools.permutations(range(len(ALLF)), k):
                yield {"g": "pair", "h": list(h), "o": sum(h) % 4}

    def run(self, c, ctx):
        return getattr(self, "g_" + c["g"])(c, ctx)

    def g_equ(self, c, ctx):
        f = c["f"]
        up = str.upper if c["o"] != 1 else lambda x: x
        env = model(f, up)
        names = [n for n, _ in equates(f)][c["i"]:c["i"] + 1000]
        names = [n for n in names if env[up(n)] is not None]
        head = "#define equ .equ\n#define EQU .equ\n" if f in NEEDS_EQU else ""
        src = head + '#include "%s"\n' % f
        if c["o"] < 2:                              # the label file
            r = ctx.asm(src, *(["-L"] + ["-A"] * c["o"]), files={f: text(f)})
            lab = dict(re.findall(r"(?m)^(\S+) = \$(\w+)", (r.files.get("a.lab") or b"").decode("latin-1")))
            got = {n: int(lab[up(n)], 16) if up(n) in lab else None for n in names}
            extra = [n for n in lab if n not in {up(k) for k in env} and n.upper() not in OWN]
            if not c["i"] and extra:
                return "%s: the label file has %s besides the equates" % (f, extra[:5])
        else:                                       # used as operands
            src += "".join(" .dw %s&$FFFF,%s>>16&$FFFF\n" % (n, n) for n in names)
            r = ctx.asm(src, files={f: text(f)})
            o = r.files.get("a.bin") or b""
            got = {n: int.from_bytes(o[4 * i:4 * i + 4], "little") for i, n in enumerate(names)}
        ctx.outcome(f, tuple(got.items()))
        if not clean(r):
            return "%s: %s" % (f, r.brief()[:400])
        bad = [(n, hex(env[up(n)] & 0xFFFFFFFF), got[n] if got[n] is None else hex(got[n])) for n in names if got[n] != env[up(n)] & 0xFFFFFFFF]
        if bad:
            return "%s: (name, value, got): %s" % (f, bad[:6])

    def g_undef(self, c, ctx):
        """a name whose value refers to a name that is defined nowhere"""
        head = "#define equ .equ\n#define EQU .equ\n" if c["f"] in NEEDS_EQU else ""
        r = ctx.asm(head + '#include "%s"\n .dw %s\n' % (c["f"], c["n"]), files={c["f"]: text(c["f"])})
        if not clean(r):
            return "%s: the value of %s refers to a name that isn't defined: %s" % (c["f"], c["n"], r.brief()[:200])

    def g_mac(self, c, ctx):
        body, exp = [], b""
        a = AT[c["a"]]
        n, v = OPER[c["o"]]
        pos = 0x1000
        for m in c["m"]:
            t, e = MAC[m]
            if n == "lbl" and v is None:
                v = 0x0FFE
            body.append(" " + t.format(n))
            for x in e.split():
                exp += le(v, 2) if x == "ww" else bytes([v & 255]) if x == "b" else bytes([int(x, 16)])
        head = "#include \"ti83plus.inc\"\n .org $0FFE\nlbl: .dw lbl\n"
        if a == "plain":
            s = "\n".join(body) + "\n"
        elif a == "label":
            s = "".join("z%d:%s\n" % (i, b) for i, b in enumerate(body))
        elif a == "macro":
            s = "#macro mm\n%s\n#endmacro\n mm()\n" % "\n".join(body)
        elif a == "if":
            s = "#if 1\n%s\n#else\n%s\n#endif\n" % ("\n".join(body), "\n".join(body))
        elif a == "line":
            s = " \\".join(body) + "\n"
        elif a == "after":
            s = " nop \\%s ; c\n" % " \\".join(body)
            exp = b"\0" + exp
        elif a == "rept":
            s = "\n".join(body + body) + "\n"
            exp += exp
        elif a == "incl":
            s = "#include \"x.inc\"\n"
        else:
            s = "".join(" wr(\"%s\")\n" % b for b in body) + " run()\n"
        r = ctx.asm(head + s + "later = $7654\n .db $AA\n", files={"ti83plus.inc": text("ti83plus.inc"), "x.inc": "\n".join(body) + "\n"})
        exp = le(0x0FFE, 2) + exp + b"\xaa"
        ctx.outcome(exp)
        if not clean(r) or r.files.get("a.bin") != exp:
            return "ti83plus.inc, %r: must give %s; gives %s %s" % (s, exp.hex(" "), (r.files.get("a.bin") or b"").hex(" "), r.brief()[:300])

    def g_ext(self, c, ctx):
        X = extended()
        src = "#include \"z80ext.inc\"\n" + "".join(" %s\n" % X[k][0] for k in c["x"]) + " .db $AA\n"
        exp = b"".join(X[k][1] for k in c["x"]) + b"\xaa"
        r = ctx.asm(src, files={"z80ext.inc": text("z80ext.inc")})
        ctx.outcome(exp)
        if not clean(r) or r.files.get("a.bin") != exp:
            return "z80ext.inc, %s: must give %s; gives %s %s" % ([X[k][0] for k in c["x"]], exp.hex(" "), (r.files.get("a.bin") or b"").hex(" "), r.brief()[:300])

    def g_app(self, c, ctx):
        name = ["MyApp", "A", "Eight888", "Nine99999"][c["nm"]]
        hdr = (bytes.fromhex("800f 00000000 8012 0104 8021 01 8031 01 8048") + name.encode() + bytes([32]) * (8 - len(name)) + bytes.fromhex("808100 8090 0326090404 6f1b80 020d40 a16b99f659bc67 f585 9c 09 6c 0f b4 03 9b c9 0332 2ce0 0320 e32c f42d 73b4 27c4 a072 54b9 ea7c 3baa 16f6 77 83 7a ee 1a d4 42 4c 6b 8b 13 1f bb 93 8b fc 19 1c 3c ec 4d e5 75 807f 00000000") + bytes(16))
        src, exp = "#include \"app.inc\"\n", b""
        use, skipped, prev, err, cur = [], 0, None, None, b""
        for i, (p, s) in enumerate(zip(c["p"], c["s"])):
            n = APP_SIZES[s]
            fill = 0x11 * (i + 1)
            src += " defpage(%d%s)\n#if ($&$FFFF) < $4000\n .error \"org\"\n#endif\n .db %d\n .fill %d,%d\n" % (p, ",\"%s\"" % name if not i else "", p, n, fill)
            if i and p <= prev or not i and p != 0:
                err = "number"
            if err is None and i:
                if len(cur) > 16384:
                    err = "size"
                else:
                    use.append(len(cur))
                    exp += cur + bytes(16384 - len(cur)) + bytes(16384 * (p - prev - 1))
                    skipped += p > prev + 1
            cur = (b"" if i else hdr) + bytes([p]) + bytes([fill]) * n
            prev = p
        src += " validate()\n"
        if err is None and len(cur) > 16384:
            err = "size"
        if len(name) > 8:
            err = err or "name"
        exp += cur
        use.append(len(cur))
        r = ctx.asm(src, files={"app.inc": text("app.inc")}, timeout=20)
        ctx.outcome("app", tuple(c["p"]), err)
        if err:
            if r.crashed or r.status == 0 or not [d for d in diags(r) if d[2] == "error"]:
                return "app.inc, pages %s of %s bytes: the %s must be reported; %s" % (c["p"], [APP_SIZES[s] for s in c["s"]], err, r.brief()[:400])
            return None
        got = r.files.get("a.bin")
        if r.crashed or r.status or [l for l in r.lines() if "error" in l.lower() or "warning" in l.lower() and "Skipping page" not in l] or got != exp:
            k = next((k for k in range(min(len(got or b""), len(exp))) if got[k] != exp[k]), -1)
            return "app.inc, pages %s of %s bytes: wrong output (%s bytes, not %d; first difference at %d); %s" % (c["p"], [APP_SIZES[s] for s in c["s"]], got and len(got), len(exp), k, r.out[-600:])
        free = [16384 - u for u in use]
        want = ["Page %d free space: %d" % (p, f) for p, f in zip(c["p"], free)]
        lines = [l.strip() for l in r.lines()]
        if [l for l in lines if l.startswith("Page ")] != want or sum("Skipping" in l for l in lines) != skipped:
            return "app.inc, pages %s of %s bytes: must print %s and %d warnings of skipped pages; printed %s" % (c["p"], [APP_SIZES[s] for s in c["s"]], want, skipped, lines)
        if not any("In %d page(s), %d bytes" % (c["p"][-1] + 1, sum(free)) in l for l in lines) or not any("\"%s\" is ready" % name in l for l in lines):
            return "app.inc, pages %s: must say %d pages and %d bytes available; printed %s" % (c["p"], c["p"][-1] + 1, sum(free), lines)

    def g_rel(self, c, ctx):
        src, exp = "#include \"relocate.inc\"\n .org $100\n", b""
        pc, base, msgs = 0x100, None, 0
        for i, k in enumerate(c["h"]):
            t = REL[k]
            src += (t.format(i, i) if t[0] in " q" else " " + t) + "\n"
            if "end" in t:
                if base is None:
                    msgs += 1
                else:
                    pc = pc - base[1] + base[0]
                    base = None
            elif "relocate" in t:
                if base:
                    msgs += 1
                else:
                    new = 0x8000 if "8000" in t else 0xC001
                    base = (pc, new)
                    pc = new
            else:
                b = b"\0" if t == "nop" else b"\xc3" + le(pc, 2) if "jp" in t else bytes(3) if "fill" in t else le(pc, 2)
                exp += b
                pc += len(b)
            ctx.state("rel", pc, base)
            ctx.transition("rel", k, base is None)
        exp += le(pc, 2)
        r = ctx.asm(src + " .dw $\n", *(["-A"] if c["A"] else []), files={"relocate.inc": text("relocate.inc")})
        n = sum("You cannot nest" in l or "No relocate" in l for l in r.lines())
        ctx.outcome("rel", msgs)
        if not clean(r) and not msgs or r.files.get("a.bin") != exp or n != msgs:
            return "relocate.inc, %r: must give %s and %d messages; gives %s, %d; %s" % (src, exp.hex(" "), msgs, (r.files.get("a.bin") or b"").hex(" "), n, r.brief()[:300])

    def g_pair(self, c, ctx):
        fs = [ALLF[k] for k in c["h"]]
        if len({f for f in fs if f in SYS}) > 1:
            return None                             # alternatives: they define the same names
        src = "#define equ .equ\n#define EQU .equ\n" if any(f in NEEDS_EQU for f in fs) else ""
        src += "".join("#include \"%s\"\n" % f for f in fs) + " ld a,5\n"
        r = ctx.asm(src, *[[], ["-T"], ["-L"], ["-E"]][c["o"]], files={f: text(f) for f in fs})
        ctx.outcome("pair", tuple(fs))
        if not clean(r) or r.files.get("a.bin") != b"\x3e\x05":
            return "including %s: %s" % (fs, r.brief()[:400])


CHECK = Shipped()
