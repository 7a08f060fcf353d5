"""C16: every container type x every program size class, byte value and output name, parsed by an independent reader."""
import itertools
from .. import core
from ..lib import diags

# ext: (signature, third signature byte, layout, type id)
T = {"73P": (b"**TI73**", 0x0A, "82", 6), "82P": (b"**TI82**", 0x0A, "82", 6), "83P": (b"**TI83**", 0x0A, "82", 6), "8XP": (b"**TI83F*", 0x0A, "83p", 6), "8XV": (b"**TI83F*", 0x0A, "83p", 0x15),
     "85P": (b"**TI85**", 0x0C, "85", 0x12), "85S": (b"**TI85**", 0x0C, "85", 0x0C), "86P": (b"**TI86**", 0x0A, "86", 0x12), "86S": (b"**TI86**", 0x0A, "86", 0x0C)}
EXT = list(T)
FILL = [None, 0x00, 0xFF, 0x80, 0x01, "ramp"]
NAMES = ["a", "A", "Z9", "prog", "PROG", "pRoG1", "abcdefgh", "ABCDEFGHI", "abcdefghijkl", "sub/prog", "./prog", "sub/dir/q", "a.b", "9a", "a b", "_x", "x-1", "sub.d/prog", "../x/prog", "m\xe9", "PROG.8XP", "theta0", "sub/abcdefghij"]


def payload(ext, code):
    if ext == "82P":
        return b"\xd5\x00\x11" + code
    if ext == "83P":
        return code.hex().upper().encode() + b"?\xd4?0000?\xd4"
    if ext == "86P":
        return b"\x8e\x28" + code
    return code


def varname(ext, base):
    b = base.encode("latin-1")
    if ext == "82P":
        return (b"\xdc" + b)[:8]
    if ext in ("85P", "85S", "86P", "86S"):
        return b[:8]
    up = lambda x: bytes(c - 32 if 97 <= c <= 122 else c for c in x)
    if ext == "8XV":
        return (up(b[:1]) + b[1:])[:8]
    return up(b)[:8]


def valid(ext, base):
    if ext in ("82P", "85P", "85S", "86P", "86S"):
        return True
    return base.isalnum() and base.isascii() and base[:1].isalpha()


def parse(ext, f, code, name):
    """None, or what is wrong with the file"""
    sig, b3, lay, tid = T[ext]
    if f[:8] != sig or f[8:11] != bytes([0x1A, b3, 0]):
        return "signature %s" % f[:11].hex(" ")
    if len(f) < 57:
        return "file of %d bytes" % len(f)
    w = lambda p: f[p] | f[p + 1] << 8
    dl = w(53)
    if 55 + dl + 2 != len(f):
        return "data section length field %d, but the section has %d bytes" % (dl, len(f) - 57)
    d = f[55:-2]
    if w(len(f) - 2) != sum(d) & 0xFFFF:
        return "checksum %04X, sum of the data section %04X" % (w(len(f) - 2), sum(d) & 0xFFFF)
    w = lambda p: d[p] | d[p + 1] << 8
    n = len(name)
    if lay in ("82", "83p"):
        nl, np = 8, 5
        hl = 11 + (2 if lay == "83p" else 0)
        extra = hl - 11
    else:
        if d[5] != n:
            return "name length field %d for a name of %d characters" % (d[5], n)
        nl, np = (n if lay == "85" else 8), 6
        hl = 6 + n if lay == "85" else 12
        extra = 0
    if w(0) != hl:
        return "entry header length field %d instead of %d" % (w(0), hl)
    if d[4] != tid:
        return "type %02X" % d[4]
    if d[np:np + nl] != name.ljust(nl, b"\0"):
        return "name %r instead of %r" % (d[np:np + nl], name)
    p = np + nl
    if d[p:p + extra] != bytes(extra):
        return "version and flag %s" % d[p:p + extra].hex(" ")
    p += extra
    body = d[p + 2:]
    if w(2) != len(body) or w(p) != len(body):
        return "variable length fields %d and %d, but the variable has %d bytes" % (w(2), w(p), len(body))
    pl = body[2:]
    if body[0] | body[1] << 8 != len(pl):
        return "inner length field %d for %d bytes" % (body[0] | body[1] << 8, len(pl))
    if pl != payload(ext, code):
        return "payload of %d bytes %s.. instead of %d bytes %s.." % (len(pl), pl[:20].hex(" "), len(payload(ext, code)), payload(ext, code)[:20].hex(" "))


class TI(core.Check):
    id = "C16"
    level = "exploration"
    rule = ("9 container types x both processors x every program size 0..N and every size around the 8-, 15- and 16-bit boundaries of each length field x fill patterns (checksum carries), every byte value at every position of a "
            "short program, every pair of first two bytes from a boundary set, output names (case, length, characters, directories); each file is parsed by an independent reader that recomputes every length, the checksum, name and payload")
    assumptions = ["the entry header length of the unpadded TI-85 form is 6 plus the name length, as the 85P writer has it", "a variable that does not fit 64 KB can't be represented and must be reported instead"]

    def cases(self, tier):
        small = range(0, 130) if tier == "quick" else range(0, 1100)
        for e in range(9):
            for n in small:
                yield {"g": "size", "e": e, "n": n, "f": n % 6, "ez": (n + e) & 1}
        edges = sorted({b + d for b in (256, 512, 12284, 24576, 32768, 65536, 49152, 32764, 65536 // 2 - 6) for d in range(-24, 8)})
        for e in range(9):
            for n in edges:
                for f in (1, 2, 5) if tier == "quick" else range(6):
                    yield {"g": "size", "e": e, "n": n, "f": f, "ez": (n >> 1) & 1}
            for n in (65537, 70000, 100000, 200000):
                yield {"g": "size", "e": e, "n": n, "f": 5, "ez": n & 1}
        for e in range(9):
            for b in range(256):
                yield {"g": "byte", "e": e, "b": b, "ez": b & 1}
            for i, nm in enumerate(NAMES):
                for ez in (0, 1):
                    yield {"g": "name", "e": e, "i": i, "ez": ez}
        hs = [0, 0xBB, 0xEF, 0x6D, 0x69, 0x7B, 0xFF, 1]
        for a, b in itertools.product(hs, repeat=2):
            for ez in (0, 1):
                for e in range(9):
                    yield {"g": "head", "e": e, "a": a, "b": b, "ez": ez}
        # checksum: number of FF bytes at which the 16-bit sum wraps
        for e in range(9):
            for n in range(250, 262 if tier == "quick" else 800):
                for v in (0xFF, 0xFE, 0x81):
                    yield {"g": "sum", "e": e, "n": n, "v": v, "ez": n & 1}

    def code(self, e, n, f, ez):
        h = (b"\xef\x7b" if ez else b"\xbb\x6d")[:n]
        n -= len(h)
        f = FILL[f]
        if f is None:
            return h + bytes(n), " .db %s\n%s" % (",".join(map(str, h)), " .fill %d\n" % n if n else "") if h else ""
        if f == "ramp":
            k = n // 7
            r = bytes([1, 0x7F, 0x80, 0xC3, 0x5A, 0xFE, 0])
            src = ""
            body = b""
            for i in range(7):
                m = k if i < 6 else n - 6 * k
                body += r[i:i + 1] * m
                src += " .fill %d,%d\n" % (m, r[i])
            return h + body, (" .db %s\n" % ",".join(map(str, h)) if h else "") + src
        return h + bytes([f]) * n, (" .db %s\n" % ",".join(map(str, h)) if h else "") + " .fill %d,%d\n" % (n, f)

    def run(self, c, ctx):
        e, ez = c["e"], c["ez"]
        ext = EXT[e]
        base = "prog"
        out = base + "." + (ext if (e + ez) & 1 else ext.lower())
        g = c["g"]
        if g == "size":
            code, src = self.code(e, c["n"], c["f"], ez)
            src = (" .org $9D93\n" if c["n"] & 1 else "") + src
        elif g == "byte":
            code = (b"\xef\x7b" if ez else b"\xbb\x6d") + bytes([c["b"], c["b"] ^ 0x55, 1, c["b"]])
            src = " .db %s\n" % ",".join(map(str, code))
        elif g == "head":
            code = bytes([c["a"], c["b"], 0xC9])
            src = " .db %s\n" % ",".join(map(str, code))
        elif g == "sum":
            code = (b"\xef\x7b" if ez else b"\xbb\x6d") + bytes([c["v"]]) * c["n"]
            src = " .db %d,%d\n .fill %d,%d\n" % (code[0], code[1], c["n"], c["v"])
        else:
            nm = NAMES[c["i"]]
            out = nm + "." + (ext if ez else ext.lower())
            base = nm.rsplit("/", 1)[-1]
            code = b"\xef\x7b\xc9" if ez else b"\xbb\x6d\xc9"
            src = " .db %d,%d\n ret\n" % (code[0], code[1])
        files = {"a.asm": src, "sub/dir/k": "", "sub.d/k": "", "x/k": ""}
        args = ["-N"] + (["-E"] if ez else []) + ["a.asm", out]
        if out.startswith("../x/"):
            # same place spelled through the parent directory
            args[-1] = "x/" + out
        r = ctx.exec(args, files)
        got = {k: v for k, v in r.files.items()}
        key = args[-1].replace("./", "", 1) if args[-1].startswith("./") else args[-1]
        key = {"x/../x/" + base + out[len("../x/" + base):]: "x/" + base + out[len("../x/" + base):]}.get(key, key)
        try:
            key = key.encode("latin-1").decode("latin-1")
        except UnicodeError:
            pass
        f = got.get(key)
        ctx.outcome(ext, len(code), sum(code) & 0xFFFF, out, ez)
        d = diags(r)
        if r.crashed:
            return "%s: %s" % (args, r.brief()[:300])
        size = len(payload(ext, code)) + 2
        if size + {"82": 15, "83p": 17, "85": 8 + len(varname(ext, base)), "86": 16}[T[ext][2]] > 65535:
            # a length field of the file can't hold it
            if r.status == 0 or not d:
                return "%s: %d bytes don't fit the format, which isn't reported: %s" % (args, len(code), r.brief()[:200])
            return
        if f is None:
            return "%s: no output: %s" % (args, r.brief()[:300])
        bad = parse(ext, f, code, varname(ext, base))
        if bad:
            return "%s with %d bytes of code: %s" % (" ".join(args), len(code), bad)
        if any(sv == "error" for _, _, sv, _ in d) or r.status not in (0, 1):
            return "%s: %s" % (args, r.brief()[:300])
        head = code[:2]
        ok = valid(ext, base) and (size <= 24575 or ez) and (ext != "8XP" or head in ((b"\xef\x7b",) if ez else (b"\xbb\x6d", b"\xef\x69")))
        if ok and (r.status or d):
            return "%s: diagnostics on a valid program: %s" % (args, r.brief()[:300])
        if not ok and (r.status == 0) == bool(d):
            return "%s: status and diagnostics disagree: %s" % (args, r.brief()[:300])


CHECK = TI()
