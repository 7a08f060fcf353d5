"""C17: every output size class, byte value and output name, decoded by an independent reader."""
import itertools
from .. import core
from ..lib import diags

PAGE = 0x4000
ROM = 512 * 1024
EXT = ["bin", "hex", "rom"]
UNK = ["xyz", "asm", "b", "binx", "8x", "8xpp", "he", "hexx", "rom2", "73", "lst1", "bi", "9xp", "81p", "8xq", "8yp", "a b", "-"]
ALLK = ["73P", "82P", "83P", "8XP", "8XV", "85P", "86P", "85S", "86S", "ROM", "HEX", "BIN"]


def readhex(f):
    """(bytes, problem)"""
    try:
        t = f.decode("ascii")
    except UnicodeDecodeError:
        return None, "not ASCII"
    if not t.endswith(":00000001FF") and not t.endswith(":00000001FF\r\n"):
        return None, "no end record"
    out = bytearray()
    page, addr = None, None
    ended = False
    for n, l in enumerate(t.split("\r\n")):
        if l == "" and ended:
            continue
        if ended or not l.startswith(":") or len(l) < 11 or len(l) % 2 == 0 or not all(c in "0123456789ABCDEF" for c in l[1:]):
            return None, "malformed record %r" % l[:60]
        b = bytes.fromhex(l[1:])
        if len(b) != b[0] + 5:
            return None, "record length in %r" % l[:60]
        if sum(b) & 255:
            return None, "checksum of record %r" % l[:60]
        a, ty, d = b[1] << 8 | b[2], b[3], b[4:-1]
        if ty == 1:
            if d or a:
                return None, "end record %r" % l
            ended = True
        elif ty == 2:
            if a or len(d) != 2:
                return None, "page record %r" % l
            p = d[0] << 8 | d[1]
            if p != (0 if page is None else page + 1):
                return None, "page %d after %s" % (p, page)
            if page is not None and addr != 0x8000:
                return None, "page %d has only %d bytes" % (page, addr - PAGE)
            page, addr = p, PAGE
        elif ty == 0:
            if page is None or a != addr or not d or addr + len(d) > 0x8000 or len(d) > 32:
                return None, "data record %r at page %s, address %s" % (l[:40], page, addr)
            out += d
            addr += len(d)
        else:
            return None, "record type %d" % ty
    if page is not None and addr == PAGE:
        return None, "empty page %d" % page
    return bytes(out), None


def check_file(kind, f, code):
    if kind == "hex":
        b, p = readhex(f)
        if p:
            return p
    else:
        b = f
        if kind == "rom" and len(code) < ROM:
            code = code + b"\xff" * (ROM - len(code))
    if b != code:
        i = next((i for i in range(min(len(b), len(code))) if b[i] != code[i]), min(len(b), len(code)))
        return "%d bytes instead of %d, the first difference is at %d" % (len(b), len(code), i)


def ramp(n):
    """(source, bytes): n bytes in which neighbouring lines, pages and blocks differ"""
    src, out = [], []
    total, i = 0, 0
    step = max(1, n // 23)
    while total < n:
        k = min(step + i % 5, n - total)
        v = (i * 37 + 11) & 255
        src.append(" .fill %d,%d\n" % (k, v))
        out.append(bytes([v]) * k)
        total += k
        i += 1
    return "".join(src), b"".join(out)


class Out(core.Check):
    id = "C17"
    level = "exploration"
    rule = ("BIN/HEX/ROM x every size 0..300 and every size around each multiple of the 32-byte record and the 16 KB page up to the 8 MB limit x fill patterns; every byte value; every letter case of every extension; "
            "unknown and missing extensions and names with dots in directories; origins and .seek; decoded by an independent Intel-HEX reader that checks lengths, addresses, paging and checksums")
    assumptions = ["an image over 512 KB written as ROM has all its bytes and no padding"]

    def cases(self, tier):
        for e in range(3):
            for n in range(0, 300 if tier == "quick" else 2100):
                yield {"g": "size", "e": e, "n": n, "p": n % 3}
        pages = list(range(1, 9)) + [15, 16, 17, 31, 32, 33] if tier == "quick" else list(range(1, 70))
        for e in range(3):
            for k in pages:
                for d in (range(-34, 35) if k < 4 else (-33, -32, -31, -1, 0, 1, 31, 32, 33)):
                    if 0 < k * PAGE + d:
                        yield {"g": "size", "e": e, "n": k * PAGE + d, "p": 2}
            for n in (ROM - 1, ROM, ROM + 1, 254 * PAGE, 255 * PAGE + 1, 256 * PAGE, 256 * PAGE + 1, 257 * PAGE, 258 * PAGE + 7, 400 * PAGE, 7999999, 8000000):
                yield {"g": "size", "e": e, "n": n, "p": 2}
        for e in range(3):
            for b in range(256):
                yield {"g": "byte", "e": e, "b": b}
            for o in range(6):
                yield {"g": "org", "e": e, "o": o}
        for i in range(len(ALLK)):
            for m in range(8):
                yield {"g": "case", "i": i, "m": m}
        for i in range(len(UNK)):
            for m in range(4):
                yield {"g": "unknown", "i": i, "m": m}
        for i in range(16):
            yield {"g": "noext", "i": i}

    def run(self, c, ctx):
        g = c["g"]
        if g == "size":
            e, n = EXT[c["e"]], c["n"]
            src, code = ramp(n) if c["p"] == 2 else (" .fill %d,%d\n" % (n, 255 * c["p"]), bytes([255 * c["p"]]) * n)
            return self.one(ctx, src, code, e, "o." + e, "%d bytes" % n)
        if g == "byte":
            e, b = EXT[c["e"]], c["b"]
            code = bytes([b] * 33 + [b ^ 255, b, 13, 10, 26, 0])
            return self.one(ctx, " .fill 33,%d\n .db %s\n" % (b, ",".join(map(str, code[33:]))), code, e, "o." + e.upper(), "byte %d" % b)
        if g == "org":
            e = EXT[c["e"]]
            src, code = [(" .org $4000\n .db 1,2\n .org $9d95\n .dw $\n", b"\1\2\x95\x9d"), (" .seek 5\n .db 1\n", b"\0\0\0\0\0\1"), (" .db 1,2,3\n .seek 1\n .db 9\n .seek 3\n", b"\1\x09\3"),
                         (" .org $c000\n .fill $4001,7\n .db 8\n", b"\7" * 0x4001 + b"\x08"), ("l: .dw e,l\ne:\n", b"\4\0\0\0"), ("; nothing\n", b"")][c["o"]]
            return self.one(ctx, src, code, e, "o." + e, repr(src))
        if g == "case":
            x = ALLK[c["i"]]
            name = "".join(ch.lower() if c["m"] >> q & 1 else ch for q, ch in enumerate(x))
            code = b"\xbb\x6d\xc9"
            src = " .db $bb,$6d\n ret\n"
            if x.lower() in EXT:
                return self.one(ctx, src, code, x.lower(), "o." + name, "extension " + name)
            a = ctx.exec(["-N", "a.asm", "o." + x], {"a.asm": src})
            b = ctx.exec(["-N", "a.asm", "o." + name], {"a.asm": src})
            ctx.outcome(name)
            fa, fb = a.files.get("o." + x), b.files.get("o." + name)
            if fa is None or fa != fb or a.status != b.status or fa == code or not fa.startswith(b"**TI"):
                return "extension %s: %s / %s: %s" % (x, a.brief()[:200], name, b.brief()[:200])
            return
        code, src = b"\1\2\3\xc9", " .db 1,2,3\n ret\n"
        if g == "unknown":
            name = ["o.%s", "sub/o.%s", "o.bin.%s", "./o.%s"][c["m"]] % UNK[c["i"]]
            r = ctx.exec(["-N", "a.asm", name], {"a.asm": src, "sub/k": ""})
            ctx.outcome(name)
            f = r.files.get(name[2:] if name.startswith("./") else name)
            if r.crashed or f != code or r.status != 1 or not any(sv == "warning" for _, _, sv, _ in diags(r)):
                return "unknown extension %s must warn and write a binary: %s" % (name, r.brief()[:300])
            return
        name = ["out", "OUT", "o", "bin", "hex", "sub/out", "./out", "sub.d/out", "../x/out", "sub.hex/out", "sub.8xp/hex", "8xp", "./sub.rom/rom", "x/../out", ".hidden", "sub/.hid"][c["i"]]
        pre = ""
        if name.startswith("../"):
            name = "sub/" + name
        r = ctx.exec(["-N", "a.asm", name], {"a.asm": src, "sub/k": "", "sub.d/k": "", "x/k": "", "sub.hex/k": "", "sub.8xp/k": "", "sub.rom/k": ""})
        ctx.outcome(name)
        import posixpath
        f = r.files.get(posixpath.normpath(name))
        hid = "hid" in name
        if r.crashed or f != code or (not hid and (r.status or diags(r))) or r.status not in (0, 1):
            return "output name %s without extension must give a binary: %s" % (name, r.brief()[:300])

    def one(self, ctx, src, code, kind, name, what):
        r = ctx.exec(["-N", "a.asm", name], {"a.asm": src}, timeout=20000)
        ctx.outcome(kind, len(code), name, code[:8], code[-8:])
        if r.crashed or r.status != 0 or diags(r) or name not in r.files:
            return "%s -> %s: %s" % (what, name, r.brief()[:300])
        bad = check_file(kind, r.files[name], code)
        if bad:
            return "%s -> %s: %s" % (what, name, bad)


CHECK = Out()
