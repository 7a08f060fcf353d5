"""C18: every application image of a stated family, read back and verified with the public key."""
import hashlib, itertools
from .. import core
from ..lib import diags
from .c17_output import readhex, PAGE

N = int.from_bytes(bytes.fromhex("AD2431DA2297E4175EAC61A3154FA3D84711579 4DD330AB7FF36BA59FEDA195FEA7C1674 3BD7BCED8A0DA885E5E5C34D5BF20D0AB3EF918 1ED39BA2C4D898E87".replace(" ", "")), "little")
LEN = bytes([0x80, 0x0F, 0, 0, 0, 0])
TYPE = bytes([0x80, 0x12, 1, 4])
PAGES = bytes([0x80, 0x81, 0])
GEN, BUILD, SPLASH = bytes([0x80, 0x21, 1]), bytes([0x80, 0x31, 2]), bytes([0x80, 0x90])
TAIL = bytes([0x03, 0x26, 9, 4, 4, 6, 0x1B, 0x80, 0x02, 0x0D, 0x40] + [0x5A] * 13 + [0x80, 0x70])


def name(s):
    s = s if isinstance(s, bytes) else s.encode("latin-1")
    return bytes([0x80, 0x40 | len(s)]) + s


def fields(img):
    """first occurrence of every 80xx field after the length field: id nibble pair -> (offset, data)"""
    f, p = {}, 6
    while img[p:p + 1] == b"\x80" and p + 1 < len(img):
        k = img[p + 1]
        if p + 2 + (k & 15) > len(img):
            break
        f.setdefault(k, (p + 2, img[p + 2:p + 2 + (k & 15)]))
        p += 2 + (k & 15)
    return f


def sized(head, n, seed):
    """an image of n bytes with that header; its content depends on seed"""
    out = bytearray(head)
    rest = n - len(head)
    assert rest >= 0
    i = 0
    src = [" .db %s\n" % ",".join("$%02X" % b for b in head[k:k + 24]) for k in range(0, len(head), 24)]
    step = max(1, rest // 7)
    while rest:
        k = min(step + i % 3, rest)
        v = (seed + i * 41 + (seed >> 8)) & 255
        src.append(" .fill %d,%d\n" % (k, v))
        out += bytes([v]) * k
        rest -= k
        i += 1
    return "".join(src), bytes(out)


def verify(f, img, nm):
    """(problem, class)"""
    if f[:8] != b"**TIFL**" or f[8:10] != b"\1\1" or len(f) < 78:
        return "header %s" % f[:16].hex(), None
    nl = min(8, len(nm))
    if f[16] != nl or f[17:25] != nm[:8].ljust(8, b"\0"):
        return "name length %d, name %r instead of %r" % (f[16], f[17:25], nm[:8]), None
    if f[25:48] != bytes(23) or f[48] != 0x73 or f[49] != 0x24 or f[50:74] != bytes(24):
        return "header device and type fields %s" % f[25:74].hex(), None
    dl = int.from_bytes(f[74:78], "little")
    if dl != len(f) - 78:
        return "data length field %d, but %d bytes follow" % (dl, len(f) - 78), None
    b, p = readhex(f[78:])
    if p:
        return p, None
    n = len(img)
    exp = bytearray(img)
    exp[2:6] = (n - 6).to_bytes(4, "big")
    exp[fields(img)[0x81][0]] = (n + PAGE - 1) // PAGE
    if len(b) != n + 96:
        return "%d bytes in the file instead of image %d + signature 96" % (len(b), n), None
    if b[:n] != exp:
        i = next(i for i in range(n) if b[i] != exp[i])
        return "image byte %d is %02X instead of %02X" % (i, b[i], exp[i]), None
    s = b[n:]
    k = s[2]
    if s[:2] != b"\x02\x2d" or k > 64:
        return "signature field %s" % s[:3].hex(), None
    x = int.from_bytes(s[3:3 + k], "little")
    q = 3 + k
    if s[q] == 0:
        fl, q = 0, q + 1
    elif s[q] == 1:
        fl, q = s[q + 1], q + 2
    else:
        return "signature factor field %s" % s[q:q + 2].hex(), None
    if fl > 3 or any(z != 0xFF for z in s[q:]):
        return "signature factor %d, padding %s" % (fl, s[q:].hex()), None
    m = int.from_bytes(hashlib.md5(bytes(exp)).digest(), "little") * 256 + 1
    if x >= N or x * x % N != (N - 2 * m, N - m, m, 2 * m)[fl] % N:
        return "the signature (factor %d) does not verify" % fl, None
    return None, (fl, k)


STD = LEN + TYPE + GEN + BUILD + name("Appl") + PAGES + SPLASH + TAIL
PARTS = {"T": TYPE, "P": PAGES, "N": name("Name12"), "G": GEN, "S": SPLASH}
NAMES = ["", "A", "ab", "Zoo", "abcd", "12345", "a b c ", "Seven_7", "EightChr", "NineChars", "TenLetters", "x" * 11, "abcdefghijkl", b"\x00\xff\x80A", b"\xc1pp\x00", b"\x80\x81\x05\x80"]


class Apps(core.Check):
    id = "C18"
    level = "exploration"
    rule = ("application images: every size around the 32-byte record, page and signature-room boundaries for 1..n pages; many contents so that all four signature factors and shortened signatures occur; all orders and all subsets of header fields; "
            "names of every length; every wrong value of each required header byte; read back by an independent 8XK reader that recomputes the MD5 and checks the Rabin signature against the shareware key")
    assumptions = ["field size nibbles 0..C; at most 255 pages; the name field copies at most 8 characters"]

    def cases(self, tier):
        q = tier == "quick"
        for n in range(0, 400 if q else 4096):
            yield {"g": "content", "n": len(STD) + n % 67, "s": n}
        for n in range(len(STD), 300 if q else 1400):
            yield {"g": "size", "n": n}
        for k in (range(1, 5) if q else range(1, 33)):
            ds = set(range(-1130, 1060, 61)) | set(range(-130, 4 if k > 2 else 34)) | {925, 926, 927, 928, 929, 930}
            for d in sorted(ds):
                yield {"g": "size", "n": k * PAGE + d}
        for n in (20 * PAGE, 64 * PAGE + 5000, 255 * PAGE - 2000):
            yield {"g": "size", "n": n}
        for i in range(len(NAMES)):
            for o in range(3):
                yield {"g": "name", "i": i, "o": o}
        for r in range(6):
            for perm in itertools.permutations("TPNGS", r):
                yield {"g": "fields", "p": "".join(perm)}
        for i in range(12):
            for x in range(256):
                yield {"g": "byte", "i": i, "x": x}
        for z in range(0, 13):
            for w in range(16):
                if w not in (1, 4, 8):
                    yield {"g": "extra", "z": z, "w": w}
        for n in range(0, len(STD)):
            yield {"g": "short", "n": n}
        for i in range(8):
            yield {"g": "out", "i": i}

    def run(self, c, ctx):
        g = c["g"]
        nm = b"Appl"
        if g == "content":
            src, img = sized(STD, c["n"], c["s"] * 7919)
        elif g == "size":
            src, img = sized(STD, c["n"], c["n"])
        elif g == "name":
            nm = NAMES[c["i"]]
            nm = nm if isinstance(nm, bytes) else nm.encode()
            h = [LEN + TYPE + name(nm) + PAGES, LEN + name(nm) + PAGES + TYPE + TAIL, LEN + PAGES + GEN + TYPE + SPLASH + name(nm)][c["o"]]
            src, img = sized(h, 200, c["i"])
        elif g == "fields":
            src, img = sized(LEN + b"".join(PARTS[k] for k in c["p"]), 150, len(c["p"]))
            nm = b"Name12"
        elif g == "byte":
            base = LEN + TYPE + PAGES + name("Appl") + SPLASH
            pos = [0, 1, 2, 5, 6, 7, 8, 9, 10, 11, 12, 13][c["i"]]
            h = bytearray(base)
            h[pos] = c["x"]
            if pos in (7, 11, 14) and h[pos] & 15 > 12:
                return
            src, img = sized(bytes(h), 150, c["x"])
        elif g == "extra":
            k = c["w"] << 4 | c["z"]
            src, img = sized(LEN + bytes([0x80, k]) + bytes([0x80, 0x81, 0x80, 0x12, 0x80, 0x41, 1, 4, 2, 0x80, 7, 0x80][:c["z"]]) + TYPE + PAGES + name("Appl"), 150, k)
        elif g == "short":
            img = STD[:c["n"]]
            src = " .db %s\n" % ",".join(map(str, img)) if img else "; nothing\n"
        else:
            src, img = sized(STD, 500, c["i"])
        out = ["o.8xk", "O.8XK", "sub/o.8Xk", "longoutputname.8xk", "x.8xk", "9.8xK", "a.b.8xk", "./o.8xk"][c["i"]] if g == "out" else "o.8xk"
        r = ctx.exec(["-N", "a.asm", out], {"a.asm": src, "sub/k": ""}, timeout=20000)
        out = out.replace("./", "")
        # what a valid image is, by an independent reading
        n = len(img)
        f = fields(img)
        nf = [k for k in f if k & 0xF0 == 0x40]
        why = None
        if img[:2] != b"\x80\x0f":
            why = "length"
        elif 0x12 not in f or f[0x12][1] != b"\1\4":
            why = "type"
        elif 0x81 not in f:
            why = "pages"
        elif not nf:
            why = "name"
        elif (n + 95) // PAGE != (n - 1) // PAGE:
            why = "signature"
        sv = [d[2] for d in diags(r)]
        ctx.outcome(g, why, n, r.status)
        if r.crashed:
            return "%s: %s" % (c, r.brief()[:300])
        if why:
            if r.status not in (2, 3) or "error" not in sv or r.files.get(out):
                return "an image of %d bytes with no valid %s must be an error: %s" % (n, why, r.brief()[:300])
            return
        if g in ("byte", "extra", "fields"):
            nm = f[nf[0]][1] if len(nf) == 1 else None
            if nm is None:
                first = min(nf, key=lambda k: f[k][0])
                nm = f[first][1]
        small = n > PAGE and 0 < (n + 96) % PAGE < 1024 or (n + 96) // PAGE and 0 < (n + 96) % PAGE < 1024
        if small and (r.status != 1 or sv != ["warning"]) or not small and (r.status or sv):
            return "a valid image of %d bytes: %s" % (n, r.brief()[:300])
        bad, cl = verify(r.files.get(out, b""), img, nm)
        if bad:
            return "a valid image of %d bytes (%s): %s" % (n, c, bad)
        ctx.outcome("class", cl)


CHECK = Apps()
