"""C27: exhaustive enumeration of bitmap files and conversion options against an independent renderer.

pack  : every width x bit depth x every position of a single dark (and of a single bright) pixel, every pattern of tiny images
opt   : every combination of the conversion options x image sizes x bit depths
shade : every grey level / every 15-bit colour / a 24-bit colour grid x every number of shades
map   : every tiling x padding x count x minimum width, with and without a label
hdr   : every header token sequence up to a length x sizes around 255
label : the labels defined by an include, and their absence
bad   : every truncation length and every unsupported value of every header field must be an error
"""
import itertools
import struct
from .. import core
from ..lib import clean, diags, le

W, K, MASKC = (255, 255, 255), (0, 0, 0), (0, 255, 0)
COLORS = [W, K, MASKC, (255, 0, 0), (0, 0, 255), (128, 128, 128), (64, 64, 64), (200, 200, 200), (30, 144, 255), (255, 255, 0), (17, 34, 51), (90, 12, 160)]
C16 = [W, K, MASKC, (255, 0, 0), (0, 0, 255), (16 * 255 // 31,) * 3, (8 * 255 // 31,) * 3, (24 * 255 // 31,) * 3]


def lum(c):
    return ((0.2126 / 255.0) * c[0]) + ((0.7152 / 255.0) * c[1]) + ((0.0722 / 255.0) * c[2])


def unsafe(c, shades):
    """the shade of this colour hangs on rounding"""
    v = (0.99 - lum(c)) * shades
    return abs(v - round(v)) < 1e-6


def shade(c, shades):
    v = 0.99 - lum(c)
    return int(v * shades) if v > 0 else 0


class Img:
    """rows of colours, top first"""

    def __init__(self, rows):
        self.rows = rows
        self.w, self.h = len(rows[0]), len(rows)

    def file(self, bits, garbage=0xFF, palette=None, used=0, tail=b"", **over):
        w, h = self.w, self.h
        pal = b""
        if bits < 16:
            cols = palette or sorted({c for r in self.rows for c in r}, reverse=True)
            n = used or 1 << bits
            assert len(cols) <= n, (len(cols), n)
            cols = list(cols) + [(1, 2, 3)] * (n - len(cols))
            pal = b"".join(bytes((c[2], c[1], c[0], 0)) for c in cols)
            idx = {}
            for i, c in enumerate(cols):
                idx.setdefault(c, i)
        row = (w * bits + 31) // 32 * 4
        data = b""
        for r in self.rows[::-1]:
            if bits < 16:
                v = 0
                for c in r:
                    v = v << bits | idx[c]
                pad = row * 8 - w * bits
                v = v << pad | (((1 << pad) - 1) & int.from_bytes(bytes([garbage]) * row, "big"))
                data += v.to_bytes(row, "big")
            else:
                b = b""
                for c in r:
                    if bits == 16:
                        v = 0
                        for x in c:
                            q = next(k for k in range(32) if k * 255 // 31 == x)
                            v = v << 5 | q
                        b += struct.pack("<H", v | (garbage & 0x80) << 8)
                    else:
                        b += bytes((c[2], c[1], c[0])) + (bytes([garbage]) if bits == 32 else b"")
                data += b + bytes([garbage]) * (row - len(b))
        off = 54 + len(pal)
        f = dict(type=b"BM", size=off + len(data), r1=0, r2=0, off=off, hsize=40, w=w, h=h, planes=1, bits=bits, comp=0, isize=len(data), xp=0, yp=0, used=used, imp=0)
        f.update(over)
        return struct.pack("<2sIHHI", f["type"], f["size"] & 0xFFFFFFFF, f["r1"], f["r2"], f["off"] & 0xFFFFFFFF) + struct.pack(
            "<IiiHHIIiiII", f["hsize"], f["w"], f["h"], f["planes"], f["bits"], f["comp"], f["isize"], f["xp"], f["yp"], f["used"], f["imp"]) + pal + data + tail


def pixels(img, x0, y0, w, h, o):
    """the bytes of one part of an image"""
    sh = o.get("shd", 2)
    minw = o.get("minw", 0)
    out = b""
    if minw > 0 and w > minw:
        for x in range(0, w, minw):
            out += pixels(img, x0 + x, y0, min(minw, w - x), h, o)
        return out
    rowbits = (max(w, minw) + 7) // 8 * 8
    val, msk = [], []
    for y in range(h):
        v, m = [0] * rowbits, [1] * rowbits
        for x in range(w):
            c = img.rows[y0 + y][x0 + x]
            if o.get("inv") == c:
                v[x] = sh - 1
            else:
                v[x] = shade(c, sh)
                m[x] = 1 if c == o.get("rgb", MASKC) else 0
        val.append(v)
        msk.append(m)

    def plane(rows, f):
        b = b""
        for r in rows:
            for i in range(0, rowbits, 8):
                n = 0
                for k in range(8):
                    n = n << 1 | f(r[i + k])
                b += bytes([n])
        return b
    image = b"".join(plane(val, lambda v: v >> p & 1) for p in reversed(range(sh.bit_length() - 1)))
    mask = plane(msk, lambda m: m ^ o.get("mskinv", 0)) if o.get("msk") else b""
    return mask + image if o.get("first") else image + mask


def part(img, x0, y0, w, h, o):
    data = pixels(img, x0, y0, w, h, o)
    head, warn = b"", 0
    if o.get("fmt"):
        for t in o["fmt"].replace(";", ",").replace("x", ",").replace(" ", ",").split(","):
            if not t:
                continue
            t = t.lower()
            n = 2 if t in ("ww", "hh", "ss") else 1
            v = {"w": w, "h": h, "s": len(data), "b": o.get("shd", 2)}[t[0]]
            warn += v >= 1 << 8 * n and n == 1
            head += le(v, n)
    return head + data, warn


def convert(img, o):
    """-> bytes, number of warnings, tiles"""
    if "map" not in o:
        b, w = part(img, 0, 0, img.w, img.h, o)
        return b, w, []
    cols, rows, count = (list(o["map"]) + [None])[:3]
    pad = o.get("pad", 0)
    w = (img.w - cols * 2 * pad) // cols
    h = (img.h - rows * 2 * pad) // rows
    out, warn, tiles = b"", 0, []
    for cx in range(cols):
        for ry in range(rows):
            if count is not None and len(tiles) == count:
                continue
            b, k = part(img, cx * (w + 2 * pad) + pad, ry * (h + 2 * pad) + pad, w, h, o)
            tiles.append(len(out))
            out += b
            warn += k
    return out, warn, (tiles, w, h)


def rgb(c, style=0):
    return "RGB(%d,%d,%d)" % c if style == 0 else "$%02X%02X%02X" % c


def defines(o, style=0):
    """style 0: #define, 1: one .option each with other spellings, 2: a single .option"""
    d = []
    for k, n in (("shd", "SHD"), ("msk", "MSK"), ("mskinv", "MSK_INV"), ("first", "MSK_1ST"), ("minw", "MIN_W"), ("pad", "PAD")):
        if k in o:
            d.append((n, str(o[k])))
    if "rgb" in o:
        d.append(("MSK_RGB", rgb(o["rgb"], style)))
    if "inv" in o:
        d.append(("INV_RGB", rgb(o["inv"], style)))
    if "fmt" in o:
        d += [("HDR", "1"), ("HDR_FMT", "\"%s\"" % o["fmt"])]
    if "map" in o:
        d.append(("MAP", "\"%s\"" % "x".join(map(str, o["map"]))))
    if style == 0:
        return "".join("%s#define __BM_%s %s\n" % ("#undefine __BM_%s\n" % n if n in ("SHD", "MSK_RGB") else "", n, v) for n, v in d)
    d = ["bm_" + n.lower() + ("=1" if v == "1" and n == "MSK" and style == 2 else "=" + v) for n, v in d]
    if not d:
        return ""
    return " .option " + ", ".join(d) + "\n" if style == 2 else "".join(" .option %s\n" % x for x in d)


def fits(colors, bits, shd):
    if bits == 16:
        colors = [c for c in colors if c in C16]
    return [c for c in colors if not unsafe(c, shd)][:2 if bits == 1 else 16 if bits == 4 else 99]


def pattern(w, h, colors, k):
    return Img([[colors[((x * 7 + y * 3 + k) ^ (x >> 2) * (y + 1)) % len(colors)] for x in range(w)] for y in range(h)])


class Bitmaps(core.Check):
    id = "C27"
    level = "exploration"
    rule = ("bitmap files of every bit depth (1,4,8,16,24,32) x widths up to a bound x every single-pixel pattern; every combination of shades, mask, mask order, mask inversion, colours, minimum width and header; every colour of the 15-bit "
            "space and every grey x shades; every tiling x padding x count; every truncation and every unsupported header field")
    assumptions = ["the shade of a pixel is the integer part of (0.99 - luminance) x shades, Rec. 709 luminance; colours whose shade hangs on the last bits of floating point are not used",
                   "palette indexes beyond the palette, and image maps that do not divide the bitmap evenly, are not modelled"]
    BITS = [1, 4, 8, 16, 24, 32]

    def bounds(self, tier):
        return {"widths": 34 if tier == "quick" else 72, "heights": 3, "map": "4x4", "shades": [1, 2, 4, 8, 16, 32, 64, 128, 256]}

    def cases(self, tier):
        q = tier == "quick"
        for bits in self.BITS:
            for w in range(1, 35 if q else 73):
                yield ["pack", bits, w]
        for w, h in ((1, 1), (2, 1), (3, 1), (8, 1), (1, 2), (2, 2), (3, 2), (4, 2), (1, 3), (2, 3), (3, 3), (1, 8), (2, 4)):
            for bits in (1, 4, 24) if q else self.BITS:
                yield ["all", bits, w, h]
        for bits in self.BITS:
            for shd in (None, 1, 2, 4, 16) if q else (None, 1, 2, 4, 8, 16, 32, 64, 128, 256):
                for minw in (None, 0, 5, 8, 12, 16):
                    yield ["opt", bits, shd, minw]
        for shd in (2, 4, 8, 16, 32, 64, 128, 256):
            for kind in ("grey1", "grey4", "grey8", "grey24", "c16", "c24"):
                yield ["shade", kind, shd]
        for cols in range(1, 5):
            for rows in range(1, 5):
                for bits in (1, 4, 24) if q else self.BITS:
                    yield ["map", cols, rows, bits]
        toks = ["w", "h", "ww", "hh", "s", "ss", "b"]
        for n in range(1, 4 if q else 5):
            for c in itertools.product(toks, repeat=n):
                if n < 4 or len(set(c)) == n:
                    yield ["hdr", *c]
        for bits in self.BITS:
            yield ["label", bits]
            for p in range(4):
                yield ["bad", bits, p]

    def go(self, ctx, what, imgs, o, bits, style=0, garbage=0xFF, used=None, label=False, tail=b"", extra=""):
        """assemble all the images in one program"""
        src, files, exp, warn = defines(o, style), {}, b"", 0
        for i, im in enumerate(imgs):
            pal = None
            u = 0
            if bits < 16:
                n = len({c for r in im.rows for c in r})
                u = used if used and used >= n else 0
            files["b%d.bmp" % i] = im.file(bits, garbage, pal, u, tail)
            src += "#include \"b%d.bmp\"\n" % i
            b, k, _ = convert(im, o)
            if "map" in o and i:
                p = dict(o)
                del p["map"]
                b, k, _ = convert(im, p)
            exp += b
            warn += k
            ctx.state((bits, im.w, im.h, tuple(sorted((a, str(b)) for a, b in o.items()))))
            ctx.transition((bits, repr(o), im.w, im.h, hash(str(im.rows))))
        if not extra:
            extra = " .dw $&$FFFF\n"
            exp += le(len(exp) & 0xFFFF, 2)
        r = ctx.asm(src + extra, files=files)
        ctx.traces += len(imgs)
        got = r.files.get("a.bin")
        if r.crashed or got is None:
            return "%s %r: rejected: %s" % (what, o, r.brief()[:400])
        if got != exp:
            p = next((k for k in range(min(len(got), len(exp))) if got[k] != exp[k]), min(len(got), len(exp)))
            return "%s %r: byte %d is %s, expected %s (%d/%d bytes): %s" % (what, o, p, got[p:p + 8].hex(), exp[p:p + 8].hex(), len(got), len(exp), r.out[:200])
        d = [x for x in diags(r) if x[2] == "warning"]
        if len(d) != warn or len(diags(r)) != warn or (r.status == 0) != (warn == 0):
            return "%s %r: %d warnings expected, exit %d: %s" % (what, o, warn, r.status, r.out[:300])
        ctx.outcome(got[:16])
        return None

    def run(self, case, ctx):
        bad = [x for x in itertools.islice((m for m in getattr(self, "f_" + case[0])(ctx, *case[1:]) if m), 4)]
        return "\n".join(bad) or None

    def f_pack(self, ctx, bits, w):
        for h in (1, 2, 3):
            imgs = []
            for a, b in ((W, K), (K, W)):
                for y in range(h):
                    for x in range(w):
                        rows = [[a] * w for _ in range(h)]
                        rows[y][x] = b
                        imgs.append(Img(rows))
            for i in range(0, len(imgs), 40):
                for g in (0, 0xFF, 0x5A):
                    yield self.go(ctx, "%d bits %dx%d" % (bits, w, h), imgs[i:i + 40], {}, bits, garbage=g, used=2 if g == 0x5A else None, tail=b"xyz" if g == 0 else b"")

    def f_all(self, ctx, bits, w, h):
        imgs = []
        for m in range(1 << w * h):
            imgs.append(Img([[K if m >> (y * w + x) & 1 else W for x in range(w)] for y in range(h)]))
        for i in range(0, len(imgs), 64):
            yield self.go(ctx, "%d bits %dx%d" % (bits, w, h), imgs[i:i + 64], {"msk": 1} if h == 2 else {}, bits)

    def f_opt(self, ctx, bits, shd, minw):
        base = {}
        if shd is not None:
            base["shd"] = shd
        if minw is not None:
            base["minw"] = minw
        n = 0
        cols = fits(COLORS, bits, shd or 2)
        for msk, mi, first in itertools.product((None, 0, 1), (None, 0, 1), (None, 0, 1)):
            for inv in (None, cols[1], cols[-1], MASKC):
                for rg in (None, cols[0], cols[1]):
                    for fmt in (None, "w,h,ss"):
                        o = dict(base)
                        for k, v in (("msk", msk), ("mskinv", mi), ("first", first), ("inv", inv), ("rgb", rg), ("fmt", fmt)):
                            if v is not None:
                                o[k] = v
                        n += 1
                        ims = [pattern(w, h, cols, n + w) for w, h in ((1, 1), (5, 2), (8, 1), (9, 3), (16, 2), (17, 1), (24, 1), (30, 2))]
                        yield self.go(ctx, "%d bits" % bits, ims, o, bits, style=n % 3)

    def f_shade(self, ctx, kind, shd):
        o = {"shd": shd}
        if kind.startswith("grey"):
            bits = int(kind[4:])
            lev = [(g, g, g) for g in range(256) if not unsafe((g, g, g), shd)]
            step = {1: 2, 4: 16, 8: 256, 24: 256}[bits]
            for i in range(0, len(lev), step * 8):
                yield self.go(ctx, kind, [Img([lev[j:j + step]]) for j in range(i, min(len(lev), i + step * 8), step)], o, bits)
        elif kind == "c16":
            v = [x * 255 // 31 for x in range(32)]
            for r in v:
                rows = [[(r, g, b) if not unsafe((r, g, b), shd) else K if not unsafe(K, shd) else W for b in v] for g in v]
                yield self.go(ctx, kind, [Img(rows)], o, 16)
        else:
            v = list(range(0, 256, 15))
            for bits in (24, 32):
                for r in v:
                    rows = [[(r, g, b) if not unsafe((r, g, b), shd) else W for b in v] for g in v]
                    yield self.go(ctx, kind, [Img(rows)], o, bits)

    def f_map(self, ctx, cols, rows, bits):
        colors = fits(COLORS, bits, 2)
        for tw, th, pad, minw in itertools.product((1, 3, 8, 9), (1, 2), (None, 0, 1, 2), (None, 8, 4)):
            p = pad or 0
            im = pattern(cols * (tw + 2 * p), rows * (th + 2 * p), colors, tw + th)
            for count in [None] + list(range(1, cols * rows + 2)):
                o = {"map": (cols, rows) + ((count,) if count is not None else ())}
                if pad is not None:
                    o["pad"] = pad
                if minw is not None:
                    o["minw"] = minw
                if count == 1:
                    o["fmt"] = "w,h,s"
                if tw == 3:
                    o["msk"] = 1
                yield self.go(ctx, "%d bits" % bits, [im, im], o, bits)
                # names of the tiles
                b, _, (tiles, w, h) = convert(im, o)
                q = dict(o)
                src = " .db 1,2,3\n" + defines(o) + "pic:\n#include \"b0.bmp\"\n"
                exp = b"\1\2\3" + b + b"".join(le(3 + t, 2) for t in tiles) + le(w, 2) + le(h, 2) + le(len(tiles), 2) + le(3, 2)
                src += "".join(" .dw pic%d\n" % (i + 1) for i in range(len(tiles))) + " .dw pic_WIDTH,pic_HEIGHT,pic_COUNT,pic\n#ifdef pic%d\n .db 99\n#endif\n" % (len(tiles) + 1)
                r = ctx.asm(src, files={"b0.bmp": im.file(bits)})
                ctx.traces += 1
                if not clean(r) or r.files.get("a.bin") != exp:
                    yield "%d bits, tile labels %r %dx%d: expected %s, got %s" % (bits, o, im.w, im.h, exp.hex(), r.brief()[:500])

    def f_hdr(self, ctx, *toks):
        sep = ",;x "[len(toks) + len(toks[0]) & 3]
        for w, h in ((1, 1), (9, 2), (255, 1), (256, 1), (257, 2), (1, 255), (1, 256), (2, 300), (2040, 1), (2048, 1)) if len(toks) < 3 else ((9, 2), (300, 1), (2, 260)):
            im = pattern(w, h, [W, K], w)
            for o in ({}, {"shd": 4}, {"msk": 1, "shd": 16}, {"minw": 16}, {"minw": 100, "msk": 1, "mskinv": 1}):
                if o.get("shd") and unsafe(K, o["shd"]):
                    continue
                for t in (toks, tuple(x.upper() for x in toks)) if len(toks) == 1 else (toks,):
                    yield self.go(ctx, "header %dx%d" % (w, h), [im], dict(o, fmt=sep.join(t)), 1, style=(w + h) % 3)

    def f_label(self, ctx, bits):
        for w, h in ((1, 1), (8, 2), (17, 3), (300, 2)):
            im = pattern(w, h, fits(COLORS, bits, 2), w)
            f = {"b0.bmp": im.file(bits)}
            b, _, _ = convert(im, {})
            progs = [("pic:\n#include \"b0.bmp\"\n .dw pic_WIDTH,pic_HEIGHT,pic\n", b + le(w, 2) + le(h, 2) + le(0, 2)),
                     (" nop\npic:\n; comment\n\n#include \"b0.bmp\"\n .dw pic_WIDTH,pic_HEIGHT,pic\n", b"\0" + b + le(w, 2) + le(h, 2) + le(1, 2)),
                     (" .org $4000\npic:\n#include \"b0.bmp\"\nq:\n .dw pic_WIDTH,pic_HEIGHT,pic,q\n", b + le(w, 2) + le(h, 2) + le(0x4000, 2) + le(0x4000 + len(b), 2)),
                     ("pic:\n nop\n#include \"b0.bmp\"\n#ifdef pic_WIDTH\n .db 1\n#endif\n#ifdef pic_HEIGHT\n .db 2\n#endif\n", b"\0" + b),
                     (" .dw pic_WIDTH\npic:\n#include \"b0.bmp\"\npic2:\n#include \"b0.bmp\"\n .dw pic2_HEIGHT,pic2,pic_HEIGHT\n", le(w, 2) + b + b + le(h, 2) + le(2 + len(b), 2) + le(h, 2)),
                     ("#include \"b0.bmp\"\npic: .db pic\n", b + le(len(b), 1))]
            for src, exp in progs:
                for opts in ([], ["-A"], ["-E"]):
                    r = ctx.asm(src, *opts, files=f)
                    ctx.traces += 1
                    ctx.transition((bits, w, h, src, opts))
                    want = exp
                    if "-E" in opts:
                        # .dw is two bytes with -E as well
                        want = exp
                    if not clean(r) or r.files.get("a.bin") != want:
                        yield "%d bits %dx%d %r: expected %s, got %s" % (bits, w, h, src, want.hex(), r.brief()[:500])

    def f_bad(self, ctx, bits, p):
        im = pattern(9, 3, fits(COLORS, bits, 2), 1)
        good = im.file(bits)

        def bad(data, what):
            for src in ("#include \"b0.bmp\"\n .db 1\n", "pic:\n#include \"b0.bmp\"\n"):
                r = ctx.asm(src, files={"b0.bmp": data})
                ctx.traces += 1
                ctx.transition((bits, what, src))
                if r.crashed or r.status in (0, 1) or not any(d[2] == "error" for d in diags(r)):
                    yield "%d bits, %s: no error: %s" % (bits, what, r.brief()[:300])
        if p == 0:
            for k in range(6, len(good)):
                yield from bad(good[:k], "cut to %d bytes" % k)
        elif p == 1:
            for f, vals in (("hsize", (0, 12, 39, 41, 64, 108, 124)), ("comp", (1, 2, 3, 4, 5, 6, 255, 1 << 16)), ("bits", (0, 2, 3, 5, 7, 9, 15, 17, 31, 33, 64, 65535)),
                            ("w", (0, -1, -9, -2147483648)), ("h", (0, -1, -3, -2147483648)), ("off", (0, 14, 53, len(good), len(good) + 1, 1 << 20, -1 & 0xFFFFFFFF)), ("used", (257, 1000, 65536, 1 << 31))):
                for v in vals:
                    if f == "off" and v == 54 and bits >= 16:
                        continue
                    yield from bad(im.file(bits)[:0] + self.patch(good, f, v), "%s=%d" % (f, v))
        elif p == 2:
            # more rows or wider rows than there are
            for f, vals in (("w", range(10, 80)), ("h", range(4, 40))):
                for v in vals:
                    if f == "w" and (v * bits + 31) // 32 == (9 * bits + 31) // 32:
                        continue
                    yield from bad(self.patch(good, f, v), "%s=%d" % (f, v))
            for v in (1000, 65535, 65536, 1 << 24, (1 << 31) - 1):
                yield from bad(self.patch(good, "w", v), "w=%d" % v)
                yield from bad(self.patch(good, "h", v), "h=%d" % v)
        else:
            for shd in (0, 3, 5, 6, 7, 9, 12, 15, 100, 255, 257, 512, 1024, 65536, 65538, -2):
                r = ctx.asm("#undefine __BM_SHD\n#define __BM_SHD %d\n#include \"b0.bmp\"\n" % shd, files={"b0.bmp": good})
                ctx.traces += 1
                if r.crashed or r.status in (0, 1):
                    yield "%d bits, %d shades: no error: %s" % (bits, shd, r.brief()[:300])
            for m in ("10x1", "1x4", "0x1", "1x0", "1", "100x100", "-1x1", "5x2"):
                for pad in (None, 1, 5):
                    if m in ("5x2",) and pad is None:
                        continue
                    r = ctx.asm("#define __BM_MAP \"%s\"\n%s#include \"b0.bmp\"\n" % (m, "" if pad is None else "#define __BM_PAD %d\n" % pad), files={"b0.bmp": good})
                    ctx.traces += 1
                    if r.crashed or r.status in (0, 1) and m != "0x1":
                        yield "%d bits, map %s, padding %s: no error: %s" % (bits, m, pad, r.brief()[:300])

    @staticmethod
    def patch(data, field, v):
        off, fmt = {"hsize": (14, "<I"), "w": (18, "<i"), "h": (22, "<i"), "bits": (28, "<H"), "comp": (30, "<I"), "used": (46, "<I"), "off": (10, "<I")}[field]
        d = bytearray(data)
        d[off:off + struct.calcsize(fmt)] = struct.pack(fmt, v)
        return bytes(d)


CHECK = Bitmaps()
