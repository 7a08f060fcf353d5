"""Shared oracles helpers."""
import re

DIAG = re.compile(r"^(?:(.*?)(?::(-?\d+))?: )?(error|warning)( SE\d+| SW\d+)?: (.*)$", re.I)


def diags(r):
    """[(file, line, severity, message)] of every reported diagnostic"""
    out = []
    for l in r.lines():
        m = DIAG.match(l)
        if m:
            out.append((m.group(1), int(m.group(2)) if m.group(2) else None, m.group(3).lower(), m.group(5)))
    return out


def reported(r):
    """did the run report any problem (console text or exit status)?"""
    return bool(diags(r)) or r.status != 0


def clean(r):
    return not r.crashed and r.status == 0 and not diags(r)


def le(v, n):
    return bytes((v >> (8 * i)) & 255 for i in range(n))


def s32(v):
    v &= 0xFFFFFFFF
    return v - (1 << 32) if v & 0x80000000 else v


def listing_of(items, i, n=3):
    return " / ".join(t.strip() for t, _ in items[max(0, i - n):i + 1])


def check_items(ctx, items, opts=(), head="", tail="", files=None, what="", out="a.bin", headbytes=b""):
    """items: [(source text incl. newline, expected bytes)]. Assemble once; the output must be exactly the
    concatenation, with exit status 0 and no diagnostics."""
    src = head + "".join(t for t, _ in items) + tail
    r = ctx.asm(src, *opts, files=files or {}, out=out)
    exp = headbytes + b"".join(b for _, b in items)
    got = r.files.get(out)
    if clean(r) and got == exp:
        return None
    if got is None or r.crashed:
        d = diags(r)
        bad = ""
        if d and d[0][1]:
            ln = head.count("\n")
            for t, _ in items:
                if ln + 1 <= d[0][1] <= ln + t.count("\n"):
                    bad = t.strip()
                ln += t.count("\n")
        return "%s: valid program rejected%s: %s" % (what, " at %r" % bad if bad else "", r.brief()[:500])
    if got != exp:
        p = next((k for k in range(min(len(got), len(exp))) if got[k] != exp[k]), min(len(got), len(exp)))
        q = len(headbytes)
        for i, (t, b) in enumerate(items):
            if q + len(b) > p or (i == len(items) - 1):
                return "%s: %r must give %s but the output has %s (offset %d, sizes %d/%d)%s" % (
                    what, t.strip(), b.hex(" "), got[q:q + len(b) + 4].hex(" "), p, len(exp), len(got),
                    "; console: %r" % "\n".join(r.lines())[:200] if not clean(r) else "")
            q += len(b)
        return "%s: output differs at offset %d: %s / %s" % (what, p, exp[p:p + 8].hex(" "), got[p:p + 8].hex(" "))
    return "%s: diagnostics or status on a valid program: %s" % (what, r.brief()[:500])
