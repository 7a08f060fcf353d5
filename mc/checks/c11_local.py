"""C11: every short sequence of anonymous labels and references, against a model that counts labels."""
import itertools
from .. import core
from ..lib import clean, diags, le

# reference -> distance from the last label passed (0 = the closest one before)
REFS = [("_", 1), ("+_", 1), ("++_", 2), ("+++_", 3), ("-_", 0), ("--_", -1), ("---_", -2)]
DEFS = ["_", "_:", "_ nop", "_: nop", "_: .db 1,2", "_\tnop \\ nop"]
DSIZE = [0, 0, 1, 1, 2, 2]
DBYTE = [b"", b"", b"\0", b"\0", b"\1\2", b"\0\0"]
# operand kinds: text, size, bytes(value, address of the statement)
KINDS = [
    (" .dw %s", 2, lambda v, a: le(v, 2)), (" jp %s", 3, lambda v, a: b"\xc3" + le(v, 2)), (" jr %s", 2, lambda v, a: b"\x18" + le(v - a - 2, 1)),
    (" ld hl,%s", 3, lambda v, a: b"\x21" + le(v, 2)), (" call z,%s", 3, lambda v, a: b"\xcc" + le(v, 2)), (" ld a,(%s)", 3, lambda v, a: b"\x3a" + le(v, 2)),
    (" djnz %s", 2, lambda v, a: b"\x10" + le(v - a - 2, 1)), (" .dl %s", 3, lambda v, a: le(v, 3)), (" jr nc,%s", 2, lambda v, a: b"\x30" + le(v - a - 2, 1)),
    (" .db 7,(%s)&255", 2, lambda v, a: b"\7" + le(v, 1)), (" ld ix,%s", 4, lambda v, a: b"\xdd\x21" + le(v, 2)), (" ld (%s),bc", 4, lambda v, a: b"\xed\x43" + le(v, 2)),
    (" ld (ix+(%s)&15),1", 4, lambda v, a: b"\xdd\x36" + le(v & 15, 1) + b"\1"), (" .dw 1,%s", 4, lambda v, a: b"\1\0" + le(v, 2)),
    (" .dw %s ; _", 2, lambda v, a: le(v, 2)), (" nop\\ .dw %s\\ nop", 4, lambda v, a: b"\0" + le(v, 2) + b"\0"), (" jp\tm,%s", 3, lambda v, a: b"\xfa" + le(v, 2)),
    (" mw(%s)", 2, lambda v, a: le(v, 2)), (" mx(%s,1)", 4, lambda v, a: b"\x21" + le(v, 2) + b"\1"),
]
# expression contexts: text with @ for the reference, value; none may sit where a sign would change the direction
CTX = [("@", lambda v: v), ("@+5", lambda v: v + 5), ("@-1", lambda v: v - 1), ("(@)", lambda v: v), ("5+(@)", lambda v: 5 + v), ("~(@)", lambda v: ~v),
       ("2*(@)", lambda v: 2 * v), ("@*2", lambda v: v * 2), ("(@+1)*2", lambda v: (v + 1) * 2), ("-(@)", lambda v: -v), ("@ + 3", lambda v: v + 3),
       ("@+@", lambda v: v + v), ("(@)-(@)", lambda v: 0), ("10-(@)", lambda v: 10 - v), ("@|$100", lambda v: v | 256), ("(@<<1)+1", lambda v: (v << 1) + 1),
       ("idd(@)", lambda v: v), ("1+idd(@)", lambda v: 1 + v), ("@&$ff", lambda v: v & 255), ("5*@", lambda v: 5 * v), ("~@", lambda v: ~v), ("1+ @", lambda v: 1 + v), ("( @ )", lambda v: v)]
# spelled out: sign, operator and direction in one
SPEC = [("5-_", lambda n: 5 - n(1)), ("5+-_", lambda n: 5 + n(0)), ("5--_", lambda n: 5 - n(0)), ("5+_", lambda n: 5 + n(1)), ("5++_", lambda n: 5 + n(1)),
        ("5+++_", lambda n: 5 + n(2)), ("5---_", lambda n: 5 - n(-1)), ("--_--_", lambda n: n(-1) - n(0)), ("_-_", lambda n: n(1) - n(1)), ("_--_", lambda n: n(1) - n(0)),
        ("-_-_", lambda n: n(0) - n(1)), ("++_-_", lambda n: n(2) - n(1)), ("++_+-_", lambda n: n(2) + n(0)), ("~-_", lambda n: ~n(0)), ("-(-_)", lambda n: -n(0)),
        ("2*-_", lambda n: 2 * n(0)), ("2*++_", lambda n: 2 * n(2)), ("(_)-(-_)", lambda n: n(1) - n(0)), ("_a", lambda n: 77), ("-_a", lambda n: -77), ("5-_a", lambda n: 5 - 77),
        ("+_a", lambda n: 77), ("-_>-1", lambda n: int(n(0) > -1)), ("_=_", lambda n: int(n(1) == n(1))), ("_==++_", lambda n: int(n(1) == n(2))), ("5-_+1", lambda n: 5 - n(1) + 1), ("2*_-_", lambda n: 2 * n(1) - n(1)),
        ("__", lambda n: 88), ("-__", lambda n: -88), ("_+__", lambda n: n(1) + 88), ("'_'+_", lambda n: 95 + n(1)), ("'_'", lambda n: 95), ("-_+'-'", lambda n: n(0) + 45)]
HEAD = "#define idd(x) x\n#macro mw(x)\n .dw x\n#endmacro\n#macro mx(x,y)\n ld hl,x\n .db y\n#endmacro\n_a = 77\n__ = 88\n"
# statements around which labels are counted just the same
AROUND = [("#if 0\n_\n .dw -_\n#endif", 0, b""), ("#comment\n_\n#endcomment", 0, b""), ("#macro zz()\n_\n nop\n#endmacro", 0, b""), ("; _", 0, b""), (' .db "_\\"_"', 3, b'_"_'),
          ("#define und _", 0, b""), ("#if 1\n nop\n#endif", 1, b"\0"), (" .echo \"_\"", 0, b""), ("lab: nop", 1, b"\0"), (" nop", 1, b"\0")]
# constructs that define a label (or several) on the way
DEFVIA = [(' #include "l.inc"', [0], b""), (' wr("_")\n run()', [0], b""), (" lm()", [0], b"\0"), ("#if 1\n_\n#else\n_\n_\n#endif", [0], b""), (" lm()\n lm()", [0, 1], b"\0\0"),
          (' wr("_ nop")\n wr("_ nop")\n run()', [0, 1], b"\0\0"), ("\\_ nop\\_ nop", [0, 1], b"\0\0"), (' #include "m.inc"', [0, 1], b"\0\0"), (" lr()", [1], b"\0\0\x18\xfd")]
INC = {"l.inc": "_\n", "m.inc": '_ nop\n #include "k.inc"\n', "k.inc": "_: nop"}
HEAD2 = "#macro lm()\n;\n_ nop\n#endmacro\n#macro lr()\n .db 0\n_ nop\n jr -_\n#endmacro\n"


def run_prog(ctx, head, items, base, what, opts=()):
    """items: ('d', text, offsets of labels, bytes) | ('r', text, size, fn(n, addr) -> bytes)"""
    labs, pos, at = [], base, []
    for it in items:
        at.append((pos, len(labs)))
        if it[0] == "d":
            labs += [pos + o for o in it[2]]
            pos += len(it[3])
        else:
            pos += it[2]
    bad, out = 0, b""
    for it, (p, k) in zip(items, at):
        if it[0] == "d":
            out += it[3]
            continue

        def n(d):
            i = k - 1 + d
            if not 0 <= i < len(labs):
                raise LookupError
            return labs[i]
        try:
            out += it[3](n, p)
        except LookupError:
            bad += 1
    src = head + (" .org %d\n" % base if base else "") + "".join(it[1] + "\n" for it in items)
    r = ctx.asm(src, *opts, files=INC)
    ctx.traces += 1
    got = r.files.get("a.bin")
    ctx.outcome(bool(bad), len(labs), len(out))
    for p, k in at:
        ctx.state(p, k, len(labs))
    ctx.transition(what, len(labs), bad)
    text = " / ".join(i[1] for i in items)
    if bad:
        if r.crashed or not r.status or r.status < 2 or not any(d[2] == "error" for d in diags(r)):
            return "%s: %r refers to an anonymous label that does not exist, but: %s" % (what, text, r.brief()[:300])
        return None
    if not clean(r):
        return "%s: %r is rejected: %s" % (what, text, r.brief()[:300])
    if got != out:
        return "%s: %r must give %s but gives %s" % (what, text, out.hex(" "), got.hex(" ") if got is not None else None)


def ref(kind, expr, fn):
    t, size, enc = KINDS[kind % len(KINDS)]
    return ("r", t % expr, size, lambda n, a: enc(fn(n), a))


def simple(kind, j):
    e, d = REFS[j]
    return ref(kind, e, lambda n: n(d))


def defn(v):
    v %= len(DEFS)
    return ("d", DEFS[v], [0], DBYTE[v])


class Local(core.Check):
    id = "C11"
    level = "model_checking"
    rule = ("every sequence of up to N anonymous labels and references (_ +_ ++_ +++_ -_ --_ ---_), the operand kind rotating over all instruction and directive forms; every reference form x operand kind x "
            "expression context; operators next to references; labels from includes, macros, wr/run, skipped blocks; origin changes; thousands of labels; expected bytes from a counting model")
    assumptions = ["a relative jump is only used where its target is in range", "in a macro argument the reference is resolved at the call"]

    def cases(self, tier):
        yield {"g": "kinds"}
        n = 6 if tier == "thorough" else 5
        for k in range(1, n + 1):
            for s in itertools.product(range(8), repeat=k):
                yield {"g": "seq", "s": s}
        for a in range(len(CTX)):
            for j in range(7):
                yield {"g": "ctx", "c": a, "r": j}
        for a in range(len(SPEC)):
            yield {"g": "spec", "c": a}
        for k in (2, 3, 4):
            for s in itertools.product(range(len(DEFVIA) + 4), repeat=k) if k < 4 or tier == "thorough" else ():
                yield {"g": "via", "s": s}
        for s in itertools.product(range(len(AROUND)), repeat=3):
            yield {"g": "around", "s": s}
        for s in itertools.product(range(6), repeat=5 if tier == "thorough" else 4):
            yield {"g": "org", "s": s}
        for k in (1, 2, 255, 256, 1000, 4095, 4096, 4097, 5000, 9000):
            yield {"g": "many", "n": k}
        for s in itertools.product(range(3), repeat=4):
            yield {"g": "list", "s": s}

    def run(self, c, ctx):
        g = c["g"]
        if g == "seq":
            s = c["s"]
            h = sum((x + 1) * 7 ** i for i, x in enumerate(s))
            items = [defn(h + i) if x == 0 else simple(h + 3 * i, x - 1) for i, x in enumerate(s)]
            return run_prog(ctx, HEAD, items, (0, 0x8000)[h & 1], "sequence", ((), ("-L",), ("-T",))[h % 3] if len(s) < 4 else ())
        if g == "kinds":
            for k in range(len(KINDS)):
                for j in range(7):
                    items = [defn(2), defn(4), defn(2), simple(k, j), simple(k + 5, j), defn(4), defn(1), defn(2)]
                    m = run_prog(ctx, HEAD, items, 0, "operand kind")
                    if m:
                        return m
            return
        if g == "ctx":
            t, f = CTX[c["c"]]
            e, d = REFS[c["r"]]
            for k in range(len(KINDS)):
                if KINDS[k][0].split()[0] in ("jr", "djnz"):
                    continue
                if t[0] == "(" and t[-1] == ")" and t.count("(") == 1 and not KINDS[k][0].startswith(" ."):
                    continue    # parentheses around a whole operand mean a memory access
                items = [defn(2), defn(4), defn(2), ref(k, t.replace("@", e), lambda n: f(n(d))), defn(4), defn(1), defn(2)]
                m = run_prog(ctx, HEAD, items, 0, "context")
                if m:
                    return m
            return
        if g == "spec":
            t, f = SPEC[c["c"]]
            for k in range(len(KINDS)):
                if KINDS[k][0].split()[0] in ("jr", "djnz"):
                    continue
                for pre in range(3):
                    for post in range(3):
                        items = [defn(2)] * pre + [ref(k, t, f)] + [defn(4)] * post
                        m = run_prog(ctx, HEAD, items, 0, "operators")
                        if m:
                            return m
            return
        if g == "via":
            items = []
            for i, x in enumerate(c["s"]):
                if x < len(DEFVIA):
                    t, o, b = DEFVIA[x]
                    items.append(("d", t, o, b))
                else:
                    items.append([defn(2), simple(sum(c["s"]) + i, 0), simple(i + c["s"][0], 4), simple(i, 2)][x - len(DEFVIA)])
            items.append(simple(0, 4))
            return run_prog(ctx, HEAD + HEAD2, items, 0x20, "labels from elsewhere")
        if g == "around":
            items = [defn(2), simple(0, 4), simple(1, 0)]
            for x in c["s"]:
                t, n, b = AROUND[x]
                items.append(("d", t.replace("lab", "lab%d" % len(items)), [], b))
            items += [simple(0, 4), simple(3, 1), defn(3), simple(0, 5)]
            return run_prog(ctx, HEAD, items, 0, "around")
        if g == "org":
            items, head, pos = [], HEAD, 0
            src, out, labs, refs = [], b"", [], []
            for x in c["s"] + [0] if isinstance(c["s"], list) else list(c["s"]) + [0]:
                if x == 0:
                    labs.append(pos)
                    src.append("_")
                elif x == 1:
                    src.append(" .dw _")
                    refs.append((len(out), len(labs)))
                    out += b"??"
                    pos += 2
                elif x == 2:
                    src.append(" .dw -_")
                    refs.append((len(out), len(labs) - 1))
                    out += b"??"
                    pos += 2
                elif x == 3:
                    src.append(" .org $9000")
                    pos = 0x9000
                elif x == 4:
                    src.append(" nop")
                    out += b"\0"
                    pos += 1
                else:
                    src.append(" .org 0")
                    pos = 0
            o = bytearray(out)
            bad = False
            for p, k in refs:
                if 0 <= k < len(labs):
                    o[p:p + 2] = le(labs[k], 2)
                else:
                    bad = True
            r = ctx.asm("\n".join(src) + "\n")
            ctx.traces += 1
            ctx.state(tuple(labs))
            if bad:
                return None if r.status and r.status >= 2 and diags(r) else "%r: a missing anonymous label is accepted: %s" % (src, r.brief()[:200])
            if not clean(r) or r.files.get("a.bin") != bytes(o):
                return "%r must give %s but: %s" % (src, o.hex(" "), r.brief()[:300])
            return
        if g == "many":
            n = c["n"]
            src, out = "", b""
            for i in range(n):
                if i % 512 == 0 or i == n - 1:
                    src += " .dw _\n"
                    out += le(len(out) + 2, 2)
                src += "_ nop\n"
                out += b"\0"
            last = len(out) - 1
            src += " .dw -_\n"
            out += le(last, 2)
            r = ctx.asm(src, timeout=20000)
            ctx.traces += 1
            if not clean(r) or r.files.get("a.bin") != out:
                return "%d anonymous labels: %s" % (n, r.brief()[:300])
            return
        if g == "list":
            # several references in one data list, and as macro arguments, are resolved at that line
            f = [("_", 1), ("-_", 0), ("++_", 2)]
            es = [f[x] for x in c["s"]]
            items = [defn(2), defn(4)]
            items.append(("r", " .dw " + ",".join(e for e, d in es), 2 * len(es), lambda n, a: b"".join(le(n(d), 2) for e, d in es)))
            items.append(("r", " mx(%s,(%s)&255)" % (es[0][0], es[1][0]), 4, lambda n, a: b"\x21" + le(n(es[0][1]), 2) + le(n(es[1][1]), 1)))
            items.append(("r", " mw(idd(%s)+%s)" % (es[2][0] , "(" + es[3][0] + ")"), 2, lambda n, a: le(n(es[2][1]) + n(es[3][1]), 2)))
            items += [defn(2), defn(3)]
            return run_prog(ctx, HEAD, items, 0, "lists")


CHECK = Local()
