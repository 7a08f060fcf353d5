"""C28: exhaustive histories of the code buffers on the real assembler.

  hist  : every sequence of buf/clr/wr/run operations up to a depth; an explicit-state model (one pending text per
          buffer, one current buffer) predicts the bytes of the whole program, or that it is rejected
  nest  : every sequence up to a depth in which the text of one buffer itself operates on the buffers (a work list in
          the model: the text is taken out of the buffer before it runs)
  text  : every sequence of up to 3 lines from a catalogue, written and run, against the same lines in place of the run
  elem  : every element list of wr() up to a length, against the text that the model says it produces
  place : buffers written and run from macros, included files, conditional blocks and other lines of a statement
"""
import itertools
from .. import core, lib

B = ["buf(0)", "buf(1)"]
OPS = ["buf(0)", "buf(1)", "clr()", "wr", "run()"]
NOPS = ["buf(0)", "buf(1)", "clr()", "wr", "run()", "wr buf(0)", "wr buf(1)", "wr clr()", "wr run()", "wr wr", "db"]
LINES = [" .db 1", " ld a,b", "lab:", "lab2: .dw $", " .dw $", " .dw lab", " .dw later", "eq = 5", " .db eq", "#define df 7", " .db df", "#undef df", "#if 1", "#if 0", "#ifdef df", "#else", "#endif", "#macro mc(p)", "; text", " .db p", "#endmacro", " mc(9)", " .org $40", " .db 1 \\ .db 2", " jr lab", "_", " jr -_", " .echo 5", "#comment", "#endcomment",
         "#include \"g.inc\"", " .db 'a','b'", " nop ; comment", "", "#define ad(x) x+1", " .db ad(5)", " .fill 3,eq", " foo", " .option op=5", " .assume adl=1"]
ELEMS = [("\" .db \"", " .db "), ("5", "5"), ("2+3", "5"), ("sym", "9"), ("def", "7"), ("\",\"", ","), ("-1", "-1"), ("$FF", "255"), ("\"1\"", "1"), ("txt", "12"), ("\" \"", " "), ("$", None), ("fn(3)", "4"), ("'A'", "65"), ("\"\\n .db 3 ;\"", "\n .db 3 ;"), ("lst", "34")]
PLACES = {
    "macro run": "#macro go()\n; \n run()\n#endmacro\n%W go()\n",
    "macro wr": "#macro put()\n; \n%W#endmacro\n put()\n run()\n",
    "macro both": "#macro go()\n; \n%W run()\n#endmacro\n go()\n",
    "include wr": "%I run()\n",
    "include run": "%W#include \"run.inc\"\n",
    "if": "#if 1\n%W#endif\n#if 0\n wr(\" .db 99\")\n run()\n#else\n run()\n#endif\n",
    "one line": "%1 \\ run()\n",
    "run tail": "%W run() \\ .db 77\n#!77",
    "label": "%Wat0: run()\n",
    "case": "%C RUN()\n",
    "spaces": "%W run( )\n",
    "comment": "%W run() ; done\n",
    "late": "%W .db 55\n run()\n#!pre55",
    "buf expr": "bb = 3\n buf(bb+1)\n%W buf(0)\n buf(2*2)\n run()\n",
    "buf define": "#define bb 5\n buf(bb)\n%W buf(0) \\ buf(5) \\ run()\n",
    "twice": "%W run()\n%W2 run()\n",
}
PTEXT = [[" .db 1"], [" .db 1", " .db 2"], ["l1: .dw l1", " .dw l2", "l2:"], ["#if 0", " .db 1", "#else", " .db 2", "#endif"], ["#macro zz(a)", "; ", " .db a", "#endmacro", " zz(4)"], [" .dw $", "_ .db 1", " jr -_"], ["v = 6", " .db v"]]


class Buffers(core.Check):
    id = "C28"
    level = "model_checking"
    rule = ("every history of up to 6 (thorough: 8) of %d buffer operations and of up to 3 (thorough: 4) of %d with code that itself operates on buffers, in the state space (current buffer, pending text of each buffer); all %d x %d pairs of distinct buffers; every text of up to 2 (thorough: 3) of %d lines run from a buffer vs. in place (bytes, labels, status); "
            "every wr() list of up to 3 (thorough: 4) of %d elements; %d placements x %d texts") % (len(OPS), len(NOPS), 10, 10, len(LINES), len(ELEMS), len(PLACES), len(PTEXT))
    assumptions = ["the straight program is assembled by the same assembler; its constructs are checked by the other properties"]

    def cases(self, tier):
        deep = tier == "thorough"
        for p in itertools.product(range(len(OPS)), repeat=3 if not deep else 4):
            yield ["hist", list(p), 3 if not deep else 4]
        for p in itertools.product(range(len(NOPS)), repeat=2):
            yield ["nest", list(p), 1 if not deep else 2]
        for a in range(10):
            yield ["pair", a]
        for a in range(len(LINES)):
            yield ["text", [a], 1]
            if deep:
                for b in range(len(LINES)):
                    yield ["text", [a, b], 1]
        for a in range(len(ELEMS)):
            yield ["elem", [a], 2 if not deep else 3]
        for p in PLACES:
            yield ["place", p]
        yield ["range"]

    def run(self, case, ctx):
        k = case[0]
        if k in ("hist", "nest"):
            n = len(OPS) if k == "hist" else len(NOPS)
            names = OPS if k == "hist" else NOPS
            for tail in itertools.product(range(n), repeat=case[2]):
                m = self.history(ctx, [names[i] for i in case[1] + list(tail)])
                if m:
                    return m
            return None
        if k == "pair":
            for b in range(10):
                if b == case[1]:
                    continue
                a = case[1]
                src = " buf(%d)\n wr(\" .db %d\")\n buf(%d)\n wr(\" .db %d\")\n buf(%d)\n run()\n buf(%d)\n run()\n wr(\" .db 1\")\n buf(%d)\n clr()\n buf(%d)\n run()\n" % (a, a + 100, b, b + 100, a, b, a, b)
                m = self.expect(ctx, src, bytes([a + 100, b + 100, 1]))
                if m:
                    return m
            return None
        if k == "text":
            for n in range(0, case[2] + 1):
                for t in itertools.product(range(len(LINES)), repeat=n):
                    m = self.text(ctx, [LINES[i] for i in case[1] + list(t)])
                    if m:
                        return m
            return None
        if k == "elem":
            for n in range(0, case[2] + 1):
                for t in itertools.product(range(len(ELEMS)), repeat=n):
                    m = self.elem(ctx, [ELEMS[i] for i in case[1] + list(t)])
                    if m:
                        return m
            return None
        if k == "place":
            for t in range(len(PTEXT)):
                m = self.place(ctx, case[1], PTEXT[t])
                if m:
                    return m
            return None
        for v in ("10", "-1", "11", "255", "256", "65536", "0-1", "nope", "late"):
            for rest in ("", " wr(\" .db 1\")\n run()\n"):
                r = ctx.asm(" nop\n buf(%s)\n%slate = 2\n" % (v, rest), out="o.bin")
                ctx.outcome(r.status, r.lines())
                if r.crashed or r.status < 2:
                    return "buf(%s) must be reported as an error: %s" % (v, r.brief())

    def expect(self, ctx, src, exp):
        r = ctx.asm(src, out="o.bin")
        ctx.count("programs")
        ctx.outcome(r.status, [d[3] for d in lib.diags(r)], r.files.get("o.bin"))
        if exp is None:
            if r.crashed or r.status < 2 or not lib.diags(r):
                return "%r runs a buffer that has no code, which must be an error: %s" % (src, r.brief()[:300])
            return None
        if not lib.clean(r) or r.files.get("o.bin") != exp:
            return "%r must give %s: %s" % (src, exp.hex(" "), r.brief()[:400])

    def history(self, ctx, ops):
        bufs, cur, out, src, n, fuel = {}, 0, [], "", 0, 60
        failed = False
        work = []
        for o in ops:
            n += 1
            if o == "wr":
                src += " %s(\" .db %d\")\n" % (("wr", "WR", "Wr")[(n + len(ops)) % 3], n)
                work.append(("wr", [("db", n)]))
            elif o == "db":
                src += " .db %d\n" % n
                work.append(("db", n))
            elif o == "wr wr":
                src += " wr(\" wr(\\\" .db %d\\\")\")\n" % n
                work.append(("wr", [("wr", [("db", n)])]))
            elif o.startswith("wr "):
                src += " wr(\" %s\")\n" % (o[3:], o[3:].upper())[n & 1]
                work.append(("wr", [(o[3:], None)]))
            else:
                src += " %s\n" % (o, o.upper(), o.title())[n % 3]
                work.append((o, None))
        while work and fuel:
            op, arg = work.pop(0)
            ctx.state((cur, tuple(sorted((k, str(v)) for k, v in bufs.items())), len(out)))
            ctx.transition()
            if op.startswith("buf("):
                cur = int(op[4])
            elif op == "clr()":
                bufs[cur] = []
            elif op == "wr":
                bufs.setdefault(cur, [])
                bufs[cur] = bufs[cur] + arg
            elif op == "db":
                out.append(arg)
            elif op == "run()":
                if cur not in bufs:
                    failed = True
                else:
                    work = bufs.pop(cur) + work
            fuel -= 1
        ctx.traces += 1
        return self.expect(ctx, src + " .db 200\n", None if failed else bytes(out + [200]))

    def both(self, ctx, a, b, what, files=None):
        f = {"g.inc": " .db 3\n .db 4\n"}
        f.update(files or {})
        ra = ctx.asm(a, "-L", out="o.bin", files=f)
        rb = ctx.asm(b, "-L", out="o.bin", files=f)
        ctx.count("programs", 2)
        ctx.traces += 1
        ctx.outcome(ra.status, ra.files.get("o.bin"))
        if ra.crashed or rb.crashed:
            return "%s %r: %s" % (what, a, ra.brief())
        da, db = [x[2:] for x in lib.diags(ra)], [x[2:] for x in lib.diags(rb)]
        if ra.status != rb.status or sorted(ra.files) != sorted(rb.files) or any(ra.files[x] != rb.files[x] for x in ra.files):
            return "%s %r differs from %r: %s / %s" % (what, a, b, ra.brief()[:500], rb.brief()[:500])
        if da != db:
            return "%s %r reports other problems than %r: %r / %r" % (what, a, b, da, db)

    def text(self, ctx, lines):
        opens = []
        for l in lines:         # a text whose blocks aren't complete isn't one that can stand alone
            w = l.split("(")[0].split(" ")[0]
            if opens and opens[-1] == "#comment" and w != "#endcomment":
                continue
            if w in ("#if", "#ifdef", "#macro", "#comment"):
                if w == "#macro" and "#macro" in opens:
                    return None
                opens.append(w)
            elif w in ("#endif", "#endmacro", "#endcomment"):
                if not opens or opens.pop()[:3] != "#" + w[4:6]:
                    return None
            elif w == "#else" and (not opens or opens[-1][:3] != "#if"):
                return None
        if opens:
            return None
        pre, post = "adr = 5\n .db 1\n", " .dw adr\nlater = $1234\n .db 2\n"
        return self.both(ctx, pre + "".join(" wr(\"%s\")\n" % l.replace("\\", "\\\\").replace("\"", "\\\"") for l in lines) + (" wr(\"\")\n" if not lines else "") + " run()\n" + post,
                         pre + "".join(l + "\n" for l in lines) + post, "code in a buffer")

    def elem(self, ctx, els):
        pre = "sym = 9\n#define def 7\n#define txt \"12\"\n#define fn(q) q+1\n#define lst 3,4\n .db 1\n"
        text = "".join("1" if e[1] is None else e[1] for e in els)
        return self.both(ctx, pre + " wr(\" .db \",%s)\n run()\n .db 2\n" % ",".join(e[0] for e in els), pre + " .db %s\n .db 2\n" % text, "wr() of a list")

    def place(self, ctx, p, lines):
        t = PLACES[p]
        w = ["wr(\"%s\")" % l for l in lines]
        full = "".join(" %s\n" % x for x in w)
        if p == "twice" and any(":" in l or l.startswith(("#macro", "_")) or "l1" in l for l in lines):
            return None
        post = ""
        pre = ""
        if "#!" in t:
            t, x = t.split("#!")
            if x == "77":
                post = " .db 77\n"
            else:
                pre = " .db 55\n"
        src = t.replace("%W2", full).replace("%W", full).replace("%1", " " + " \\ ".join(w)).replace("%C", full.replace("wr", "WR")).replace("%I", "#include \"wr.inc\"\n")
        straight = "".join(l + "\n" for l in lines)
        exp = pre + straight * (2 if p == "twice" else 1) + post
        if p == "buf expr":
            exp = "bb = 3\n" + exp
        if p == "buf define":
            exp = "#define bb 5\n" + exp
        if p == "label":
            exp = "at0:\n" + exp
        return self.both(ctx, " .org 100\n .db 9\n" + src + " .db 10\n", " .org 100\n .db 9\n" + exp + " .db 10\n", "placement '%s'" % p, {"wr.inc": full, "run.inc": " run()\n"})


CHECK = Buffers()
