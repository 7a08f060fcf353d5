"""C07: explicit-state exploration of statement histories on a location-counter machine; every path replayed."""
import itertools
from .. import core
from ..lib import clean, le

IMP = b"\x00\x0d\xff\x1aIMP"


class M:
    """origin, location counter, output position, output bytes, symbols"""

    def __init__(self):
        self.pc = self.pos = 0
        self.out = bytearray()
        self.sym = []
        self.dead = False
        self.pending = set()     # output positions of operands that are only known later
        self.clobbered = False   # such an operand was overwritten after a seek back

    def later(self, bs):
        self.emit(bs)
        self.pending.update(range(self.pos - len(bs), self.pos))

    def emit(self, bs):
        self.clobbered |= any(p in self.pending for p in range(self.pos, self.pos + len(bs)))
        if self.pos > len(self.out):
            self.out += bytes(self.pos - len(self.out))
        self.out[self.pos:self.pos + len(bs)] = bs
        self.pos += len(bs)
        self.pc += len(bs)

    def seek(self, v):
        self.pos += v - self.pc
        self.pc = v
        if self.pos < 0:
            self.dead = True


def ins(*b):
    return lambda m: m.emit(bytes(b))


def late(*b):
    return lambda m: m.later(bytes(b))


def rel(v, n):
    """emit n bytes holding $ + v evaluated at this point"""
    return lambda m: m.emit(le(m.pc + v, n))


def seq(*fs):
    def f(m):
        for g in fs:
            g(m)
    return f


def org(v, r=False):
    def f(m):
        m.pc = m.pc + v if r else v
        m.dead |= m.pc < 0
    return f


def skip(v, r=True):
    return lambda m: m.seek(m.pc + v if r else v)


def sym(v=0):
    return lambda m: m.sym.append(m.pc + v)


def at(pre, d, n, post=()):
    """instruction whose operand is $+d, $ being the address of the instruction itself"""
    return lambda m: m.emit(bytes(pre) + le(m.pc + d, n) + bytes(post))


# (text, effect); # stands for a unique symbol name, effects record symbol values in the order they appear
Z80 = [
    (" nop", ins(0)), (" ld a,5", ins(0x3E, 5)), (" ld bc,$", at([1], 0, 2)), (" jr $", ins(0x18, 0xFE)), (" ld (ix+1),2", ins(0xDD, 0x36, 1, 2)),
    (" .db 1", ins(1)), (' .db 1,"a;\\n",$&255', seq(ins(1, 97, 59, 10), rel(0, 1))), (" .dw $,$+1", seq(rel(0, 2), rel(1, 2))), (" .dl $", rel(0, 3)),
    (" .fill 3", ins(0, 0, 0)), (" .fill 2,$&1", lambda m: m.emit(bytes([m.pc & 1]) * 2)), (" .block 0", ins()),
    (" .org $4000", org(0x4000)), (" .org $+2", org(2, True)), (" .org $-1", org(-1, True)), (" .org $18000", org(0x18000)),
    (" .seek $+3", skip(3)), (" .seek $-1", skip(-1)), (' #import "i.bin"', lambda m: m.emit(IMP)),
    ("# = $", sym()), ("# .equ $+3", sym(3)), ("#: .dw #,$", lambda m: (sym()(m), m.emit(le(m.sym[-1], 2)), rel(0, 2)(m))),
    ("# nop", seq(sym(), ins(0))), (' .dw later', late(0x34, 0x12)), (" jp later", seq(ins(0xC3), late(0x34, 0x12))),
    (" ld a,1\\# nop \\ .db $&255", seq(ins(0x3E, 1), sym(), ins(0), rel(0, 1))), (" mac(3)", seq(ins(3), rel(0, 2))),
    (' #include "n.inc"', seq(ins(0), rel(0, 2), org(1, True), ins(7))), ("# = 5", lambda m: m.sym.append(5)),
    (' wr("# .dw $") \\ run()', seq(sym(), rel(0, 2))), ("#if $>=1\n nop\n#else\n .dw 1\n#endif", lambda m: m.emit(b"\0" if m.pc >= 1 else b"\1\0")),
    (" bit 1,(iy+2)", ins(0xFD, 0xCB, 2, 0x4E)), (".db later&255,later>>8", late(0x34, 0x12)), (' .db ""', ins()), (" .dw q$", rel(0, 2)),
    (" .addinstr XY * 77 3 NOP 1\n xy $", lambda m: m.emit(b"\x77" + le(m.pc, 2))), (" .dw list", seq(rel(0, 2), ins(5, 0))),
]
EZ = [
    (" nop", ins(0)), (" ld hl,$", at([0x21], 0, 3)), (" ld.sis hl,$&$ffff", at([0x40, 0x21], 0, 2)), (" ld a,($)", at([0x3A], 0, 3)), (" jr $", ins(0x18, 0xFE)),
    (" .dl $,$", seq(rel(0, 3), rel(0, 3))), (" .dw 1", ins(1, 0)), (" .org $D1A881", org(0xD1A881)), (" .org $+1", org(1, True)),
    (" .assume adl=0\n ld hl,$&$ffff\n .assume adl=1", at([0x21], 0, 2)), (" jp.lil $", at([0x5B, 0xC3], 0, 3)), (" lea ix,iy+3", ins(0xED, 0x54, 3)),
    ("#: ld bc,#", lambda m: (sym()(m), m.emit(b"\x01" + le(m.sym[-1], 3)))), ("# = $", sym()), (" .seek $+2", skip(2)), (" .seek $-1", skip(-1)),
    (" call later", seq(ins(0xCD), late(0x34, 0x12, 0))), (" rst.lil $8", ins(0x5B, 0xCF)), (' #import "i.bin"', lambda m: m.emit(IMP)), (" .fill 3,1", ins(1, 1, 1)),
]
HEAD = "#macro mac(v)\n .db v\n .dw $\n#endmacro\n#define q$ $\n#define qd $\n#define list $,5\n"
FILES = {"i.bin": IMP, "n.inc": " nop\n .dw $\n .org $+1\n .db 7"}


class C07(core.Check):
    id = "C07"
    level = "model_checking"
    rule = ("explicit-state: machine (location counter, output position, bytes, symbols) driven by every sequence of statements from a 37-statement Z80 "
            "alphabet (quick: length <=3, thorough: <=4) and a 20-statement eZ80 alphabet (quick <=3, thorough <=4); every sequence is replayed on the "
            "assembler and the bytes, the value of a label after every statement (used before and after its definition) and of every equate are compared")
    assumptions = ["location counters stay below 2^24 and the output below 1 MiB", "bytes skipped by a seek and never written are 0"]

    def cases(self, tier):
        full = tier != "quick"
        for n in range(1, 5 if full else 4):
            for ez, al in ((0, Z80), (1, EZ)):
                if n <= 2:
                    for s in itertools.product(range(len(al)), repeat=n):
                        yield {"ez": ez, "s": [s]}
                else:
                    for s in itertools.product(range(len(al)), repeat=n - 1):
                        yield {"ez": ez, "s": [list(s) + [x] for x in range(len(al))]}

        yield {"ez": 0, "s": [(23, 17, 5)], "clobber": 1}

    def key(self, case, msg):
        return "seek-back-over-later-operand" if case.get("clobber") else super().key(case, msg)

    def run(self, case, ctx):
        for s in case["s"]:
            m = self.one(case["ez"], s, ctx, case.get("clobber"))
            if m:
                return m

    def one(self, ez, s, ctx, judge_clobbered=False):
        al = EZ if ez else Z80
        m = M()
        n = len(s)
        nsym = 0
        txt = []
        marks = []
        names = []
        m.later(bytes(3 * (n + 1)))
        marks.append(m.pc)
        ctx.state(ez, m.pc, m.pos)
        for k, i in enumerate(s):
            t, eff = al[i]
            st = (m.pc, m.pos)
            before = len(m.sym)
            eff(m)
            if m.dead:
                ctx.count("not enabled")
                return None
            name = "e%d" % nsym
            if "#" in t.replace("#import", "").replace("#include", "").replace("#if", "").replace("#else", "").replace("#endif", ""):
                for kw in ("import", "include", "if ", "else", "endif"):
                    t = t.replace("#" + kw, "\1" + kw)
                t = t.replace("#", name).replace("\1", "#")
            if len(m.sym) > before:
                names.append(name)
                nsym += 1
            t = t.replace("q$", "qd")
            txt.append(t + "\nL%d:\n" % (k + 1))
            marks.append(m.pc)
            ctx.state(ez, m.pc, m.pos)
            ctx.transition(ez, st, i)
        body = HEAD + " .dl " + ",".join("L%d" % k for k in range(n + 1)) + "\nL0:\n" + "".join(txt)
        tail = list(range(n + 1))
        body += " .dl " + ",".join(["L%d" % k for k in tail] + names) + "\nlater = $1234\n"
        for v in marks + m.sym:
            m.emit(le(v, 3))
        for k, v in enumerate(marks):
            m.out[3 * k:3 * k + 3] = le(v, 3)
        if m.clobbered and not judge_clobbered:
            ctx.count("operand known later is overwritten (see the known finding)")
            return None
        r = ctx.asm(body, *(["-E"] if ez else []), files=FILES)
        ctx.traces += 1
        got = r.files.get("a.bin")
        exp = bytes(m.out[:m.pos])
        ctx.outcome(exp)
        if not clean(r) or got is None:
            return "valid program rejected: %r: %s" % (body[len(HEAD):], r.brief()[:500])
        if got[:len(exp)] != exp:
            return "%r: output must be %s but is %s" % (body[len(HEAD):], exp.hex(" "), got.hex(" "))
        return None


CHECK = C07()
