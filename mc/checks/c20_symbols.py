"""C20: all short histories of symbol definitions; the symbol file is compared with a dictionary model."""
import itertools, re
from .. import core
from ..lib import diags, s32

BUILTIN = {"SPASM": 1, "SPASMVER": 2, "__LINE": None, "TRUE": 1, "FALSE": 0, "__BM_SHD": 2, "__BM_MSK_RGB": 0xFF00}
# statement kinds on a symbol n; model(d, pc) -> None if the statement may not be used in this state
OPS = ["lab", "labc", "eq", "equ", "eqpc", "def", "def1", "defneg", "deffwd", "defchr", "defstr", "defarg", "undef", "cont", "macro", "ref", "nop", "reus", "set"]
NUM = {"eq": 70000, "equ": -2, "def": 7, "defneg": -32768, "defchr": 97, "def1": 1}


def stmt(op, n):
    return {"lab": "%s\n" % n, "labc": "%s: nop\n" % n, "eq": "%s = 70000\n" % n, "equ": "%s .equ -2\n" % n, "eqpc": "%s = $+1\n" % n, "def": "#define %s 7\n" % n, "def1": "#define %s ; one\n" % n,
            "defneg": "#define %s (-32768) \n" % n, "deffwd": "#define %s endlab+%%d\n" % n, "defchr": "#define %s 'a'\n" % n, "defstr": "#define %s \"a\",0\n" % n, "defarg": "#define %s(q) q+1\n" % n,
            "undef": "#undef %s\n" % n, "cont": "#define %s 4\n#defcont +2\n" % n, "macro": "#macro %s(q)\n .db q\n#endmacro\n" % n, "ref": " .dw %s&$ffff\n" % n, "nop": " nop\n", "reus": "_ nop\n", "set": ".equ %s 3\n" % n}[op]


class M:
    def __init__(self):
        self.lab, self.dfn, self.pc, self.warn = {}, {}, 0, False

    def step(self, op, n):
        """False if this statement has no defined meaning in this state"""
        if op in ("nop", "reus"):
            self.pc += 1
            return True
        if op == "ref":
            if n not in self.lab and not isinstance(self.dfn.get(n), (int, tuple)):
                return False
            self.pc += 2
            return True
        if op == "set":
            return False
        if op in ("lab", "labc", "eq", "equ", "eqpc"):
            if n in self.dfn:
                return False
            v = {"lab": self.pc, "labc": self.pc, "eqpc": self.pc + 1}.get(op, NUM.get(op))
            # the name first names the current address
            if n in self.lab and (self.lab[n] != self.pc or v != self.pc):
                self.warn = None if self.warn is False else self.warn
            self.lab[n] = v
            self.pc += op == "labc"
            return True
        if op == "undef":
            if n in self.lab:
                return False
            self.dfn.pop(n, None)
            return True
        if n in self.lab:
            return False
        if n in self.dfn:
            self.warn = None if self.warn is False else self.warn
        self.dfn[n] = {"deffwd": ("endlab",), "defstr": "s", "defarg": "s", "macro": "s", "cont": 6}.get(op, NUM.get(op))
        return True

    def table(self, end):
        t = dict(self.lab)
        for k, v in self.dfn.items():
            if isinstance(v, tuple):
                t[k] = end + 3
            elif v != "s":
                t[k] = v
        return t


WORDS = ["a0", "aa", "ab", "b", "bx9", "z", "a_b", "_x", "a1", "a10", "a2", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz", "s9", "tru", "true2", "spasm1", "sp", "x.y"]
CASED = ["a0", "Ab", "aC", "B", "Bx", "z", "Za", "AB", "ab", "aB", "TrUe", "spasm", "c1"]
VALUES = [0, 1, 9, 10, 15, 16, 255, 256, 4095, 4096, 65535, 65536, 0xFFFFFF, 0x1000000, 0x7FFFFFFF, -1, -128, -32768, -65536, -0x80000000 + 1, 0xABCD, 0xDEAD]


class Symbols(core.Check):
    id = "C20"
    level = "exploration"
    rule = ("all histories of up to 3 (thorough 4) symbol statements of %d kinds over 2 names; all definition orders of up to 4 (5) names chosen from %d spellings as labels and defines, case-insensitive and with -A; every value class; large tables; "
            "the symbol file is compared with a dictionary model") % (len(OPS), len(WORDS))
    assumptions = ["the predefined symbols are listed too, __LINE with any value", "names that differ only in case (with -A) may stand in either order; an underscore may sort before or after letters"]

    def cases(self, tier):
        q = tier == "quick"
        ops = [o for o in OPS if o != "set"]
        for n in (1, 2, 3) if q else (1, 2, 3, 4):
            for s in itertools.product([o + n2 for o in ops for n2 in ("x" if o in ("nop", "reus") else "xy")], repeat=n):
                # by symmetry the first named symbol is x
                first = next((k[-1] for k in s if not k.startswith(("nop", "reus"))), "x")
                if first == "x":
                    yield {"g": "hist", "s": " ".join(s)}
        for n in range(1, 4 if q else 5):
            for s in itertools.permutations(range(len(WORDS)), n):
                yield {"g": "names", "s": list(s)}
        for n in range(1, 4 if q else 5):
            for s in itertools.permutations(range(len(CASED)), n):
                yield {"g": "cased", "s": list(s)}
        for i in range(len(VALUES)):
            for k in range(4):
                yield {"g": "value", "i": i, "k": k}
        for n in (10, 100, 1000, 3000):
            for k in range(3):
                yield {"g": "many", "n": n, "k": k}
        for k in range(8):
            yield {"g": "out", "k": k}

    def run(self, c, ctx):
        g, opts, out, lab, files = c["g"], [], "o.bin", "o.lab", {}
        cased = False
        warn_ok = False
        if g == "hist":
            m = M()
            src = " .org 0\n"
            for k in c["s"].split():
                op, n = k[:-1], k[-1]
                if not m.step(op, "s" + n):
                    return
                src += stmt(op, "s" + n).replace("%d", "3")
            src += " nop\nendlab:\n"
            exp = m.table(m.pc + 1)
            exp["endlab"] = m.pc + 1
            warn_ok = m.warn is None
        elif g in ("names", "cased"):
            cased = g == "cased"
            opts = ["-A"] if cased else []
            src, exp = "", {}
            for j, i in enumerate(c["s"]):
                w = (CASED if cased else WORDS)[i]
                v = 3 * i + 0x100 * j + 7
                if "." in w and j % 2 == 0:
                    w = w.replace(".", "")
                w = w.replace(".", "_")
                src += ["%s = %d\n", "#define %s %d\n", "%s .equ %d\n"][(i + j) % 3] % (w, v)
                exp[w] = v
            if len(exp) != len(c["s"]):
                return
        elif g == "value":
            v = VALUES[c["i"]]
            src = ["vv = %d\n", "#define vv %d\n", "#define w2 %d\nvv = w2\n", "#define vv w2\nw2 .equ %d\n"][c["k"]] % v
            exp = {"vv": v}
            if "w2" in src:
                exp["w2"] = v
        elif g == "many":
            n, k = c["n"], c["k"]
            exp, ls = {}, []
            for i in range(n):
                j = i * 7919 % n
                w = ["n%d", "n%05d", "w%x_"][k] % j
                exp[w] = j
                ls.append(("%s = %d\n" if (i + k) % 2 else "#define %s %d\n") % (w, j))
            src = "".join(ls)
        else:
            out, lab = [("o.bin", "o.lab"), ("sub/o.hex", "sub/o.lab"), ("p.q.bin", "p.q.lab"), ("noext", "noext.lab"), ("o.LAB2", "o.lab"), ("sub.d/x", "sub.d/x.lab"), ("./o.bin", "o.lab"), ("x.8xp", "x.lab")][c["k"]]
            files = {"sub/k": "", "sub.d/k": ""}
            src, exp = "aa = 5\nbb: nop\n", {"aa": 5, "bb": 0}
            warn_ok = True
        files["a.asm"] = src
        modes = None
        if g == "out":
            files["o.lab"] = "OLD = $1\n" * 50
            modes = {"o.lab": 0o10644}
        r = ctx.exec(["-N", "-L"] + opts + ["a.asm", out], files, timeout=30000, modes=modes)
        t = r.files.get(lab, b"").decode("latin-1")
        ctx.outcome(g, t)
        if r.crashed or r.status not in ((0, 1) if warn_ok else (0,)) or any(d[2] != "warning" or not warn_ok for d in diags(r)):
            return "%s: %s" % (c, r.brief()[:300])
        b = ctx.exec(["-N"] + opts + ["a.asm", out], files, timeout=30000)
        if b.files.get(out.replace("./", "")) != r.files.get(out.replace("./", "")) or b.status != r.status:
            return "%s: other output or status with -L" % c
        rows = t.split("\n")
        if rows[-1] != "":
            return "%s: the table does not end with a line end" % c
        got, order = {}, []
        for row in rows[:-1]:
            mm = re.fullmatch(r"(\S+) = \$([0-9A-F]{4,8})", row)
            if not mm:
                return "%s: row %r" % (c, row)
            if mm.group(1) in got:
                return "%s: %s is listed twice" % (c, mm.group(1))
            got[mm.group(1)] = int(mm.group(2), 16)
            order.append(mm.group(1))
        want = {k: v for k, v in BUILTIN.items()}
        for k, v in exp.items():
            want[k if cased else k.upper()] = v & 0xFFFFFFFF
        if got.get("__LINE") is not None:
            want["__LINE"] = got["__LINE"]
        if got != want:
            d = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))[:3]
            return "%s: %s" % (c, ["%s is %s instead of %s" % (k, got.get(k), want.get(k)) for k in d])
        for key in (str.lower, str.upper):
            if [key(k) for k in order] == sorted(key(k) for k in order):
                return
        return "%s: order %s" % (c, order)


CHECK = Symbols()
