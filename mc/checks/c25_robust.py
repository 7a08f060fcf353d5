"""C25: no input crashes, corrupts memory or hangs the assembler.

Every case runs on the address-sanitized build of the real sources (heap, stack and global redzones, use after free).
A run must end with one of the documented exit statuses 0..3; a signal, a sanitizer report, any other status or a
timeout is a violation.  Short texts are batched as separately included files (one failing batch is split until the
single text, or the shortest failing combination, is found).
"""
import itertools
import struct
from .. import core
from .c24_files import bmp

ARG = ["(", ")", "\"", "'", "\\", ",", "5", "x", "$", "%", "+", "-", ";", "#", ":", " ", "_", "=", "<", ">", "&", "@", "\xff", "m", "f", "b", "."]
ARG3 = ["(", ")", "\"", "'", "\\", ",", "5", "x", "$", "-", ";", " ", "m(", "f("]
HEADS = ["", " ", "q", "q:", "q ", "q(", " q(", " q,", "_", "_:", "+", "-", " .", "#", " nop", " ld", " ld a,", " ld (ix", " jp ", " jp -", " bit 0", " rst ", " in a,", " add hl,", " .db", " .db ", " .dw ", " .dl ", " .db \"", " .db '", " .db \\", " .text ",
         " .org", " .org ", " .fill", " .fill ", " .fill 1,", " .block ", " .seek", " .seek ", " .echo", " .echo ", " .echo >", " .echo > ", " .echo >> ", " .error", " .error ", " .equ", "q .equ ", "q = ", "q .set ", " .option", " .option ", " .option q=", " .assume ", " .addinstr", " .addinstr ", " .addinstr Q ",
         " .addinstr Q q ", " .addinstr Q q 01 ", " .addinstr Q q 01 1 ", " .list", " .nolist", " .end", "#define", "#define ", "#define q", "#define q ", "#define q(", "#define q(a", "#define q(a) ", "#undef ", "#undefine ", "#include", "#include ", "#include \"", "#import", "#import ", "#import \"", "#if", "#if ", "#ifdef ",
         "#ifndef ", "#elif ", "#else", "#endif", "#macro", "#macro ", "#macro q", "#macro q(", "#macro q(a", "#macro q(a)", "#endmacro", "#comment", "#endcomment", "#define q(a) a\n .db q", "#define q(a,b) a b\n .db q(", "#macro q(a)\n .db a\n#endmacro\n q", "#macro q(a)\n .db a\n#endmacro\n q(", "#macro q(a)\n; \n a\n#endmacro\n q(",
         " wr(", " wr(\"", " run(", " buf(", " clr(", " clr", " run", " buf", " fcreate(", " m(", " m(1,", " m2(", " .db m", " .db m(", " .db f(", " .db f(1,", " .db eval(", " .db getc(", " .db getc(\"d.bin\"", " .db getc(\"d.bin\",", " .db RGB(", " .db rgb(1,2", " .db last(", " .db sqrt(", " .db '", " .db $", " .db %", " .db @", " .db 0",
         " .db 1h", " .db 1+", " .db (", " .db (1", " .db 1,", " .db x", " .db q-", " .db 5 \\", " nop \\ ", " nop \\", "q: \\", ";", "; ", " .db 1 ;", "#comment ", "#\\", "\\", "\\\\", " .db __LINE", " .db __FILE", "__LINE ", "#define __LINE ", "#undef __FILE", " .db \\#", " ld hl,(", " ld (hl)", " ex ", " call ", " djnz ", " im "]
PRE = ("#define f(x,y) x+y\n#define fm(x) f(x,x)\n#macro m(x,y)\n; body\n .db x\n#endmacro\n#macro m2(b)\n; body\n m(b,b)\n wr(b)\n#endmacro\nx = 5\nb = 3\n")
FILES = {"d.bin": b"abc", "g.inc": " nop\n", "b.bmp": bmp(8, 2)}

# lines from which whole programs are made; %d makes the names of each program its own
LINES = ["#if 1", "#if 0", "#ifdef k%d", "#else", "#elif 1", "#endif", "#macro k%d(a)", "#macro k%d", "#endmacro", " k%d(k%d)", " k%d(1)", " k%d", "#define k%d k%d", "#define k%d(a) a", "#define k%d", "#undef k%d", "k%d:", "k%d = k%d+1", " .db k%d", " .db k%d(1)", " .dw k%d(k%d(2))", " wr(\" k%d\")", " wr(k%d)", " run()", " clr()",
         " buf(2)", " buf(k%d)", "#comment", "#endcomment", "#include \"g.inc\"", "#include \"b.bmp\"", " .echo k%d", " .echo \"a\",k%d(1)", " .error k%d", " .org k%d", " .fill k%d", " .option k%d=k%d", " .addinstr K%d a 01 1", "_ jr _", " jr -_", " jr +_", " .seek k%d", " .nolist", " .list", "#define k%d eval(k%d)", " .db \"k%d", " .db 'k", " .dw late", "__k%d = 5", " .show k%d", " .db __k%d", " .echo > \"k%d\" __k%d,__LINE", " .end k%d( \\ nop"]
LINES3 = LINES[:22] + LINES[23:26] + LINES[27:29] + [LINES[31], LINES[44]]

SIZES = [1, 2, 7, 8, 9, 15, 16, 17, 30, 31, 32, 33, 62, 63, 64, 65, 78, 79, 80, 81, 99, 100, 101, 126, 127, 128, 129, 199, 200, 201] + list(range(240, 270)) + [300, 399, 400, 510, 511, 512, 513, 514, 999, 1000, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4080] + list(range(4090, 4102)) + [5000, 8190, 8191, 8192, 8193, 10000, 16384, 32768, 65535, 65536, 65537, 100000]
QSIZES = [1, 2, 9, 31, 32, 64, 127, 128, 129, 253, 254, 255, 256, 257, 260, 512, 1023, 1025, 4095, 4096, 4098, 8193, 20000]
HOLES = ["%s", " %s", "%s:", "%s = 5", "%s(", " %s()", " ld a,%s", " ld %s,a", " ld (%s),a", " ld (ix+%s),5", " bit %s,a", " .db %s", " .db \"%s\"", " .db \"%s", " .db '%s'", " .db '%s", " .dw 1,%s,2", " .db %s,%s", " .org %s", " .fill %s", " .fill 1,%s", " .block %s", " .seek %s", " .echo %s", " .echo \"%s\"", " .echo \"%s\",nope,\"%s\"", " .echo > %s", " .echo > \"%s\" \"t\"", " .echo >> \"%s\" \"t\"",
         " .error %s", " .error \"%s\"", " .option %s", " .option %s=1", " .option opt=%s", " .assume %s", " .assume adl=%s", " .addinstr %s a 01 1", " .addinstr Q %s 01 1", " .addinstr Q a %s 1", " .addinstr Q a 01 %s", " .addinstr Q a 01 1 %s", "#define %s", "#define %s 5\n .db %s", "#define q %s\n .db q", "#define q(%s) 5\n .db q(1)", "#define q(a,%s) 5\n .db q(1,2)", "#define q(a) a\n .db q(%s)", "#define q(a) \"%s\"\n .db q(1)", "#define q(a,b) a+%s\n .db q(1,%s)",
         "#undef %s", "#include %s", "#include \"%s\"", "#include \"%s/g.inc\"", "#import \"%s\"", "#import %s", "#if %s\n#endif", "#if \"%s\"==\"%s\"\n nop\n#endif", "#ifdef %s\n#endif", "#ifndef %s\n nop\n#endif", "#if 0\n%s\n#endif", "#macro %s\n#endmacro", "#macro %s()\n nop\n#endmacro\n %s()", "#macro q(%s)\n .db 1\n#endmacro\n q(1)", "#macro q(a)\n %s\n#endmacro\n q(1)", "#macro q(a)\n; \n .db a\n#endmacro\n q(%s)", "#macro q(a)\n; \n .echo a,\"%s\"\n#endmacro\n q(\"%s\")",
         "#comment\n%s\n#endcomment", "#comment %s", ";%s", " nop ;%s", " nop \\ %s", " wr(\"%s\")\n run()", " wr(%s)\n run()", " buf(%s)", " .db %s \\ .db %s", " .dw (%s)", " .db getc(\"%s\",0)", " .db getc(\"d.bin\",%s)", " .db eval(%s)", " .db nope(%s)", "#define q eval(%s)\n .db q", " jp %s", " jr %s", " jp z,%s", " rst %s", " im %s", " call nz,%s+1", "q:%s", " .%s", "#%s", " %s nop", "q: %s q", " .db 5%s", " .db $%s", " .db %%%s", " .db %sh", " .db 1+%s", " .db %s+1", " .db -%s", " .db 1<<%s",
         "%s\n#define %s\n#undef %s", "#define a%s b%s\n#define b%s 5\n .db a%s", "%s .equ %s", "%s = 5\n%s: .db %s", "#define __BM_HDR 1\n#define __BM_HDR_FMT \"%s\"\n#include \"b.bmp\"", "#define __BM_MAP \"%s\"\n#include \"b.bmp\"", "%s:\n#include \"b.bmp\"", "#define __BM_SHD %s\n#include \"b.bmp\"", "#define __BM_MIN_W %s\n#include \"b.bmp\"", "#define __BM_PAD %s\n#define __BM_MAP \"1x1\"\n#include \"b.bmp\"", "#define __BM_MSK_RGB %s\n#include \"b.bmp\""]
FILLS = ["a", "5", " ", "(", ",", "\"", "\\", "'", "a,", "a+", "-", "5+", "\xff", "/", "../", ")", "\\\\", "a\\", "a ", ";"]

NUMS = ["0", "1", "-1", "2", "3", "4", "8", "9", "10", "11", "16", "17", "31", "32", "63", "64", "127", "128", "255", "256", "257", "-127", "-128", "-129", "-256", "1000", "32767", "32768", "65535", "65536", "-32768", "-32769", "100000", "1000000", "16777215", "16777216", "100000000", "2147483647", "-2147483647", "-2147483647-1", "$80000000", "$FFFFFFFF", "-$7FFFFFFF", "late", "late3", "nope",
        "0-late2", "1/0", "5%0", "(-2147483647-1)/-1", "(-2147483647-1)%-1", "1<<31", "1<<32", "1<<-1", "1>>64", "late2/0", "late2%0", "$-$7FFFFFFF"]
NHOLES = [" .org N", " .org N\n nop\n jr $", " .fill N", " .fill N,N", " .fill 3,N", " .block N", " .block N\n nop", " .seek N", " nop\n .seek N\n nop", " .seek N\n .org N\nq: .dw q", " .db N", " .dw N", " .dl N", " .db N,N,N", " .echo N", " .error N", " buf(N)\n wr(\"nop\")\n run()", " buf(N)\n run()", " buf(N)\n clr()", " buf(N)\n wr(\" nop\")\n buf(0)\n run()", " rst N", " im N", " bit N,a", " set N,(ix+N)", " ld a,N", " ld hl,N", " ld (ix+N),N", " ld (N),a",
          " jr N", " djnz N", " jp N", " in a,(N)", " out (N),a", " .option q=N", " .assume adl=N", "#if N\n nop\n#else\n ret\n#endif", "#if N==N\n nop\n#elif N>N\n nop\n#endif", "q = N\n .dw q", "q = N\n .fill q", "#define q N\n .dw q,-q,~q,!q", "#define q eval(N)\n .dw q", " .db getc(\"d.bin\",N)", " .addinstr Q a N 1", " .addinstr Q a 01 N\n q a", " .addinstr Q * 01 N\n q 5", " .addinstr Q * 01 2 NOP N\n q N", " .addinstr Q * 01 2 NOP 1 N N\n q N", " .dw N+N,N-N,N*N,N&N,N|N,N^N,N<N,N>N,N<<N,N>>N", " .dw N/N", " .dw N%N", " .dw N**N",
          "#macro q(a)\n; \n .fill a\n#endmacro\n q(N)", "#define __BM_SHD N\n#include \"b.bmp\"", "#define __BM_MIN_W N\n#include \"b.bmp\"", "#define __BM_PAD N\n#include \"b.bmp\"", "#define __BM_PAD N\n#define __BM_MAP \"1x1\"\n#include \"b.bmp\"", "#define __BM_MAP \"N\"\n#include \"b.bmp\"", "#define __BM_MAP \"NxN\"\n#include \"b.bmp\"", "#define __BM_MAP \"2x2xN\"\n#include \"b.bmp\"", "#define __BM_MSK N\n#define __BM_INV_RGB N\n#include \"b.bmp\"", "#define __LINE N\n .db __LINE", " .org N\n#include \"b.bmp\"", " .org N\n#import \"d.bin\"", " .seek N\n#import \"d.bin\""]

DEEP = {"paren": lambda n: " .db " + "(" * n + "1" + ")" * n, "open": lambda n: " .db " + "(" * n, "close": lambda n: " .db 1" + ")" * n, "minus": lambda n: " .db " + "-" * n + "1", "not": lambda n: " .db " + "~" * n + "1", "plus": lambda n: " .dw " + "1+" * n + "1", "and": lambda n: " .dw " + "1&&" * n + "1",
        "ifs": lambda n: "#if 1\n" * n + " nop\n" + "#endif\n" * n, "ifs0": lambda n: "#if 0\n" * n + " nop\n" + "#endif\n" * n, "openifs": lambda n: "#if 1\n" * n, "openifs0": lambda n: "#if 0\n" * n, "endifs": lambda n: "#endif\n" * n, "elses": lambda n: "#if 1\n" + "#else\n" * n + "#endif", "elifs": lambda n: "#if 0\n" + "#elif 0\n" * n + "#endif",
        "macros": lambda n: "".join("#macro q%d()\n; \n q%d()\n#endmacro\n" % (i, i + 1) for i in range(n)) + "#macro q%d()\n nop\n#endmacro\n q0()" % n, "defines": lambda n: "".join("#define q%d q%d\n" % (i, i + 1) for i in range(n)) + "#define q%d 5\n .db q0" % n, "fdefines": lambda n: "".join("#define q%d(x) q%d(x)\n" % (i, i + 1) for i in range(n)) + "#define q%d(x) x\n .db q0(1)" % n,
        "calls": lambda n: "#define q(x) x\n .db " + "q(" * n + "1" + ")" * n, "mcalls": lambda n: "#macro q(x)\n; \n x\n#endmacro\n " + "q(" * n + "nop" + ")" * n, "comments": lambda n: "#comment\n" * n + "#endcomment\n" * n, "opencomments": lambda n: "#comment\n" * n, "strings": lambda n: " .db " + "\"a\"," * n + "1", "stmts": lambda n: " nop \\" * n, "labels": lambda n: "".join("q%d:\n" % i for i in range(n)), "args": lambda n: "#define q(%s) 1\n .db q(%s)" % (",".join("a%d" % i for i in range(n)), ",".join("1" for i in range(n))),
        "wrs": lambda n: " wr(\" nop\")\n" * n + " run()", "runs": lambda n: (" wr(\" nop\")\n run()\n") * n, "includes": lambda n: "#include \"g.inc\"\n" * n, "anons": lambda n: "_ nop\n" * n + " jr " + "-" * min(n, 200) + "_", "anonsf": lambda n: " jr " + "+" * n + "_\n" + "_ nop\n" * n, "eqs": lambda n: "".join("q%d = q%d+1\n" % (i, i + 1) for i in range(n)) + "q%d = 1\n .dw q0" % n,
        "blocks": lambda n: " .block 100\n" * n, "orgs": lambda n: " .org 100\n .org 200\n" * n, "undefs": lambda n: "#define q 1\n#undef q\n" * n, "addinstr": lambda n: "".join(" .addinstr Q%d a 01 1\n" % i for i in range(n)), "lates": lambda n: " .dw late\n" * n, "errors": lambda n: " foo\n" * n, "cont": lambda n: " .db 1\\\n" * n}
LAUGH = "\n".join("#define q%d q%d+q%d" % (i, i + 1, i + 1) for i in range(40)) + "\n#define q40 1\n"
LAUGH3 = "\n".join("#define q%d q%d,q%d,q%d" % (i, i + 1, i + 1, i + 1) for i in range(30)) + "\n#define q30 1\n"
LAUGHM = "\n".join("#macro q%d()\n; \n q%d()\n q%d()\n#endmacro" % (i, i + 1, i + 1) for i in range(13)) + "\n#macro q13()\n nop\n#endmacro\n"
REC = {"doubling arg": "#define q(a) q(a+a)\n .db q(1)", "doubling macro arg": "#macro q(a)\n; \n q(a+a)\n#endmacro\n q(1)", "doubling list": "#macro q(a)\n; \n q(\"a,a\")\n#endmacro\n q(1)", "branching define": "#define q q q q\n .db q", "branching define 2": "#define q q+q+q\n .db q\n ld a,q", "branching pair": "#define q r+r\n#define r q+q\n .db q", "branching arg": "#define q q+q\n#macro m9(a)\n; \n .db a\n#endmacro\n m9(q)",
       "branching echo": "#define q q,q\n .echo q", "branching list": "#define q q,q\n .db q", "branching eval": "#define q q+q\n#define r eval(q)\n .db r", "branching if": "#define q q+q\n#if q\n#endif", "branching text": "#define q q q\n ld a,q", "laugh db": LAUGH + " .db q20", "laugh db deep": LAUGH + " .db q0", "laugh operand": LAUGH + " ld a,q0", "laugh arg": LAUGH + "#macro m9(a)\n; \n .db a\n#endmacro\n m9(q0)", "laugh eval": LAUGH + "#define r eval(q0)\n .db r", "laugh if": LAUGH + "#if q0\n#endif",
       "laugh echo": LAUGH + " .echo q0", "laugh late": LAUGH.split("\n", 26)[26].replace("#define q40 1", "") + " .dw q28\nq40 = 1", "laugh list": LAUGH3 + " .db q20", "laugh list echo": LAUGH3 + " .echo q22", "laugh wr": LAUGH3 + " wr(q22)\n run()", "laugh macro": LAUGHM + " q0()", "laugh equate": LAUGH + "r = q0\n .db r", "laugh fdefine": LAUGH.replace("+", "(1)+").replace("\n", "(1)\n").replace("#define q0", "#define q0").replace("(1)(1)", "(1)") + " .db q0",
       "self macro": "#macro q()\n; \n q()\n#endmacro\n q()", "self macro arg": "#macro q(a)\n; \n q(a+1)\n#endmacro\n q(1)", "mutual macro": "#macro q()\n; \n r()\n#endmacro\n#macro r()\n; \n q()\n#endmacro\n q()", "self define": "#define q q\n .db q", "self define +": "#define q q+1\n .db q", "self fdefine": "#define q(a) q(a)\n .db q(1)", "self fdefine2": "#define q(a) q(a)+q(a)\n .db q(1)", "mutual define": "#define q r\n#define r q\n .db q", "mutual fdefine": "#define q(a) r(a)\n#define r(a) q(a)\n .db q(1)", "arg of itself": "#define q(a) a(a)\n .db q(q)", "macro arg itself": "#macro q(a)\n; \n a(a)\n#endmacro\n q(q)",
       "self include": "#include \"a.asm\"", "mutual include": "#include \"r1.inc\"", "self wr": " wr(\" run()\")\n run()", "self run": " wr(\" wr(\\\" nop\\\")\")\n wr(\" run()\")\n run()", "macro runs itself": "#macro q()\n; \n wr(\" q()\")\n run()\n#endmacro\n q()", "eval itself": "#define q eval(q)\n .db q", "eval itself 2": "#define q 1\n#define q eval(q+1)\n .db q", "self equ": "q = q\n .db q", "mutual equ": "q = r\nr = q\n .db q", "self equ +": "q = q+1\n .dw q", "if itself": "#define q q\n#if q\n nop\n#endif", "ifdef": "#define q q\n#ifdef q\n nop\n#endif",
       "echo itself": "#define q q\n .echo q", "late echo": " .echo q\n#define q q", "undef self": "#macro q()\n; \n#undef q\n nop\n#endmacro\n q()\n q()", "redefine self": "#macro q()\n; \n#define q 5\n nop\n#endmacro\n q()\n .db q", "undef in expr": "#macro q()\n#undef q\n .db 5\n .db 6\n#endmacro\n .db q()", "redefine in expr": "#macro q()\n; \n#define q 7\n .db 5\n#endmacro\n .db q,q", "define arg": "#macro q(a)\n; \n#define a 5\n .db a\n#endmacro\n q(b2)\n .db b2", "undef arg": "#macro q(a)\n; \n#undef a\n .db a\n#endmacro\n q(1)", "return in expr": "#macro q()\n return 5\n#endmacro\n .db q()", "macro defines macro": "#macro q()\n; \n#macro r()\n nop\n#endmacro\n#endmacro\n q()\n r()",
       "deep expr macro": "#macro q(a)\n#if a\n .db q(a-1)\n#endif\n#endmacro\n .db q(3)", "endless wr": "#macro q()\n; \n wr(\" q()\")\n run()\n#endmacro\n q()", "fcreate": " fcreate(\"x.txt\")\n .db 1", "include in include in macro": "#macro q()\n; \n#include \"r2.inc\"\n#endmacro\n q()", "import self": "#import \"a.asm\"", "echo to source": " .echo > \"a.asm\" \"x\"\n nop", "echo to include": "#include \"r2.inc\"\n .echo > \"r2.inc\" \"x\"\n#include \"r2.inc\"\n", "late chain": "\n".join("q%d = q%d" % (i, i + 1) for i in range(60)) + "\nq60 = 1\n .db q0"}

ARGV = ["-E", "-T", "-L", "-S", "-C", "-O", "-A", "-N", "-H", "-I", "-I.", "-Inone", "-D", "-DX", "-DX=1", "-D=", "-D=1", "-DX=", "-DX(", "-D5", "-V", "-Vnop", "-V nop", " nop", "-", "--", "-Z", "", "a.asm", "none.asm", "sub", "out.bin", "out.8xk", "out.", ".", "nodir/x.bin", "-TL", "-e", "/T", "-h", "-I" + "d" * 300, "-D" + "x" * 300 + "=1", "-V" + " nop \\" * 60, "x" * 300 + ".asm", "a.asm" + "/" * 300]
SETS = [[], ["-T"], ["-L"], ["-S"], ["-C"], ["-E"], ["-A"], ["-O"], ["-T", "-L", "-S", "-A", "-E"]]
OUTS = ["o.bin", "o.hex", "o.8xp", "o.8xv", "o.73p", "o.82p", "o.83p", "o.85p", "o.85s", "o.86p", "o.86s", "o.8xk", "o.rom", "o.xyz", "o", ".bin", "o.", "5.8xp", "lowercase.8xp", "A" * 200 + ".8xp", "\xff\xfe.8xp", "-.8xp", "sub/o.8xp", "../x/o.bin"[3:], "THETA.86s", "A B.85p", "name.name.8xv", "toolongname.8xk"]
CONTENTS = ["", " nop\n", " .db $BB,$6D\n", " .db $EF,$7B\n", " .fill 255\n", " .fill 16384\n", " .fill 16385\n", " .fill 65535\n", " .fill 65536\n", " .fill 70000\n", " .fill 300000\n", " .fill 1000000\n", " .fill 524289\n", " .db $80,$0F\n", " .db $80,$0F,0,0,0,0,$80,$48,\"AAAAAAAAAAAAAAA\"\n", " .db $80,$0F,0,0,0,0,$80,$4F\n",
            " .db $80,$0F,0,0,0,0,$80,$12,1,4,$80,$21,1,$80,$31,1,$80,$48,\"TestApp1\",$80,$81,1,$80,$90,3,$26,9,4,4,6,$1b,2,$0d,$40,$80,$70\n nop\n", " .db $80,$0F,0,0,0,0,$80,$12,1,4,$80,$21,1,$80,$31,1,$80,$48,\"TestApp1\",$80,$81,9,$80,$90,3,$26,9,4,4,6,$1b,2,$0d,$40,$80,$70\n .fill 40000\n",
            " .org 5\n .db 1\n .org 100000\n .db 1\n", " .seek 100\n", " .seek 5000000\n nop\n", "a:\n" * 3000, "#define z9 1\n" * 100]
BOPT = ["", "#define __BM_SHD 4\n", "#define __BM_SHD 3\n", "#define __BM_SHD 0\n", "#define __BM_HDR 1\n#define __BM_HDR_FMT \"w,h,ww,hh,b,s,ss\"\n", "#define __BM_MAP \"2x2\"\n", "#define __BM_MAP \"3x0\"\n", "#define __BM_MAP \"1x1\"\n#define __BM_PAD 1\n", "#define __BM_MIN_W 4\n", "#define __BM_MIN_W 100\n", "#define __BM_MSK 1\n#define __BM_INV_RGB 0\n", "lb:\n"]


def program(t, n):
    return t.replace("k%d", "k%d" % n).replace("K%d", "K%d" % n)


class Robust(core.Check):
    id = "C25"
    level = "exploration"
    variants = ("asan", "plain")
    rule = ("under AddressSanitizer: %d statement heads x every tail of up to 2 (thorough: 3) characters of %d, every text of up to 4 (thorough: 5) characters of %d delimiters, every program of up to 2 (thorough: 3) of %d lines and of 3 (thorough 4) of %d, %d templates x %d fillers x %d lengths up to 100000 (quick: 23 of them up to 20000), "
            "%d numeric templates x %d extreme values, %d nestings x depths to 1000 (thorough: 10000), %d recursions x options, every byte value in every position class, bitmap files truncated everywhere and with every header byte replaced, every argument list of up to 2 (thorough: 3) of %d arguments, %d output names x %d contents x options: exit status 0..3, no signal, no memory error, no timeout") % (
        len(HEADS), len(ARG), 16, len(LINES), len(LINES3), len(HOLES), len(FILLS), len(SIZES), len(NHOLES), len(NUMS), len(DEEP), len(REC), len(ARGV), len(OUTS), len(CONTENTS))
    assumptions = ["sanitizer instrumentation preserves the program's behaviour; timeout 10 s (a run takes milliseconds)", "a batch of texts is assembled as separately included files of one program"]
    B = 48

    def cases(self, tier):
        deep = tier == "thorough"
        for k in REC:
            for o in range(len(SETS)):
                yield ["rec", k, o]
        for k in DEEP:
            for n in (1, 2, 5, 9, 10, 11, 16, 30, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 200, 254, 255, 256, 257, 500, 512, 513, 1000) + ((2000, 4096, 10000) if deep else ()):
                if k != "mcalls" or n < 16:
                    yield ["deep", k, n]
        yield ["deep", "mcalls", 40]
        for h in range(len(NHOLES)):
            yield ["num", h]
        for b in range(256):
            yield ["byte", b]
        for o in range(len(BOPT)):
            for p in range(12):
                yield ["bmp", o, p]
        for o in range(len(OUTS)):
            for c in range(len(CONTENTS)):
                yield ["out", o, c]
        for h in range(len(HOLES)):
            for f in range(len(FILLS)):
                yield ["size", h, f, deep]
        for h in range(len(HOLES) + len(NHOLES)):
            yield ["name", h, deep]
        for h in range(len(HEADS)):
            yield ["tail", h, "", 2]
        if deep:
            for h in range(len(HEADS)):
                for a in range(len(ARG)):
                    yield ["tail", h, ARG[a], 2]
        for a, b in itertools.product(range(len(ARG3)), repeat=2):
            yield ["text", ARG3[a] + ARG3[b], 3 if deep else 2]
        n = len(ARGV)
        for a in range(-1, n):
            for b in range(-1, n) if a >= 0 else [-1]:
                if b >= 0 or a < 0:
                    yield ["argv", a, b, n if deep or b < 0 else 0]
        for a in range(len(LINES)):
            yield ["prog", [a], 1]
        for a in range(len(LINES)):
            for b in range(len(LINES)):
                if deep:
                    yield ["prog", [a, b], 1]
        for a in range(len(LINES3)):
            for b in range(len(LINES3)):
                if deep:
                    for c in range(len(LINES3)):
                        yield ["prog3", [a, b, c], 1]
                else:
                    yield ["prog3", [a, b], 1]

    def key(self, case, msg):
        return " ".join(str(x) for x in case)

    # ---- single runs
    def bad(self, r):
        if r.timed:
            return "does not terminate"
        if r.signal:
            return "killed by signal %d" % r.signal
        if r.status not in (0, 1, 2, 3):
            return "memory error or undocumented exit status %s: %s" % (r.status, r.out[-500:])

    def one(self, ctx, src, opts=(), files=None, out="o.bin", what="", variants=("asan",)):
        f = dict(FILES)
        f.update({"r1.inc": "#include \"r2.inc\"\n", "r2.inc": "#include \"r1.inc\"\n"})
        f.update(files or {})
        ctx.count("single programs")
        for v in variants:
            r = ctx.asm(src, *opts, files=f, out=out, variant=v, timeout=10000)
            ctx.outcome(r.status, r.lines()[:6], sorted(r.files))
            m = self.bad(r)
            if m:
                return "%s %s -> %s: %s" % (what or repr(src[:300]), " ".join(opts), out[:60], m)

    # ---- batches
    def batch(self, ctx, texts, pre=PRE, opts=()):
        for i in range(0, len(texts), self.B):
            m = self.tryb(ctx, texts[i:i + self.B], pre, opts)
            if m:
                return m
        ctx.count("texts", len(texts))

    def runb(self, ctx, texts, pre, opts):
        files = dict(FILES)
        src = pre
        for i, t in enumerate(texts):
            files["i%d.inc" % i] = t + "\n"
            src += "#include \"i%d.inc\"\n" % i
        src += "late = 7\nlate2 = 0\n"
        r = ctx.asm(src, *opts, files=files, out="o.bin", variant="asan", timeout=10000)
        ctx.outcome(r.status, r.lines()[:40], sorted(r.files))
        return self.bad(r)

    def tryb(self, ctx, texts, pre, opts):
        m = self.runb(ctx, texts, pre, opts)
        if not m:
            return None
        # shrink to a minimal failing list
        texts = list(texts)
        n = 2
        while len(texts) > 1:
            size = max(1, len(texts) // n)
            for i in range(0, len(texts), size):
                for cand in (texts[i:i + size], texts[:i] + texts[i + size:]):
                    if cand and len(cand) < len(texts):
                        mm = self.runb(ctx, cand, pre, opts)
                        if mm:
                            texts, m = cand, mm
                            n = 2
                            break
                else:
                    continue
                break
            else:
                if size == 1:
                    break
                n *= 2
        return "included text(s) %r: %s" % (texts, m)

    def run(self, case, ctx):
        k = case[0]
        if k == "rec":
            return self.one(ctx, REC[case[1]] + "\nlate:\n", SETS[case[2]], what=case[1], variants=self.variants)
        if k == "deep":
            return self.one(ctx, DEEP[case[1]](case[2]) + "\nlate:\n", ["-T", "-L"] if case[2] <= 1000 else [], what="%s nested %d times" % (case[1], case[2]))
        if k == "num":
            for v in NUMS:
                m = self.one(ctx, NHOLES[case[1]].replace("N\"", v + "\"").replace("NOP", "\0").replace("N", v).replace("\0", "NOP") + "\nlate = 7\nlate2 = 0\nlate3 = 2147483647\n", ["-T"])
                if m:
                    return m
            return None
        if k == "byte":
            c = chr(case[1])
            ts = [c, c + "\n", " " + c, "a" + c, " nop" + c, " nop " + c, " ld a," + c, " ld a,1" + c, " .db '" + c + "'", " .db '" + c, " .db \"" + c + "\"", " .db \"" + c, " .db \"\\" + c + "\"", " .db '\\" + c + "'", " .db 1" + c + "2", " .db $" + c, " .db %" + c, " .db 1" + c, " .db (" + c + ")", " .db " + c + "5", " .db x" + c, "x" + c + "=5", "#" + c, "#define " + c, "#define z" + c + " 1", "#define z(" + c + ") 1",
                  "#define z(a" + c + ") a\n .db z(1)", " m(" + c + ")", " m(1" + c + "2)", " .db f(" + c + ",1)", "#include \"" + c + "\"", "#import \"" + c + "\"", " ." + c, " .echo " + c, " .echo > " + c, " .echo \"\\" + c + "\"", " .error \"" + c + "\"", "#if " + c + "\n#endif", "#if 0\n" + c + "\n#endif", "#ifdef " + c + "\n#endif", "#comment\n" + c + "\n#endcomment", "#macro z" + c + "\n nop\n#endmacro", "#macro z()\n" + c + "\n#endmacro\n z()", " wr(\"" + c + "\")\n run()", " wr(" + c + ")",
                  " .addinstr " + c, " .addinstr Z " + c + " 01 1", " .addinstr Z a " + c + " 1", " .option " + c + "=1", " .fill 1," + c, ";" + c, " nop \\" + c, " nop\\" + c + " nop", "_" + c, " jr " + c + "_", "\\" + c, c + c, c + " nop", c + "\\", "\"" + c, "'" + c, "(" + c]
            m = self.batch(ctx, ts)
            if m:
                return m
            for t in ts:
                m = self.one(ctx, t, ["-T"])          # without a line end, as the whole program
                if m:
                    return m
            return self.one(ctx, " nop\n", [], {}, "o" + c.replace("/", "_").replace("\0", "") + ".8xp")
        if k == "bmp":
            pics = [bmp(8, 2), bmp(5, 3, 4), bmp(3, 2, 8), bmp(2, 2, 24), bmp(2, 2, 16), bmp(2, 1, 32)]
            pic = pics[case[2] % 6]
            data = []
            if case[2] < 6:
                data = [pic[:i] for i in range(len(pic) + 1)] + [pic + b"\0" * 5]
            else:
                for i in range(54):
                    for v in (0, 1, 2, 3, 4, 8, 9, 16, 24, 32, 54, 62, 127, 128, 255):
                        data.append(pic[:i] + bytes([v]) + pic[i + 1:])
            for i in range(0, len(data), 24):
                part = data[i:i + 24]
                src = BOPT[case[1]] + "".join("#include \"p%d.bmp\"\n" % j for j in range(len(part)))
                if self.one(ctx, src, (), {"p%d.bmp" % j: d for j, d in enumerate(part)}):
                    for d in part:
                        m = self.one(ctx, BOPT[case[1]] + "#include \"p.bmp\"\n", (), {"p.bmp": d}, what="bitmap %s after %r" % (d[:60].hex(), BOPT[case[1]]))
                        if m:
                            return m
                    return "a sequence of bitmaps after %r" % BOPT[case[1]]
            return None
        if k == "out":
            for o in SETS:
                m = self.one(ctx, CONTENTS[case[2]], o, {"sub": ""} if False else {"sub/x": ""}, OUTS[case[1]])
                if m:
                    return m
            return None
        if k == "name":
            # every place with a name that stands for something unusual: an omitted argument, a long text, a macro, ...
            i = case[1]
            t = HOLES[i].replace("%%", "\0").replace("%s", "z").replace("\0", "%") if i < len(HOLES) else NHOLES[i - len(HOLES)].replace("NOP", "\0").replace("N", "z").replace("\0", "NOP")
            body = "#macro az(z)\n; \n" + t.replace("#macro", "#ifdef").replace("#endmacro", "#endif") + "\n#endmacro\n"
            for call in (" az()", " az(\"\")", " az", " az(z)", " az(late)", " az((ix+1))", " az(\"a,b\")"):
                m = self.one(ctx, body + call + "\n nop\nlate = 7\n", ["-T"])
                if m:
                    return m
            pre = ["#define z", "#define z ", "#define z \"\"", "#define z ;", "#define z z", "#define z(a) a", "#define z(a) z(a)", "#define z(a,b) a,b", "#macro z\n nop\n#endmacro", "#macro z(a)\n#if a\n a\n#endif\n#endmacro", "z:", "z = 5", "#define z (", "#define z )", "#define z \"",
                   "#define z \\", "#define z 1,2", "#define z 1\\ nop", "#define z late", "#define z \"d.bin\"", "#define z #if 0", "#undef z"]
            for n in (250, 253, 254, 255, 256, 257, 300, 511, 513, 1024, 5000) if case[2] else (254, 255, 256, 300, 1024):
                pre += ["#define z " + f * n for f in ("a", " ", "(", "\\", ",")] + ["#define z \"" + "b" * n + "\"", "#define z 0" + "+1" * (n // 2)]
            for p in pre:
                m = self.one(ctx, p + "\n" + t + "\nlate = 7\n", ["-T"])
                if m:
                    return m
            return None
        if k == "size":
            h = HOLES[case[1]]
            for n in SIZES if case[3] else QSIZES:
                fill = FILLS[case[2]]
                if n > 20000 and h.count("%s") > 2:
                    continue
                s = (fill * (n // len(fill) + 1))[:n]
                t = h.replace("%%", "\0").replace("%s", s).replace("\0", "%")
                m = self.one(ctx, t + "\n", ["-T", "-L"] if n % 2 else [], what="%r with %r x %d" % (h, fill, n))
                if m:
                    return m
            return None
        if k == "tail":
            h = HEADS[case[1]] + case[2]
            ts = [h] if not case[2] else []
            for n in range(1, case[3] + 1):
                ts += [h + "".join(x) for x in itertools.product(ARG, repeat=n)]
            return self.batch(ctx, ts)
        if k == "text":
            ts = []
            for n in range(0, case[2] + 1):
                ts += [case[1] + "".join(x) for x in itertools.product(ARG3, repeat=n)]
            return self.batch(ctx, ts) or self.batch(ctx, [" .db " + t for t in ts])
        if k == "argv":
            for c in range(-1, case[3]) if case[2] >= 0 else [-1]:
                args = [ARGV[i] for i in (case[1], case[2], c) if i >= 0]
                ctx.count("argument lists")
                r = ctx.exec(args, {"a.asm": " nop\nx: .db x\n", "sub/x": ""}, variant="asan", timeout=10000)
                ctx.outcome(r.status, r.lines()[:5], sorted(r.files))
                m = self.bad(r)
                if m:
                    return "arguments %r: %s" % ([a[:60] for a in args], m)
            return None
        L = LINES if k == "prog" else LINES3
        ts = []
        for x in itertools.product(range(len(L)), repeat=case[2]):
            ts.append(program("\n".join(L[i] for i in case[1] + list(x)), len(ts)))
        return self.batch(ctx, ts, "")


CHECK = Robust()
