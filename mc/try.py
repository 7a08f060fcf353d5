"""mc/try.py FILE [opts] : assemble one file in the sandboxed server and print everything (debugging aid)"""
import sys
sys.path.insert(0, __file__.rsplit("/mc/", 1)[0])
from mc import core
ctx = core.Ctx()
src = sys.stdin.read() if sys.argv[1] == "-" else open(sys.argv[1], encoding="latin-1").read()
v = "plain"
a = sys.argv[2:]
if a and a[0] == "--asan":
    v = "asan"; a = a[1:]
r = ctx.asm(src, *a, variant=v)
print("timed", r.timed, "status", r.status, "signal", r.signal)
print(r.out)
for k, d in sorted(r.files.items()):
    print(k, len(d), d[:200].hex(" ")) if not k.endswith((".lst", ".lab")) else print(k, "\n" + d.decode("latin-1"))
ctx.close()
