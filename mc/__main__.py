import importlib, os, sys


def find(pid):
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks")
    for f in sorted(os.listdir(d)):
        if f.lower().startswith(pid.lower() + "_") and f.endswith(".py"):
            return importlib.import_module("mc.checks." + f[:-3]).CHECK
    sys.exit("no check " + pid)


if __name__ == "__main__":
    from . import core
    if sys.argv[1] == "build":
        from . import build
        for v in build.VARIANTS:
            build.build(v)
        sys.exit(0)
    sys.exit(core.main(find(sys.argv[1]), sys.argv[2:]))
