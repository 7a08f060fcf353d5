"""Builds the execution server from /repo's current working tree (all of it, uncommitted edits included).

The project's own Makefile compiles the sources out of tree with its own default flags, so the code that is
explored is the code `make` ships; only main()'s symbol is renamed (objcopy) so that the server can call it.
Results are cached under /verif/.build by a hash of every source byte that could matter.
"""
import fcntl, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
OUT = os.path.join(VERIF, ".build")

VARIANTS = {
    # name: (CXXFLAGS, LDFLAGS, server flags)
    "plain": ("-g0 -w", "", "-O2"),
    "asan": ("-g1 -O1 -w -fno-omit-frame-pointer -fwrapv -fsanitize=address -fno-sanitize-recover=all",
             "-fsanitize=address", "-O1 -DNO_ASLIMIT -fsanitize=address"),
}


def tree_hash(variant):
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "_build", "tests", "lib", "inc", ".github"))
        for f in sorted(files):
            if f.endswith((".cpp", ".h", ".hpp", ".c", ".inc")) or f == "Makefile":
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    for f in ("server.cpp", "build.py"):
        with open(os.path.join(VERIF, "mc", f), "rb") as fh:
            h.update(fh.read())
    h.update(repr(VARIANTS[variant]).encode())
    return h.hexdigest()[:16]


def build(variant="plain"):
    key = "%s-%s" % (variant, tree_hash(variant))
    d = os.path.join(OUT, key)
    exe = os.path.join(d, "server")
    os.makedirs(OUT, exist_ok=True)
    if os.path.exists(exe):
        return exe
    with open(os.path.join(OUT, ".lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        for old in os.listdir(OUT):          # keep only the newest build of each variant
            if old.startswith(variant + "-"):
                shutil.rmtree(os.path.join(OUT, old), ignore_errors=True)
        tmp = d + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        cxx, ld, sflags = VARIANTS[variant]
        with open(os.path.join(tmp, "extra.mk"), "w") as f:
            f.write("vpath %%.cpp %s\nvpath Makefile %s\nmc_objs: $(OBJ)\n\t@echo $(OBJ_FILES) > objs.txt\n"
                    "\t@echo $(LDFLAGS) > ldflags.txt\n.PHONY: mc_objs\n" % (REPO, REPO))
        env = dict(os.environ, FORCE_NO_GIT="1", CXXFLAGS=cxx, LC_ALL="C.UTF-8")
        for k in ("LDFLAGS", "CROSS_COMPILE", "NO_APPSIGN", "OS", "MAKEFLAGS", "CPATH"):
            env.pop(k, None)

        def sh(cmd):
            r = subprocess.run(cmd, cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                sys.stderr.write("build failed: %s\n%s\n" % (cmd, r.stdout.decode("utf-8", "replace")))
                sys.exit(3)
        sh(["make", "-s", "-j8", "-f", os.path.join(REPO, "Makefile"), "-f", "extra.mk", "mc_objs"])
        objs = open(os.path.join(tmp, "objs.txt")).read().split()
        ldflags = open(os.path.join(tmp, "ldflags.txt")).read().split()
        sh(["objcopy", "--redefine-sym", "main=_Z10spasm_mainiPPc", "main.o"])
        sh(["g++"] + sflags.split() + ["-Wl,--wrap=fopen", "-o", "server", os.path.join(VERIF, "mc", "server.cpp")] + objs
           + ld.split() + ldflags)
        for o in objs:
            os.unlink(os.path.join(tmp, o))
        os.rename(tmp, d)
    return exe


if __name__ == "__main__":
    for v in sys.argv[1:] or list(VARIANTS):
        print(build(v))
