"""Builds a driver of /verif/src against /repo's current working tree.

Everything lands in /verif/build/<variant>/ (ignored by git).  The library
sources are globbed from /repo/conex, so a file added by a refactoring is picked
up; ninja's depfiles make the build follow every header.
"""
import glob
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CONEX_REPO", "/repo")
BUILD = os.environ.get("CONEX_VERIF_BUILD", os.path.join(ROOT, "build"))

COMMON = ("-std=c++17 -fPIC -w -DEIGEN_MPL2_ONLY -iquote {repo} -iquote {repo}/interfaces "
          "-iquote {repo}/conex -isystem /usr/include/eigen3 -iquote {root}/src").format(repo=REPO, root=ROOT)

VARIANTS = {
    # The product's own configuration (assertions off), silent.
    "opt": dict(cxx="g++", cflags="-O1 -DNDEBUG -DEIGEN_NO_DEBUG -DCONEX_VERBOSE=0", ld=""),
    # Address + undefined behaviour, product configuration otherwise (Eigen binds
    # references to null for empty matrices; null accesses crash).  Verbose
    # printing stays on so that it is covered as well.
    "asan": dict(cxx="g++", cflags="-O1 -g1 -fno-omit-frame-pointer -DNDEBUG -DEIGEN_NO_DEBUG "
                 "-fsanitize=address,undefined -fno-sanitize=null -fno-sanitize-recover=all -DVERIF_SANITIZED",
                 ld="-fsanitize=address,undefined"),
    # Eigen's own shape / index assertions as a run-time monitor; also run under
    # memcheck.
    "echk": dict(cxx="g++", cflags="-O1 -g1 -DCONEX_VERBOSE=0 -DNDEBUG -include {root}/src/eigen_monitor.h "
                 "-DVERIF_VALGRIND -D_GLIBCXX_ASSERTIONS".format(root=ROOT), ld=""),
    "tsan": dict(cxx="g++", cflags="-O1 -g1 -fno-omit-frame-pointer -DNDEBUG -DEIGEN_NO_DEBUG -DCONEX_VERBOSE=0 "
                 "-fsanitize=thread -DVERIF_SANITIZED", ld="-fsanitize=thread"),
}


def library_sources():
    src = sorted(glob.glob(REPO + "/conex/*.cc"))
    src = [s for s in src if os.path.basename(s) != "elimination_ordering.cc"]
    return src + [REPO + "/interfaces/conex.cc"]


def build(variant, driver, extra_sources=()):
    v = VARIANTS[variant]
    out = os.path.join(BUILD, variant)
    os.makedirs(out, exist_ok=True)
    lines = ["ninja_required_version = 1.10", "builddir = " + out,
             "rule cxx", "  command = %s %s %s -MMD -MF $out.d -c $in -o $out" % (v["cxx"], COMMON, v["cflags"]),
             "  depfile = $out.d", "  deps = gcc",
             "rule link", "  command = %s -o $out $in %s -lpthread" % (v["cxx"], v["ld"])]
    objs = []

    def add(src):
        o = os.path.join(out, os.path.relpath(src, "/").replace("/", "__") + ".o")
        lines.append("build %s: cxx %s" % (o, src))
        objs.append(o)

    script = os.path.join(ROOT, "src", driver + ".py")
    if not os.path.exists(script):
        add(os.path.join(ROOT, "src", driver + ".cc"))
    # kkt_solver is by far the slowest: start it first.
    lib = library_sources()
    lib.sort(key=lambda s: ("kkt_solver" not in s, "supernodal" not in s, s))
    for s in lib:
        add(s)
    for s in extra_sources:
        add(s.format(repo=REPO))
    exe = os.path.join(out, driver)
    if os.path.exists(script):
        # A driver in Python: the library as a shared object, and a script that
        # starts the driver on it.
        start, exe = exe, os.path.join(out, "lib%s.so" % driver)
        lines.append("rule shared")
        lines.append("  command = %s -shared -Wl,-Bsymbolic -o $out $in %s -lpthread" % (v["cxx"], v["ld"]))
        lines.append("build %s: shared %s" % (exe, " ".join(objs)))
    else:
        lines.append("build %s: link %s" % (exe, " ".join(objs)))
    nf = os.path.join(out, driver + ".ninja")
    with open(nf, "w") as f:
        f.write("\n".join(lines) + "\n")
    r = subprocess.run(["ninja", "-C", out, "-f", nf, "-j", str(os.cpu_count() or 8), exe],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write("\n".join(l for l in r.stdout.splitlines() if "error" in l or "undefined" in l or "FAILED" in l)[-6000:] or r.stdout[-4000:])
        return None
    if os.path.exists(script):
        with open(start + ".new", "w") as f:
            f.write("#!/bin/sh\nCONEX_P22_REPO=%s CONEX_P22_LIB=%s exec python3-vt %s \"$@\"\n" % (REPO, exe, script))
        os.chmod(start + ".new", 0o755)
        os.replace(start + ".new", start)
        exe = start
    return exe


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2]))
