#!/usr/bin/env python3
"""Builds a simulator executable from /repo's current working tree.

usage: build.py EXE   (EXE is one of the keys of EXES)
The library's sources are compiled with the flags of the project's own Release build, in a private directory,
and linked statically with the simulator (so that its seams replace malloc, the QP solver, file access...)."""
import os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
P = "/opt/placo-venv/lib/python3.12/site-packages/cmeel.prefix"

CORE = ["core", "seam_mem", "seam_qp"]
EXES = {
    "sim_problem": ["scn_problem"],
    "sim_kin": ["scn_kin", "kinworld", "robots"],
    "sim_dyn": ["scn_dyn", "dynworld", "robots"],
    "sim_own": ["scn_own", "robots"],
    "sim_walk": ["scn_walk", "robots"],
    "sim_human": ["scn_human", "robots"],
    "sim_io": ["scn_io", "robots", "seam_io"],
    "sim_model": ["scn_model", "robots"],
    "sim_tools": ["scn_tools"],
    "sim_threads": ["scn_threads", "robots", "seam_thread"],
}


def sources():
    """libplaco's sources, as CMakeLists.txt lists them (every file under src/placo as a fallback)"""
    txt = open(f"{REPO}/CMakeLists.txt").read()
    m = re.search(r"add_library\(libplaco SHARED(.*?)\)", txt, re.S)
    srcs = re.findall(r"^\s*(src/\S+\.cpp)", m.group(1), re.M) if m else []
    if len(srcs) < 20 or "GLOB" in txt:
        srcs = sorted(os.path.relpath(os.path.join(d, f), REPO)
                      for d, _, fs in os.walk(f"{REPO}/src/placo") for f in fs if f.endswith(".cpp"))
    return srcs


def generate():
    defs = ("-DBOOST_MPL_LIMIT_LIST_SIZE=30 -DBOOST_MPL_LIMIT_VECTOR_SIZE=30 -DCOAL_BACKWARD_COMPATIBILITY_WITH_HPP_FCL "
            "-DCOAL_HAS_OCTOMAP -DCOAL_HAVE_OCTOMAP -DOCTOMAP_MAJOR_VERSION=1 -DOCTOMAP_MINOR_VERSION=10 "
            "-DOCTOMAP_PATCH_VERSION=0 -DPINOCCHIO_ENABLE_TEMPLATE_INSTANTIATION -DPINOCCHIO_WITH_HPP_FCL "
            "-DPINOCCHIO_WITH_URDFDOM -Dlibplaco_EXPORTS")
    # (same defines, include path and dependency target as the project's build: ccache can then reuse its objects)
    inc = (f"-I{REPO}/src -I{REPO}/_build -isystem {P}/include/eigen3 -isystem {P}/include "
           f"-isystem {P}/include/urdfdom -isystem {P}/include/urdfdom_headers")
    cc = "/usr/bin/ccache " if os.path.exists("/usr/bin/ccache") else ""
    libs = " ".join(f"{P}/lib/{l}" for l in [
        "libeiquadprog.so", "libjsoncpp.so", "libpinocchio_parsers.so", "liburdfdom_sensor.so", "liburdfdom_model.so",
        "liburdfdom_world.so", "libpinocchio_collision.so", "libpinocchio_visualizers.so", "libpinocchio_default.so",
        "libcoal.so", "libboost_filesystem.so", "libboost_serialization.so", "liboctomap.so", "liboctomath.so"])
    o = ["ninja_required_version = 1.3",
         "rule lib\n  command = %s/usr/bin/g++ %s %s -fPIC -O3 -DNDEBUG -std=c++17 -fPIC -MD -MT $out -MF $out.d -o $out -c $in\n  depfile = $out.d\n  deps = gcc" % (cc, defs, inc),
         "rule sim\n  command = %s/usr/bin/g++ %s %s -DCOAL_DISABLE_HPP_FCL_WARNINGS -DVERIF_DIR='\"%s\"' -O1 -g0 -DNDEBUG -std=c++17 -Wno-deprecated-declarations -MD -MT $out -MF $out.d -o $out -c $in\n  depfile = $out.d\n  deps = gcc" % (cc, defs.replace("-Dlibplaco_EXPORTS", ""), inc, VERIF),
         "rule link\n  command = /usr/bin/g++ -no-pie -rdynamic -o $out $in -Wl,-rpath,%s/lib %s -ldl -lpthread" % (P, libs)]
    objs = []
    for s in sources():
        obj = f"CMakeFiles/libplaco.dir/{s}.o"
        objs.append(obj)
        o.append(f"build {obj}: lib {REPO}/{s}")
    tus = set(CORE)
    for t in EXES.values():
        tus |= set(t)
    for t in sorted(tus):
        o.append(f"build sim/{t}.o: sim {VERIF}/sim/{t}.cpp")
    for exe, t in EXES.items():
        so = " ".join(f"sim/{x}.o" for x in CORE + t)
        o.append(f"build {exe}: link {so} {' '.join(objs)}")
    os.makedirs(BUILD, exist_ok=True)
    text = "\n".join(o) + "\n"
    path = os.path.join(BUILD, "build.ninja")
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)


def build(exe, quiet=True):
    generate()
    env = dict(os.environ)
    # the project's own object cache when it is there (only a cache: everything builds without it)
    if "CCACHE_DIR" not in env:
        env["CCACHE_DIR"] = "/opt/placo-ccache" if os.path.isdir("/opt/placo-ccache") else os.path.join(BUILD, "ccache")
    for k in [k for k in env if k.startswith("LC_") or k == "LANGUAGE"]:
        del env[k]
    env["LANG"] = "C.UTF-8"
    r = subprocess.run(["ninja", "-C", BUILD] + exe, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        keep = [l for l in r.stdout.splitlines() if "error" in l or "FAILED" in l or "undefined" in l]
        sys.stderr.write("\n".join(keep[:60]) + "\n")
    return r.returncode


if __name__ == "__main__":
    sys.exit(build(sys.argv[1:]))
