#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree into /verif/build.

Sources are copied by content (so time stamps of a fresh checkout do not matter) and compiled with ninja.
"""
import os, sys, subprocess, fcntl, re, shutil, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
SITE = "/opt/vp/venv/lib/python3.12/site-packages"

def put(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return False
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)
    return True

def sync(src, dst, want):
    seen = set()
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if not d.startswith(".")]
        for n in files:
            if not want(n):
                continue
            p = os.path.join(root, n)
            rel = os.path.relpath(p, src)
            with open(p, "rb") as f:
                put(os.path.join(dst, rel), f.read())
            seen.add(rel)
    for root, dirs, files in os.walk(dst):
        for n in files:
            rel = os.path.relpath(os.path.join(root, n), dst)
            if rel not in seen:
                os.unlink(os.path.join(root, n))

def main():
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    ok = lambda n: n.endswith((".h", ".cc", ".c", ".in", ".hpp"))
    for d in ("fdb5", "dummy_daos"):
        sync(f"{REPO}/src/{d}", f"{BUILD}/src/{d}", ok)
    sync(f"{VERIF}/sim", f"{BUILD}/sim", lambda n: n.endswith((".h", ".cc")))
    version = open(f"{REPO}/VERSION").read().strip()
    maj, mino, pat = (version.split(".") + ["0", "0"])[:3]
    gen = f"{BUILD}/gen/fdb5"
    put(f"{gen}/fdb5_ecbuild_config.h", b"#ifndef fdb5_ecbuild_config_h\n#define fdb5_ecbuild_config_h\n#endif\n")
    on = {"fdb5_HAVE_TOCFDB", "fdb5_HAVE_DUMMY_DAOS", "fdb5_HAVE_DAOSFDB", "fdb5_HAVE_DAOS_ADMIN", "fdb5_HAVE_GRIB"}
    def conf(fn):
        t = open(f"{REPO}/src/fdb5/{fn}.in").read()
        t = re.sub(r"^#cmakedefine01 (\w+).*$", lambda m: f"#define {m[1]} {int(m[1] in on)}", t, flags=re.M)
        t = re.sub(r"^#cmakedefine (\w+).*$", lambda m: f"#define {m[1]}" if m[1] in on else f"/* #undef {m[1]} */", t, flags=re.M)
        sub = {"fdb5_VERSION_STR": version, "fdb5_VERSION": version, "fdb5_VERSION_MAJOR": maj, "fdb5_VERSION_MINOR": mino,
               "fdb5_VERSION_PATCH": pat, "PROJECT_VERSION": version, "fdb5_GIT_SHA1": ""}
        t = re.sub(r"@(\w+)@|\$\{(\w+)\}", lambda m: sub.get(m[1] or m[2], ""), t)
        put(f"{gen}/{fn}", t.encode())
    conf("fdb5_config.h"); conf("fdb5_version.h"); conf("fdb5_version.c")

    src = f"{BUILD}/src"
    fdb = []
    for p in sorted(glob.glob(f"{src}/fdb5/**/*.cc", recursive=True)):
        r = os.path.relpath(p, f"{src}/fdb5")
        if re.match(r"(tools|compat|rados|fam)/", r) or re.match(r"remote/fdb-[a-z]+\.cc$", r):
            continue
        fdb.append(p)
    for r in ("fam/FamFieldLocation.cc", "tools/FDBTool.cc", "tools/FDBVisitTool.cc"):
        p = f"{src}/fdb5/{r}"
        if os.path.exists(p):
            fdb.append(p)
    TOOLS = ("move", "hide", "overlay", "reconsolidate-toc", "wipe", "purge", "reindex")
    tools = [p for p in (f"{src}/fdb5/tools/fdb-{t}.cc" for t in TOOLS) if os.path.exists(p)]
    daos = sorted(glob.glob(f"{src}/dummy_daos/**/*.cc", recursive=True))
    simc = sorted(glob.glob(f"{BUILD}/sim/*.cc"))

    inc = " ".join(f"-isystem {SITE}/{i}" for i in ("metkitlib/include", "metkitlib/include/metkit", "eckitlib/include",
                                                     "eckitlib/include/eckit", "eckitlib/include/eckit/option", "eccodeslib/include",
                                                     "eckitlib/include/eckit/geo", "eckitlib/include/eckit/codec",
                                                     "eckitlib/include/eckit/maths", "eckitlib/include/eckit/spec"))
    libdirs = [f"{SITE}/eckitlib/lib64", f"{SITE}/metkitlib/lib64", f"{SITE}/eccodeslib/lib64", f"{SITE}/eckitlib.libs"]
    L = " ".join(f"-L{d} -Wl,-rpath,{d} -Wl,-rpath-link,{d}" for d in libdirs)
    o = []
    w = o.append
    w("ninja_required_version = 1.5")
    w(f"builddir = {BUILD}")
    w(f"fl = -g1 -fPIC -std=gnu++17 -DNDEBUG -w -pthread -I{src} -I{BUILD}/gen -I{src}/dummy_daos {inc}")
    w("rule cxx\n  command = g++ -MD -MF $out.d -O1 -fsanitize-coverage=trace-pc $fl -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    w("rule cxxp\n  command = g++ -MD -MF $out.d -O1 $fl -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    w("rule cc\n  command = gcc -g1 -fPIC -w -I%s/gen -c $in -o $out" % BUILD)
    w(f"rule so\n  command = g++ -shared -Wl,--disable-new-dtags -o $out @$out.rsp -Wl,-rpath,{BUILD}/lib {L} -L{BUILD}/lib $libs\n  rspfile = $out.rsp\n  rspfile_content = $in_newline")
    w(f"rule exe\n  command = g++ -rdynamic -o $out @$out.rsp -Wl,--disable-new-dtags -Wl,-rpath,{BUILD}/lib -L{BUILD}/lib {L} $libs\n  rspfile = $out.rsp\n  rspfile_content = $in_newline")
    w("rule tool\n  command = g++ -MD -MF $out.d -O1 -fsanitize-coverage=trace-pc $fl -Dmain=$main -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    def objs(files, rule):
        r = []
        for p in files:
            ob = f"{BUILD}/obj/" + os.path.relpath(p, BUILD).replace("/", "_") + ".o"
            w(f"build {ob}: {rule} {p}")
            r.append(ob)
        return " ".join(r)
    d = objs(daos, "cxx")
    f = objs(fdb, "cxx")
    f += " " + objs([f"{gen}/fdb5_version.c"], "cc")
    s = objs(simc, "cxxp")
    for p in tools:
        n = re.sub(r"\W", "_", os.path.basename(p)[:-3])
        s += f" {BUILD}/obj/tool_{n}.o"
        w(f"build {BUILD}/obj/tool_{n}.o: tool {p}\n  main = {n}_main")
    # symbols such as __sanitizer_cov_trace_pc and the C library calls are provided by the executable
    w(f"build {BUILD}/lib/libdummy_daos.so: so {d}\n  libs = -leckit -luuid")
    w(f"build {BUILD}/lib/libfdb5.so: so {f} | {BUILD}/lib/libdummy_daos.so\n  libs = -lmetkit -leckit -leckit_option -luuid -ldummy_daos -leccodes")
    w(f"build {BUILD}/sim.bin: exe {s} | {BUILD}/lib/libfdb5.so {BUILD}/lib/libdummy_daos.so\n  libs = -lfdb5 -ldummy_daos -lmetkit -leckit -leckit_option -leckit_distributed -leccodes -ldl -lpthread -luuid")
    w(f"default {BUILD}/sim.bin")
    put(f"{BUILD}/build.ninja", ("\n".join(o) + "\n").encode())
    r = subprocess.run(["ninja", "--quiet", "-C", BUILD, "-j", str(os.cpu_count() or 8)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:])
    return r.returncode

if __name__ == "__main__":
    sys.exit(main())
