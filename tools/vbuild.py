"""Builds /repo's current working tree plus a harness into /verif/build/<variant>, offline.

ninja decides what to run; ccache (content-hashed) makes rebuilds cheap when the build
folder survived, and is only a speed-up: without it everything is compiled from scratch.
"""
import glob, os, shutil, subprocess, sys, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

DEFS = "-std=gnu++17 -fopenmp -DKOKKOS_ENABLE_CXX17 -DKOKKOS_DEPENDENCE -DMPART_HAS_CEREAL -DMPART_HAS_NLOPT -DNLOPT_DLL -fPIC -w"
UB = "bool,enum,shift,signed-integer-overflow,bounds,integer-divide-by-zero,return,unreachable,float-cast-overflow"
VARIANTS = {
    # asserts stay on (as in the project's own build); no FMA contraction so results are reproducible
    "rel":  "-O1 -ffp-contract=off",
    "asan": "-O1 -g1 -ffp-contract=off -fno-omit-frame-pointer -fsanitize=address -fsanitize=%s -fno-sanitize-recover=all -DVH_ASAN" % UB,
    # as asan, with every automatic variable starting out as a pattern instead of whatever the stack held
    "pat":  "-O1 -g1 -ffp-contract=off -fno-omit-frame-pointer -fsanitize=address -fsanitize=%s -fno-sanitize-recover=all -DVH_ASAN -ftrivial-auto-var-init=pattern" % UB,
    "tsan": "-O1 -g1 -ffp-contract=off -fno-omit-frame-pointer -fsanitize=thread -DVH_TSAN",
}
LIBS = "/usr/lib/x86_64-linux-gnu/libkokkoscontainers.so /usr/lib/x86_64-linux-gnu/libkokkoscore.so -lnlopt -ldl -lm -lpthread"

# ThreadSanitizer does not see Kokkos' pool barrier (relaxed atomics, fences and a wait inside the prebuilt library), so
# its builds use a copy of that header whose arrive and wait announce themselves.
def barrier_header(d):
    src = open("/usr/include/impl/Kokkos_HostBarrier.hpp").read()
    out = src.replace("    ++step;\n", "    ++step; vh_barrier_arrive();\n").replace(
        "    if (result) {\n      Kokkos::memory_fence();\n", "    if (result) { vh_barrier_passed();\n      Kokkos::memory_fence();\n").replace(
        "      impl_backoff_wait_until_equal(ptr, v, active_wait);\n    }\n  }", "      impl_backoff_wait_until_equal(ptr, v, active_wait); vh_barrier_passed();\n    }\n  }").replace(
        "    Kokkos::memory_fence();\n    Kokkos::atomic_fetch_sub(buffer + arrive_idx, size);", "    vh_barrier_passed(); vh_barrier_arrive(); Kokkos::memory_fence();\n    Kokkos::atomic_fetch_sub(buffer + arrive_idx, size);").replace(
        "#define KOKKOS_HOST_BARRIER_HPP\n", "#define KOKKOS_HOST_BARRIER_HPP\nextern \"C\" { void vh_barrier_arrive(); void vh_barrier_passed(); }\n", 1)
    if out.count("vh_barrier_arrive();") != 3 or out.count("vh_barrier_passed();") != 4:
        raise BuildError("unexpected Kokkos_HostBarrier.hpp")
    f = os.path.join(d, "shadow", "impl", "Kokkos_HostBarrier.hpp")
    os.makedirs(os.path.dirname(f), exist_ok=True)
    if not (os.path.exists(f) and open(f).read() == out):
        open(f, "w").write(out)
    return " -I" + os.path.join(d, "shadow")

class BuildError(Exception):
    pass

def lib_sources():
    return sorted(s for s in glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))

def gxx():
    return ("ccache " if shutil.which("ccache") else "") + "g++"

def obj_name(src):
    return hashlib.sha1(src.encode()).hexdigest()[:8] + "_" + os.path.basename(src) + ".o"

PYTHON = "/opt/mpart-venv/bin/python3"
def build_py(variant="asan", shim=("pyshim.cpp",), jobs=8):
    """Builds the Python module (bindings of /repo's working tree) with the given variant; returns the folder to put on PYTHONPATH."""
    d = os.path.join(BUILD, variant); p = os.path.join(BUILD, variant, "py", "mpart")
    os.makedirs(p, exist_ok=True)
    pk = os.path.join(REPO, "bindings", "python")
    names = {os.path.basename(f) for f in glob.glob(os.path.join(pk, "package", "*"))}
    for f in os.listdir(p):
        if f.endswith(".py") and f not in names: os.unlink(os.path.join(p, f))
    for f in names: shutil.copyfile(os.path.join(pk, "package", f), os.path.join(p, f))
    src = sorted(glob.glob(os.path.join(pk, "src", "*.cpp"))) + [os.path.join(REPO, "bindings", "common", "src", "CommonUtilities.cpp")]
    inc = subprocess.run([PYTHON, "-c", "import sysconfig; print(sysconfig.get_path('include'), sysconfig.get_config_var('EXT_SUFFIX'))"], stdout=subprocess.PIPE, text=True).stdout.split()
    flags = VARIANTS[variant]
    nin = rules(flags, d)
    objs = []
    for s in lib_sources():
        o = os.path.join(d, obj_name(s)); objs.append(o); nin.append("build %s: cxx %s" % (o, s))
    so = os.path.join(d, "libmpart_full.so")
    nin.append("build %s: so %s" % (so, " ".join(objs)))
    bo = []
    for s in src:
        o = os.path.join(d, "py_" + obj_name(s)); bo.append(o)
        nin.append("build %s: cxx %s\n  xflags = -fvisibility=default -I%s/include -I%s/bindings/common/include -isystem %s" % (o, s, pk, REPO, inc[0]))
    mod = os.path.join(p, "pympart" + inc[1])
    nin.append("build %s: mod %s %s" % (mod, " ".join(bo), so))
    outs = [mod]
    for h in shim:
        s = os.path.join(VERIF, "harness", h); o = os.path.join(d, "h_" + obj_name(s)); t = os.path.join(d, os.path.splitext(h)[0] + ".so")
        nin.append("build %s: cxx %s\n  xflags = " % (o, s)); nin.append("build %s: mod %s %s" % (t, o, so)); outs.append(t)
    nin.append("default %s" % " ".join(outs))
    run_ninja(d, os.path.join(d, "py.ninja"), nin, jobs)
    return os.path.dirname(p), outs[1:]

def rules(flags, d, extra_ldflags=""):
    return [
        "ninja_required_version = 1.5",
        "rule cxx",
        "  command = %s %s %s $xflags -I%s -I%s -isystem /usr/include/eigen3 -MD -MF $out.d -c $in -o $out" % (gxx(), DEFS, flags, REPO, os.path.join(VERIF, "harness")),
        "  depfile = $out.d", "  deps = gcc", "  description = CXX $in",
        "rule so",
        "  command = g++ -fopenmp %s -shared -o $out $in %s" % (flags, LIBS),
        "rule mod",
        "  command = g++ -fopenmp %s -shared -o $out $in -Wl,-rpath,%s %s" % (flags, d, LIBS),
        "rule exe",
        "  command = g++ -fopenmp %s -rdynamic -o $out $in %s -Wl,-rpath,%s %s" % (flags, extra_ldflags, d, LIBS),
    ]

def run_ninja(d, nf, nin, jobs):
    txt = "\n".join(nin) + "\n"
    if not (os.path.exists(nf) and open(nf).read() == txt):
        with open(nf, "w") as f: f.write(txt)
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    env["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    env["CCACHE_MAXSIZE"] = "3G"
    env["CCACHE_SLOPPINESS"] = "time_macros,include_file_mtime,include_file_ctime"
    env["CCACHE_COMPRESS"] = "1"
    env["CCACHE_COMPILERCHECK"] = "content"
    r = subprocess.run(["ninja", "-C", d, "-f", nf, "-j", str(jobs)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(r.stdout[-6000:])

def build(variant, harness, exclude=(), extra_flags="", shared_lib=True, jobs=8, extra_ldflags="", lib_filter=None):
    """Builds harness (list of source files under /verif/harness) into one executable; returns its path."""
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    flags = VARIANTS[variant]
    if variant == "tsan":
        flags += barrier_header(d)
    name = os.path.splitext(os.path.basename(harness[0]))[0]
    exe = os.path.join(d, name)
    libsrc = [s for s in lib_sources() if lib_filter is None or lib_filter(os.path.relpath(s, REPO))]
    tag = "full" if lib_filter is None else name
    nin = rules(flags, d, extra_ldflags)
    objs = []
    for s in libsrc:
        o = os.path.join(d, obj_name(s)); objs.append(o)
        nin.append("build %s: cxx %s" % (o, s))
    so = os.path.join(d, "libmpart_%s.so" % tag)
    nin.append("build %s: so %s" % (so, " ".join(objs)))
    hobjs = []
    for h in harness:
        s = os.path.join(VERIF, "harness", h)
        o = os.path.join(d, "h_" + obj_name(s)); hobjs.append(o)
        nin.append("build %s: cxx %s\n  xflags = %s" % (o, s, extra_flags))
    nin.append("build %s: exe %s %s" % (exe, " ".join(hobjs), so))
    nin.append("default %s" % exe)
    run_ninja(d, os.path.join(d, name + ".ninja"), nin, jobs)
    return exe
