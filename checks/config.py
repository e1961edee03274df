"""What each check runs. CHECKS[id]: run(Run), rule (what makes an observation distinct), assumptions."""
import os, re, subprocess
import vbuild

def N(r, quick, thorough):
    return thorough if r.tier == "thorough" else quick

MI = lambda s: s.startswith("src/MultiIndices/")

# everything the checks build, so that tools/setup.py can fill the compiler cache beforehand
BUILDS = {
    "multi": ("asan", ["h_multi.cpp"], dict(lib_filter=MI)),
    "map": ("asan", ["h_map.cpp"], {}),
    "parts": ("asan", ["h_parts.cpp"], {}),
    "linalg": ("asan", ["h_linalg.cpp"], {}),
    "serial": ("asan", ["h_serial.cpp"], {}),
    "dist": ("asan", ["h_dist.cpp"], {}),
    "invalid": ("asan", ["h_invalid.cpp"], {}),
    "mem": ("asan", ["h_mem.cpp"], {}),
    "mempat": ("pat", ["h_mem.cpp"], {}),
    "par": ("tsan", ["h_par.cpp"], {}),
    "py": ("asan", None, {}),
}
def exe(name):
    v, h, k = BUILDS[name]
    if h is None: return vbuild.build_py(v)
    return vbuild.build(v, h, **k)

def c12(r):
    r.run_cases(exe("multi"), "C12", N(r, 3000, 60000), shards=8)

def c13(r):
    r.run_cases(exe("multi"), "C13", N(r, 6000, 120000), shards=8)

# the same programs on chosen schedules of 1 to 8 threads, under ThreadSanitizer, results compared afterwards
def c09(r):
    n = N(r, 900, 9000)
    e = exe("par")
    plans = [(4, 1), (1, 1), (2, 1), (8, 1), (3, 1), (4, 2)] if r.tier == "quick" else [(t, s) for s in range(1, 6) for t in (4, 1, 2, 3, 5, 8)]
    base, regions = None, {}
    for t, s in plans:
        lab = "t%ds%d_" % (t, s)
        r.run_cases(e, "C09", n, shards=8, threads=(t,), label=lab, env={"VH_SCHED": str(s)}, case_timeout=240)
        for f in sorted(os.listdir(r.work)):
            if f.startswith(lab) and f.endswith(".err"):
                txt = open(os.path.join(r.work, f), errors="replace").read()
                if "SUMMARY: ThreadSanitizer" in txt and not any(x["key"].startswith("race") for x in r.fails):
                    r.add_fail("race:outside", "ThreadSanitizer report outside a case", "", None, None, txt[-4000:])
                for k, v in re.findall(r"(regions|serialized|delayed|orders)=(\d+)", txt): regions[k] = regions.get(k, 0) + int(v)
        res = r.results(lab)
        if base is None: base = res
        else: r.compare(base, res, plans[0][0] == t, "schedule", "(%d threads, schedule 1 / %d threads, schedule %d)" % (plans[0][0], t, s))
    for k, v in regions.items(): r.counts["parallel_" + k] = v
    if regions.get("regions", 0) == 0: r.notes.append("no parallel region was seen")

# the Python module, under AddressSanitizer; a shim library replays every recorded program through the C++ interface
def c22(r):
    path, shim = exe("py")
    lib = lambda n: subprocess.check_output(["g++", "-print-file-name=" + n], text=True).strip()
    env = {"PYTHONPATH": path, "VH_SHIM": shim[0], "PYTHONDONTWRITEBYTECODE": "1", "PYTHONWARNINGS": "ignore", "LD_PRELOAD": lib("libasan.so") + ":" + lib("libstdc++.so")}
    r.run_cases([vbuild.PYTHON, os.path.join(vbuild.VERIF, "harness", "py_c22.py")], "C22", N(r, 3200, 60000), shards=8, threads=(1, 1, 1, 2), env=env)

# the same programs with fresh heap memory all zero / all ones, and automatic variables as they come / filled with a pattern
def c10(r):
    n = N(r, 6000, 80000)
    opt = "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=%d:malloc_context_size=8:max_malloc_fill_size=1073741824:malloc_fill_byte=%d"
    r.run_cases(exe("mem"), "C10", n, shards=8, threads=(1, 1, 1, 3), label="zero_", env={"ASAN_OPTIONS": opt % (1, 0)})
    r.run_cases(exe("mempat"), "C10", n, shards=8, threads=(1, 1, 1, 3), label="ones_", env={"ASAN_OPTIONS": opt % (0, 255)})
    r.compare(r.results("zero_"), r.results("ones_"), True, "uninit", "(fresh memory zero / filled)")

ORACLE = "runtime monitoring: randomized API workloads on the real code under AddressSanitizer+UBSan, every result judged by an independent reference evaluator (forward-mode AD over the defining formulas, with running error bounds)"

def h_map(pid, quick, thorough, threads=(1, 1, 1, 3)):
    def go(r):
        r.run_cases(exe("map"), pid, N(r, quick, thorough), shards=8, threads=threads)
    return go

def h_parts(pid, quick, thorough):
    def go(r):
        r.run_cases(exe("parts"), pid, N(r, quick, thorough), shards=8)
    return go
def simple(name, pid, quick, thorough, threads=(1,)):
    def go(r):
        r.run_cases(exe(name), pid, N(r, quick, thorough), shards=8, threads=threads)
    return go
PARTS = "runtime monitoring: randomized calls of the real building blocks under AddressSanitizer+UBSan with guarded buffers, "

SHAPES = "distinct (map structure, dimensions, basis, linearization, rectifier, quadrature, derivative mode, nugget) combinations whose results were compared"
ILL = "comparisons allow the accumulated floating-point error bound of the reference; points where that bound exceeds the value itself decide nothing"
CHECKS = {
    "C01": dict(run=h_map("C01", 8000, 120000), technique=ORACLE, rule=SHAPES, assumptions=[ILL, "fixed low-order rules are allowed to be non-monotone where their quadrature error exceeds the increment"], min_distinct=500),
    "C02": dict(run=h_map("C02", 8000, 120000), technique=ORACLE, rule=SHAPES, assumptions=["instances whose rectifier argument could overflow inside the bracketing search are not generated", "a target is only required to be found when the map is increasing and attains it within 60 of zero"], min_distinct=500),
    "C03": dict(run=h_map("C03", 8000, 120000), technique=ORACLE, rule=SHAPES, assumptions=[ILL], min_distinct=500),
    "C04": dict(run=h_map("C04", 8000, 120000), technique=ORACLE, rule=SHAPES, assumptions=[ILL], min_distinct=500),
    "C05": dict(run=h_map("C05", 8000, 120000), technique=ORACLE, rule=SHAPES, assumptions=[ILL, "coefficient gradients of log determinants of compositions need continuous derivatives (documented)"], min_distinct=500),
    "C06": dict(run=h_map("C06", 6000, 100000), technique=ORACLE, rule=SHAPES, min_distinct=500),
    "C07": dict(run=h_map("C07", 8000, 120000), technique="runtime monitoring: random operation histories against a plain model of the coefficient vector, results compared bitwise with a freshly built map", rule=SHAPES, min_distinct=500),
    "C08": dict(run=h_map("C08", 6000, 100000, threads=(1, 4, 1, 3)), technique="runtime monitoring: differential execution over layouts, interfaces, batch splits, permutations and scratch contents, with guard words around every array", rule=SHAPES, min_distinct=500),
    "C14": dict(run=h_parts("C14", 1000000, 20000000), technique=PARTS + "judged by long-double and error-bounded reference recurrences", rule="distinct (family, degree, side of the bounds, magnitude of the argument) combinations and integer parts of rectifier arguments compared with the reference", min_distinct=1000),
    "C15": dict(run=h_parts("C15", 600000, 8000000), technique=PARTS + "recorded node traces judged against closed-form integrals, exactness, budgets and workspace independence", rule="distinct (rule, order or level, metric, integrand size, minimum level, subdivision count, direction, ownership of the workspace) combinations", assumptions=["the tolerance contract is checked per accepted subinterval, for integrands whose derivatives keep one sign (so that nested differences bound the error)"], min_distinct=1000),
    "C16": dict(run=h_parts("C16", 2000000, 40000000), technique=PARTS + "the recorded function evaluations of every search are judged against the known root", rule="distinct (function family, target, guess, tolerance) classes searched", assumptions=["functions flatter than 1e-12 on average over the searched interval count as unattainable, as the code documents"], min_distinct=1000),
    "C17": dict(run=h_parts("C17", 100000, 3000000), technique=PARTS + "compared with the defining sum evaluated with error bounds, over random cache filling histories", rule="distinct (basis, term structure, cache filling history) combinations compared", min_distinct=1000),
    "C12": dict(run=c12, rule="distinct (limiter, ordered active set) states reached by random operation histories and compared with the plain set model",
                assumptions=["limiters whose value is within 1e-9 of the anisotropic threshold are skipped", "the zero multi-index is left out of margin comparisons"]),
    "C13": dict(run=c13, rule="distinct multi-indices, ordered pools, (factory, limiter) pairs and fixed term lists compared with their definitions"),
    "C09": dict(run=c09, technique="runtime monitoring: ThreadSanitizer with a scheduler that imposes thread orders and delays on every parallel region, and comparison of all recorded results between schedules and thread counts", rule="distinct (operation, map structure) programs executed on several schedules", assumptions=["one-column reductions and log-densities may differ by rounding between schedules", "the prebuilt Kokkos core library is not instrumented: its fork, join and barrier are modelled as synchronization"], min_distinct=100),
    "C10": dict(run=c10, technique="runtime monitoring: random API programs under AddressSanitizer and UBSan with assertions on; each is executed twice with different contents of fresh heap and stack memory and all results compared", rule="distinct programs (operation, map structure, options) executed", assumptions=["instances whose rectifier overflows inside a parallel region are not generated (known finding rectifier-overflow-terminate)"], min_distinct=300),
    "C23": dict(run=simple("invalid", "C23", 12000, 200000), technique="runtime monitoring: invalid requests of every kind are made under AddressSanitizer+UBSan; each must throw, and the objects involved must give bitwise the same results as before", rule="distinct (kind of invalid request, kind of object) combinations judged", min_distinct=60),
    "C22": dict(run=c22, technique="runtime monitoring: random programs through the Python module and its torch wrappers under AddressSanitizer; every recorded call is replayed through the C++ interface and compared bitwise, and gradients of torch losses with the chain rule on the C++ gradients", rule="distinct (interface, operation, array layout, map structure) combinations executed and replayed", assumptions=["maps with the exponential rectifier use bounded basis functions here, because an overflow ends the process (known finding rectifier-overflow-terminate)"], min_distinct=500),
    "C11": dict(run=simple("serial", "C11", 20000, 400000), technique="runtime monitoring: random maps, sets and scalar objects are written to shared streams and files, read back, and every operation of the original and the copy is compared bitwise; truncated archives must throw", rule="distinct (object kind, map structure, archive composition, truncation class) combinations saved and loaded", min_distinct=500),
    "C18": dict(run=simple("dist", "C18", 20000, 300000, threads=(1, 1, 1, 3)), technique="runtime monitoring: densities and samplers under AddressSanitizer+UBSan against a long-double closed form, the reference map evaluator and moment tests of recorded samples", rule="distinct (density kind, map structure, interface, layouts) combinations compared", assumptions=[ILL, "moment tests allow seven standard deviations", "targets whose inversion would overflow the rectifier are not drawn"], min_distinct=500),
    "C19": dict(run=simple("dist", "C19", 12000, 200000, threads=(1, 1, 1, 3)), technique="runtime monitoring: objective values and gradients against the error-bounded reference; every training run is watched from outside (value, coefficients, data, repetition)", rule="distinct (map structure, reference density, optimizer) combinations", assumptions=[ILL, "maps with the exponential rectifier are not trained, because an optimizer step may overflow it", "the randomized PRAXIS algorithm is exempt from repeatability"], min_distinct=500),
    "C20": dict(run=simple("dist", "C20", 6000, 100000), technique="runtime monitoring: a spy objective records the trace of gradients and test errors asked for; an offline checker replays the adaptive algorithm on it and judges the returned map and sets", rule="distinct (dimensions, options, initial sets) adaptive runs judged", assumptions=["runs whose steepest candidate is tied are not replayed"], min_distinct=300),
    "C21": dict(run=simple("linalg", "C21", 100000, 2000000, threads=(1, 1, 1, 4)), technique="runtime monitoring: random shapes, layouts, transposes and contents through the real helpers under AddressSanitizer+UBSan, compared with long-double references and position-by-position copies", rule="distinct (helper, shape, layouts, transposes) combinations", min_distinct=1000),
}
