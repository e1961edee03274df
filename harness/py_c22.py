"""C22: random programs through the Python module (and mpart.torch), under AddressSanitizer. Everything done is recorded and
replayed through the C++ interface in the same process (pyshim.so), which must give bitwise the same results."""
import sys, os, json, random, ctypes, pickle, tempfile, gc, math, copy
import numpy as np, torch, dill
import mpart as mt
torch.set_num_threads(1)
A = dict(zip(sys.argv[1::2], sys.argv[2::2])) if "--verbose" not in sys.argv and "--thorough" not in sys.argv else None
def arg(n, d=None): return sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
SHIM = ctypes.CDLL(os.environ["VH_SHIM"]); SHIM.vh_replay.restype = ctypes.c_char_p
VERB = "--verbose" in sys.argv
HX = lambda v: float(v).hex() if math.isfinite(v) else repr(float(v))

class Fail(Exception): pass
class Ctx:
    def __init__(s, out, prop, seed):
        s.f = open(out, "w"); s.prop, s.seed = prop, seed; s.evals = 0; s.distinct = set(); s.counts = {}; s.samples = []
    def begin(s, i):
        s.i = i; s.desc = ""; s.r = random.Random("%d/%s/%d" % (s.seed, s.prop, i)); s.lines = []; s.nid = 0; s.out("B %d" % i)
    def out(s, l): s.f.write(l + "\n"); s.f.flush()
    def describe(s, d): s.desc = d; s.out("D %d %s" % (s.i, d[:1500])); VERB and print(d)
    def count(s, k, n=1): s.counts[k] = s.counts.get(k, 0) + n
    def cover(s, *k): s.distinct.add(hash(k) & 0xffffffffffff)
    def check(s, ok, key, msg=""):
        s.evals += 1
        if not ok:
            s.out("F " + json.dumps({"key": key, "msg": str(msg)[:600], "desc": s.desc[:1200], "case": s.i})); VERB and print("FAIL", key, msg)
        return ok
    def id(s): s.nid += 1; return s.nid
    def rec(s, *w): s.lines.append(" ".join(str(q) for q in w))
    def replay(s):
        txt = "\n".join(s.lines)
        if VERB: print(txt[:6000])
        for l in SHIM.vh_replay(txt.encode()).decode().split("\n"):
            t = l.split(" ", 2)
            if t[0] == "n": s.evals += int(t[1]); s.count("replayed", int(t[1]))
            elif t[0] in ("bad", "error"):
                w = s.lines[int(t[1])].split(); k = w[0] + ("-" + (w[1] if w[0] == "op" else w[2]) if w[0] in ("op", "msop") else "")
                s.check(False, ("differs:" if t[0] == "bad" else "refused:") + k, "%s | %s" % (t[2] if len(t) > 2 else "", s.lines[int(t[1])][:400]))
    def end(s):
        s.out("S " + json.dumps({"evals": s.evals, "distinct": [str(x) for x in s.distinct], "counts": s.counts, "samples": s.samples[:4]}))

def M(a):
    a = np.asarray(a, dtype=np.float64)
    if a.ndim == 1: a = a.reshape(-1, 1)
    return "%d %d %s" % (a.shape[0], a.shape[1], " ".join(HX(v) for v in a.T.reshape(-1)))
def V(v):
    v = np.asarray(v, dtype=np.float64).reshape(-1); return "%d %s" % (len(v), " ".join(HX(q) for q in v))
def VF(a): return V(np.asarray(a, dtype=np.float64).T.reshape(-1))     # a matrix, column by column
def U(v): return "%d %s" % (len(v), " ".join(str(int(q)) for q in v))

# ---- arrays in every layout -------------------------------------------------------------------------------------------
def layouts(r, a, dt=False):
    """the same matrix as some numpy array; returns (array, name)"""
    a = np.array(a, dtype=np.float64); k = r.randrange(10 if dt else 8)
    if k == 0: return np.ascontiguousarray(a), "C"
    if k == 1: return np.asfortranarray(a), "F"
    if k == 2:
        b = np.full((2 * a.shape[0] + 1, 3 * a.shape[1] + 2), np.nan); b[1:1 + 2 * a.shape[0]:2, 2:2 + 3 * a.shape[1]:3] = a; return b[1:1 + 2 * a.shape[0]:2, 2:2 + 3 * a.shape[1]:3], "strided"
    if k == 3: return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1], "negative"
    if k == 4:
        b = np.full((a.shape[0] + 3, a.shape[1] + 2), np.nan); b[2:2 + a.shape[0], 1:1 + a.shape[1]] = a; return b[2:2 + a.shape[0], 1:1 + a.shape[1]], "block"
    if k == 5: b = np.array(a); b.flags.writeable = False; return b, "readonly"
    if k == 6: b = np.array(a.T, order="C"); return b.T, "transposed"
    if k == 7:
        b = np.full((a.shape[1] + 1, a.shape[0] + 4), np.nan); b[:a.shape[1], 3:3 + a.shape[0]] = a.T; return b[:a.shape[1], 3:3 + a.shape[0]].T, "block-transposed"
    if k == 8: return a.astype(np.float32), "float32"
    return np.round(a).astype(np.int64), "int"
def tensors(r, a, dtype=torch.double):
    a = torch.tensor(np.array(a, dtype=np.float64)).to(dtype); k = r.randrange(5)
    if k == 0: return a.contiguous(), "C"
    if k == 1: return a.T.contiguous().T, "F"
    if k == 2: b = torch.full((2 * a.shape[0] + 1, 2 * a.shape[1] + 1), float("nan"), dtype=dtype); b[1:1 + 2 * a.shape[0]:2, 1:1 + 2 * a.shape[1]:2] = a; return b[1:1 + 2 * a.shape[0]:2, 1:1 + 2 * a.shape[1]:2], "strided"
    if k == 3: b = torch.full((a.shape[0] + 2, a.shape[1] + 3), float("nan"), dtype=dtype); b[1:1 + a.shape[0], 2:2 + a.shape[1]] = a; return b[1:1 + a.shape[0], 2:2 + a.shape[1]], "block"
    if a.shape[0] and bool((a == a[0]).all()): return a[:1].expand(a.shape[0], a.shape[1]), "expanded"
    return a.clone(), "clone"

# ---- maps --------------------------------------------------------------------------------------------------------------
def gen_opts(c):
    r = c.r; o = mt.MapOptions(); b = r.randrange(3); q = r.randrange(3); p = r.randrange(2); norm = r.random() < 0.5
    if p == 0: b = 2      # the exponential of an unbounded polynomial overflows
    lb, ub = (-r.uniform(0.5, 3), r.uniform(0.5, 3)) if r.random() < 0.5 else (-math.inf, math.inf)
    o.basisType = [mt.BasisTypes.ProbabilistHermite, mt.BasisTypes.PhysicistHermite, mt.BasisTypes.HermiteFunctions][b]
    o.posFuncType = [mt.PosFuncTypes.Exp, mt.PosFuncTypes.SoftPlus][p]; o.quadType = [mt.QuadTypes.ClenshawCurtis, mt.QuadTypes.AdaptiveSimpson, mt.QuadTypes.AdaptiveClenshawCurtis][q]
    o.basisNorm, o.basisLB, o.basisUB = norm, lb, ub
    o.quadAbsTol, o.quadRelTol = r.choice([1e-6, 1e-4, 1e-8]), r.choice([1e-6, 1e-3]); o.quadMaxSub, o.quadMinSub, o.quadPts = r.choice([30, 10, 5]), r.choice([0, 1, 2]), r.choice([5, 6, 9])
    o.contDeriv, o.nugget = r.random() < 0.6, r.choice([0.0, 0.0, 1e-3, 0.2])
    i = c.id(); c.rec("opts", i, opt_txt(o, b, p, q)); return i, o, (b, norm, math.isinf(lb), p, q, o.contDeriv, o.nugget > 0)
def opt_txt(o, b=None, p=None, q=None):
    b = int(o.basisType) if b is None else b; p = int(o.posFuncType) if p is None else p; q = int(o.quadType) if q is None else q
    return " ".join(str(v) for v in [b, int(o.basisNorm), HX(o.basisLB), HX(o.basisUB), p, q, HX(o.quadAbsTol), HX(o.quadRelTol), o.quadMaxSub, o.quadMinSub, o.quadPts, int(o.contDeriv), HX(o.nugget)])
def gen_multis(r, d, maxn=7, maxp=3):
    n = r.randrange(1, maxn + 1); S = [tuple([0] * d)] if r.random() < 0.7 else []
    while len(S) < n:
        m = tuple(r.choice([0, 0, 1, 1, 2, r.randrange(maxp + 1)]) for _ in range(d))
        if m not in S: S.append(m)
        elif r.random() < 0.3: break
    if not S: S = [tuple([1] * d)]
    r.shuffle(S); return S
def mat_text(S): return "%d %d %s" % (len(S[0]), len(S), " ".join(str(q) for m in S for q in m))
class Node: pass
def node(c, obj, shape, **k):
    n = Node(); n.o, n.i, n.shape = obj, c.id(), shape
    n.serial = n.ldgrad = n.ldc = n.ismap = True; n.cont = True; n.comp = False
    for a, b in k.items(): setattr(n, a, b)
    n.nin, n.nout, n.nc = obj.inputDim, obj.outputDim, obj.numCoeffs; return n
def fixed(c, S, comp):
    """a FixedMultiIndexSet with these terms, made in one of the ways Python offers"""
    r = c.r; k = r.randrange(4); d = len(S[0])
    arr = np.array(S, dtype=np.int32)
    if k == 0: arr = np.asfortranarray(arr)
    if k == 1: arr = np.repeat(arr, 2, axis=0)[::2]
    if k == 2 and not comp:
        f = mt.FixedMultiIndexSet(d, np.array(S, dtype=np.uint32).reshape(-1)); churn(r); c.count("FixedMultiIndexSet-dense"); return f
    f = mt.MultiIndexSet(arr).fix(comp); del arr
    if k == 3: f = pickle.loads(pickle.dumps(f)); c.count("FixedMultiIndexSet-pickle")
    return f
def churn(r):
    for _ in range(3): np.full(r.randrange(1, 64), 7, dtype=np.uint32).sum()
    junk = [np.full(r.randrange(1, 40), np.nan) for _ in range(20)]; del junk
def gen_comp(c, d):
    i, o, key = gen_opts(c); S = gen_multis(c.r, d); comp = c.r.random() < 0.7
    m = mt.CreateComponent(fixed(c, S, comp), o); n = node(c, m, ("comp", d, key, len(S), comp), ldgrad=o.contDeriv, cont=o.contDeriv, comp=True, exp=key[3] == 0, adaptive=key[4] > 0)
    c.rec("comp", n.i, i, int(comp), mat_text(S)); del o; return n
def gen_map(c, depth=2, nin=None, nout=None):
    r = c.r; nin = r.randrange(1, 4) if nin is None else nin; nout = r.randrange(1, nin + 1) if nout is None else nout
    k = r.randrange(10)
    if nout == 1 and k < 5: return gen_comp(c, nin)
    if k < 4 or depth == 0:
        i, o, key = gen_opts(c); p = r.randrange(1, 3); m = mt.CreateTriangular(nin, nout, p, o)
        n = node(c, m, ("totri", nin, nout, p, key), ldgrad=o.contDeriv, cont=o.contDeriv, exp=key[3] == 0); c.rec("totri", n.i, i, nin, nout, p); return n
    if k < 7:
        ch = []; left = nout
        while left: q = r.randrange(1, left + 1); left -= q; ch.append(q)
        ns = []; cur = nin - nout
        for q in ch: cur += q; ns.append(gen_map(c, depth - 1, cur, q))
        mv = r.random() < 0.3 and all(hasco(x) for x in ns)
        n = node(c, mt.TriangularMap([x.o for x in ns], mv) if r.random() < 0.5 else mt.TriangularMap(comps=[x.o for x in ns], moveCoeffs=mv), ("tri",) + tuple(x.shape for x in ns), kids=ns, **merge(ns))
        c.rec("tri", n.i, U([x.i for x in ns])); return n
    if k == 7 and nin == nout:
        ns = [gen_map(c, depth - 1, nin, nin) for _ in range(r.randrange(1, 4))]; chk = r.choice([-1, 1, 2, 3])
        mv = r.random() < 0.3 and all(hasco(x) for x in ns)
        n = node(c, mt.ComposedMap([x.o for x in ns], mv, chk), ("compose", chk) + tuple(x.shape for x in ns), kids=ns, **merge(ns)); n.serial = False; n.ldc = n.ldc and all(x.ldgrad for x in ns)
        c.rec("compose", n.i, chk, U([x.i for x in ns])); return n
    if k == 8:
        if r.random() < 0.3:
            n = node(c, mt.IdentityMap(nin, nout), ("ident", nin, nout), serial=False); c.rec("ident", n.i, nin, nout); return n
        Q = np.array([[r.gauss(0, 1) for _ in range(nin)] for _ in range(nout)])
        for i in range(nout): Q[i, nin - nout + i] += 3
        b = np.array([r.gauss(0, 1) for _ in range(nout)]); w = r.choice([1, 3]) if nin != nout else r.choice([1, 2, 3])
        n = affine(c, mt.AffineMap, "affmap", Q, b, w); n.serial = False; return n
    if k == 9 and nin > 1 and nout == 1:
        # an affine summary of the first inputs, then a map of it and the rest
        p = nin - nout; s = r.randrange(1, p + 1); Q = np.array([[r.gauss(0, 1) for _ in range(p)] for _ in range(s)])
        f = affine(c, mt.AffineFunction, "afffun", Q, np.array([r.gauss(0, 1) for _ in range(s)]), r.choice([1, 3])); g = gen_map(c, depth - 1, s + nout, nout)
        n = node(c, mt.SummarizedMap(f.o, g.o), ("summ", f.shape, g.shape), kids=[g], **merge([g])); n.serial = False; n.f = f; c.rec("summ", n.i, f.i, g.i); return n
    return gen_map(c, 0, nin, nout)
def hasco(n):
    try: n.o.CoeffMap(); return n.nc > 0
    except Exception: return False
def merge(ns): return dict(ldgrad=all(x.ldgrad for x in ns), cont=all(x.cont for x in ns), serial=all(x.serial for x in ns), ldc=all(x.ldc for x in ns), exp=any(getattr(x, "exp", False) for x in ns))
def affine(c, cls, word, Q, b, w):
    r = c.r
    def wr(a):    # arrays the interface wants writable
        for _ in range(20):
            q, nm = layouts(r, a)
            if q.flags.writeable and nm != "negative": return q
        return np.array(a)
    if Q.size == 1 and w == 1: w = 3      # a single number alone is taken as a shift
    q = wr(Q); bb = wr(b.reshape(1, -1))[0]
    try: o = cls(q, bb) if w == 3 else cls(q) if w == 1 else cls(bb)
    except TypeError: q, bb = np.asfortranarray(Q), np.array(b); o = cls(q, bb) if w == 3 else cls(q) if w == 1 else cls(bb); c.count("affine-retried")
    if r.random() < 0.5: q[...] = np.nan; bb[...] = np.nan
    del q, bb; churn(r)
    n = node(c, o, (word, w) + Q.shape, ismap=cls is mt.AffineMap); c.rec(word, n.i, w, *([M(Q)] if w & 1 else []), *([V(b)] if w & 2 else [])); return n

def coeffs_for(c, n):
    s = c.r.choice([0.1, 0.4, 0.8]) if not getattr(n, "exp", False) else 0.1; return np.array([s * c.r.gauss(0, 1) for _ in range(n.nc)])
def set_coeffs(c, n, v):
    k = c.r.randrange(3)
    if n.nc == 0: return
    if k == 1 and hasco(n):      # through the view the map hands out
        m = n.o.CoeffMap(); m[:] = v; del m; c.count("set-through-CoeffMap")
    elif k == 2 and hasco(n):
        m = n.o.CoeffMap()
        for i in range(len(m)): m[i] = v[i]
    else: w = np.array(v); n.o.SetCoeffs(w); w[:] = np.nan; del w; churn(c.r)
    c.rec("coef", n.i, V(v))
def points(c, d, N): return np.array([[c.r.gauss(0, 1) * c.r.choice([1, 1, 2]) for _ in range(N)] for _ in range(d)]).reshape(d, N)

OPS = ["eval", "grad", "cgrad", "logdet", "ldi", "ldc", "inv"]
def usable(n, op):
    if op in ("logdet", "inv", "ldi", "ldc") and not n.ismap: return False
    if op == "ldi": return n.ldgrad
    if op in ("ldc", "cgrad"): return n.nc > 0 and (op == "cgrad" or n.ldc)
    return True
ext = lambda t: mt.ExtractTorchTensorData(t)
def call(c, n, op, x, s):
    """runs op on the logical arrays x and s through a random interface; returns (logical x used, logical s used, result)"""
    r = c.r; o = n.o; N = x.shape[1]
    if r.random() < 0.6:
        X, nx = layouts(r, x, True); c.cover("np", op, nx, n.shape); c.count("numpy-" + op)
        if nx in ("float32", "int"): x = np.array(X, dtype=np.float64)
        if s is not None:
            Sx, ns = layouts(r, s, True)
            if ns in ("float32", "int"): s = np.array(Sx, dtype=np.float64)
            if op == "inv" and ns == "int": s = np.array(Sx, dtype=np.float64)
        keep = (X.copy(), None if s is None else Sx.copy())
        f = {"eval": o.Evaluate, "grad": o.Gradient, "cgrad": o.CoeffGrad}.get(op) or {"logdet": "LogDeterminant", "ldi": "LogDeterminantInputGrad", "ldc": "LogDeterminantCoeffGrad", "inv": "Inverse"}[op]
        if isinstance(f, str): f = getattr(o, f)
        y = f(X) if s is None else f(X, Sx)
        c.check(np.array_equal(X, keep[0], equal_nan=True) and (s is None or np.array_equal(Sx, keep[1], equal_nan=True)), "input-modified:" + op)
        return x, s, y
    X, nx = tensors(r, x); c.cover("ptr", op, nx, n.shape); c.count("pointer-" + op)
    rows = {"eval": n.nout, "grad": n.nin, "cgrad": n.nc, "ldi": n.nin, "ldc": n.nc, "inv": n.nout, "logdet": 1}[op]
    out, no = tensors(r, np.full((rows, N), 3.25))
    if no == "expanded" or 0 in out.stride(): out = torch.full((rows, N), 3.25, dtype=torch.double)
    if op == "logdet":
        if out.dim() == 2: out = out[0]
        o.LogDeterminantImpl(ext(X), ext(out)); return x, s, out.numpy()
    if s is not None: Sx, _ = tensors(r, s)
    if op == "eval": o.EvaluateImpl(ext(X), ext(out))
    elif op == "grad": o.GradientImpl(ext(X), ext(Sx), ext(out))
    elif op == "cgrad": o.CoeffGradImpl(ext(X), ext(Sx), ext(out))
    elif op == "ldi": o.LogDeterminantInputGradImpl(ext(X), ext(out))
    elif op == "ldc": o.LogDeterminantCoeffGradImpl(ext(X), ext(out))
    else: o.InverseImpl(ext(X), ext(Sx), ext(out))
    return x, s, out.numpy()
def do_op(c, n, op=None, tag=0):
    r = c.r
    for _ in range(20):
        q = op or r.choice(OPS)
        if usable(n, q) and not (q == "inv" and getattr(n, "noinv", False)): break
    else: q = "eval"
    N = r.choice([0, 1, 1, 2, 3, 5, 9]); s = None
    if q == "inv":
        N = max(N, 1); x = points(c, n.nin, N); s = n.o.Evaluate(x)
        if not np.isfinite(s).all(): q = "eval"; s = None
        else:
            p = n.nin - n.nout; x = x if r.random() < 0.3 or p == 0 else x[:p + r.randrange(n.nout + 1)]
            if "ident" in str(n.shape): x = x if x.shape[0] >= p else x
    else: x = points(c, n.nin, N)
    if q in ("grad", "cgrad"): s = points(c, n.nout, N)
    x, s, y = call(c, n, q, x, s)
    c.rec("op", q, n.i, tag, M(x), *([M(s)] if s is not None else []), VF(y if np.ndim(y) == 2 else np.reshape(y, (1, -1))))
def same_everywhere(c, n, m, why):
    """another object that must behave bitwise as n does"""
    c.check(m.inputDim == n.nin and m.outputDim == n.nout and m.numCoeffs == n.nc, why + "-dims", (m.inputDim, m.outputDim, m.numCoeffs))
    x = points(c, n.nin, 3); s = points(c, n.nout, 3)
    if n.nc: c.check(np.array_equal(m.CoeffMap(), n.o.CoeffMap()), why + "-coeffs")
    c.check(np.array_equal(m.Evaluate(x), n.o.Evaluate(x), equal_nan=True), why + "-evaluate")
    c.check(np.array_equal(m.Gradient(x, s), n.o.Gradient(x, s), equal_nan=True), why + "-gradient")
    if n.ismap and hasattr(m, "LogDeterminant"): c.check(np.array_equal(m.LogDeterminant(x), n.o.LogDeterminant(x), equal_nan=True), why + "-logdet")
    c.check(not n.ismap or (hasattr(m, "LogDeterminant") and hasattr(m, "Inverse")), why + "-type", type(m))

def new_map(c, depth=2):
    while True:
        c.lines = []; n = gen_map(c, depth)
        if getattr(n, "exp", False) and "compose" in str(n.shape): continue      # outputs of one map can overflow the next one's exponential
        v = coeffs_for(c, n); set_coeffs(c, n, v) if n.nc else None; n.v = v
        y = n.o.Evaluate(points(c, n.nin, 4)); n.noinv = not np.isfinite(y).all() or (getattr(n, "exp", False) and np.abs(v).max(initial=0) > 1.2)
        c.describe("map %s c=%s" % (n.shape, [round(q, 3) for q in v])); c.rec("dims", n.i, V([n.nin, n.nout, n.nc])); return n

# ---- case kinds --------------------------------------------------------------------------------------------------------
def c_map(c):
    n = new_map(c); r = c.r
    for _ in range(r.randrange(3, 8)):
        k = r.random()
        if k < 0.75: do_op(c, n)
        elif k < 0.85 and n.nc: set_coeffs(c, n, coeffs_for(c, n))
        elif k < 0.95 and n.nc:
            m = n.o.CoeffMap(); c.check(m.shape == (n.nc,) and np.array_equal(m, n.o.CoeffMap()), "CoeffMap-shape")
        else: gc.collect(); churn(r)
    c.replay()
def c_life(c):
    """objects and arrays outlive the Python names they came from"""
    n = new_map(c); r = c.r; k = r.randrange(4); c.cover("life", k, n.shape); c.count("lifetime")
    if k == 0 and n.nc:
        v = np.array(n.o.CoeffMap()); m = n.o.CoeffMap(); n.o = None; n.kids = None; gc.collect(); churn(r)
        c.check(np.array_equal(m, v), "CoeffMap-outlives-map", (m, v))
    elif k == 1 and n.shape[0] == "tri":
        j = r.randrange(len(n.kids)); comp = n.o.GetComponent(j); x = points(c, comp.inputDim, 2)
        y = comp.Evaluate(x); full = n.o; n.o = None; n.kids = None; del full; gc.collect(); churn(r); c.check(np.array_equal(comp.Evaluate(x), y, equal_nan=True), "GetComponent-outlives-map")
    elif k == 2 and n.nc and n.ismap:
        base = n.o.GetBaseFunction(); del base; do_op(c, n); c.replay()
    else:
        y = n.o.Evaluate(points(c, n.nin, 3)); z = y.copy(); n.o = None; n.kids = None; gc.collect(); churn(r); c.check(np.array_equal(y, z, equal_nan=True), "result-outlives-map")
def c_serial(c):
    n = new_map(c); r = c.r
    if not n.serial:
        for f in (lambda: n.o.ToBytes(), lambda: pickle.dumps(n.o)):
            try: f(); c.check(False, "serialized-unserializable", n.shape)
            except Exception: c.check(True, "")
        return
    c.cover("serial", n.shape); c.count("serialized")
    cls = mt.TriangularMap if n.shape[0] in ("tri", "totri") and r.random() < 0.5 else mt.ConditionalMapBase if r.random() < 0.6 else mt.ParameterizedFunctionBase
    same_everywhere(c, n, cls.FromBytes(n.o.ToBytes()), "FromBytes"); same_everywhere(c, n, pickle.loads(pickle.dumps(n.o)), "pickle")
    k = r.randrange(4)
    if k == 0: same_everywhere(c, n, copy.deepcopy(n.o), "deepcopy")
    if k == 1: same_everywhere(c, n, dill.loads(dill.dumps(n.o)), "dill")
    if k == 2 and n.nc:
        with tempfile.TemporaryDirectory() as d:
            n.o.Serialize(d + "/m"); a, b, co = mt.DeserializeMap(d + "/m"); c.check((a, b) == (n.nin, n.nout) and list(co) == list(n.o.CoeffMap()), "DeserializeMap", (a, b, co))
    if k == 3:
        b = n.o.ToBytes(); q = r.randrange(len(b))
        try: mt.ParameterizedFunctionBase.FromBytes(b[:q]); c.check(False, "truncated-bytes-accepted", (q, len(b)))
        except Exception: c.check(True, "")
    l = pickle.loads(pickle.dumps(n.o)); n.o = l; gc.collect(); churn(r)
    for _ in range(3): do_op(c, n)
    c.replay()
def c_opts(c):
    i, o, key = gen_opts(c); c.describe("options %s" % (key,)); c.cover("opts", key); t = opt_txt(o)
    c.check(o == o and ("basisType" in str(o)) and str(o) in repr(o), "options-text")
    with tempfile.TemporaryDirectory() as d:
        o.Serialize(d + "/o"); q = mt.MapOptions(); q.Deserialize(d + "/o"); c.check(opt_txt(q) == t and q == o, "options-file", opt_txt(q) + " / " + t)
        S = gen_multis(c.r, c.r.randrange(1, 5)); f = fixed(c, S, c.r.random() < 0.5); f.Serialize(d + "/f"); g = mt.MultiIndexSet(np.array([[0], [1]])).fix(True); g.Deserialize(d + "/f")
        c.check(fixlist(g) == fixlist(f), "fixed-set-file")
        with open(d + "/f", "rb") as h: b = h.read()
        with open(d + "/g", "wb") as h: h.write(b[:c.r.randrange(len(b))])
        try: mt.MultiIndexSet(np.array([[0], [1]])).fix(True).Deserialize(d + "/g"); c.check(False, "truncated-file-accepted")
        except Exception: c.check(True, "")
        for f2 in (lambda: mt.DeserializeMap(d + "/none"), lambda: mt.MapOptions().Deserialize(d + "/none")):
            try: f2(); c.check(False, "missing-file-accepted")
            except Exception: c.check(True, "")
    a = mt.ATMOptions(); a.basisLB = -2.5; a.opt_maxeval = 17; a.maxSize = 5; a.maxPatience = 3; a.maxDegrees = mt.MultiIndex([3, 2]); c.check(a.basisLB == -2.5 and a.opt_maxeval == 17 and a.maxSize == 5 and a.maxPatience == 3 and a.maxDegrees.tolist() == [3, 2] and len(str(a)) > 20, "adaptive-options")
    fields = ["quadAbsTol", "quadRelTol", "nugget", "basisLB", "basisUB"]; nm = c.r.choice(fields); q = mt.MapOptions(); d0 = mt.MapOptions(); v = c.r.uniform(0.1, 0.9) * (-1 if nm == "basisLB" else 1); setattr(q, nm, v); c.check(getattr(q, nm) == v and not (q == d0) and all(getattr(q, z) == getattr(d0, z) for z in fields if z != nm), "options-field", nm)
    t = mt.TrainOptions(); nm = c.r.choice(["opt_stopval", "opt_ftol_rel", "opt_ftol_abs", "opt_xtol_rel", "opt_xtol_abs", "opt_maxtime"]); setattr(t, nm, v); c.check(getattr(t, nm) == v and len(repr(t)) > 10, "train-options-field", nm)
def fixlist(f): return [f.Size(), f.Length(), len(f), list(map(int, f.MaxDegrees())), [list(f.IndexToMulti(i)) for i in range(f.Size())]]
def gen_lim(r, d, depth=1):
    k = r.randrange(8 if depth else 5)
    if k == 0: return mt.NoneLim(), "none"
    if k == 1: p = r.randrange(0, 6); return mt.TotalOrder(p), "total %d" % p
    if k == 2: a, b = r.randrange(d), r.randrange(1, d + 1); return mt.Dimension(a, b), "dim %d %d" % (a, b)
    if k == 3: p = r.randrange(0, 5); return mt.MaxDegree(p, d), "max %d %d" % (p, d)
    if k == 4: w = [r.uniform(0.2, 1) for _ in range(d)]; e = r.uniform(0.01, 0.4); return mt.Anisotropic(w, e), "aniso %s %s" % (V(w), HX(e))
    a, ta = gen_lim(r, d, 0); b, tb = gen_lim(r, d, 0); cls, w = [(mt.And, "and"), (mt.Or, "or"), (mt.Xor, "xor")][k - 5]; return cls(a, b), "%s %s %s" % (w, ta, tb)
def c_sets(c):
    r = c.r; d = r.randrange(1, 4); i = c.id(); c.count("sets")
    if r.random() < 0.5: S = gen_multis(r, d, 8); s = mt.MultiIndexSet(np.array(S, dtype=np.int32)); c.rec("mset", i, mat_text(S))
    else:
        tp = r.random() < 0.4; p = r.randrange(0, 4); l, t = gen_lim(r, d) if r.random() < 0.5 else (None, "none"); f = mt.MultiIndexSet.CreateTensorProduct if tp else mt.MultiIndexSet.CreateTotalOrder
        s = f(d, p) if l is None else f(length=d, maxOrder=p, limiter=l) if r.random() < 0.5 else f(d, p, l); c.rec("mscreate", i, int(tp), d, p, t); del l; gc.collect()
    c.describe("set dimension %d: %s" % (d, c.lines[-1][:300])); c.cover("set", c.lines[-1]); sets = [(i, s)]
    flat = lambda ms: V([q for m in ms for q in m.tolist()])
    for _ in range(r.randrange(3, 9)):
        i, s = r.choice(sets); n = s.Size()
        if n > 150: break
        k = r.randrange(15); m = [r.randrange(4) for _ in range(d)]
        if k == 0: c.rec("msop", i, "margin", flat(s.Margin()))
        elif k == 1: c.rec("msop", i, "rmargin", flat(s.ReducedMargin()))
        elif k == 2: c.rec("msop", i, "frontier", V(s.Frontier()))
        elif k == 3: c.rec("msop", i, "sfrontier", V(s.StrictFrontier()))
        elif k == 4: c.rec("msop", i, "expand", V(s.Expand()))
        elif k == 5 and n: q = r.randrange(n); c.rec("msop", i, "expand1", q, V(s.Expand(q)))
        elif k == 6 and n: q = r.randrange(n); c.rec("msop", i, "isexp", q, V([s.IsExpandable(q), s.NumForward(q), s.NumActiveForward(q)]))
        elif k == 7: c.rec("msop", i, "m2i", U(m), V([s.MultiToIndex(mt.MultiIndex(m))]))
        elif k == 8:
            before = s
            if r.random() < 0.5: s.append(mt.MultiIndex(m))
            else: s += mt.MultiIndex(m); sets[[q for q, (a, b) in enumerate(sets) if a == i][0]] = (i, s)
            c.rec("msop", i, "append", U(m), V([])); c.check(s.Size() >= n and before.Size() >= n, "append")
            if s is not before: c.check(fixsame(before, s), "iadd-result-differs")
        elif k == 9: c.rec("msop", i, "addactive", U(m), V([s.AddActive(mt.MultiIndex(m))]))
        elif k == 10:
            M_ = s.ReducedMargin()
            if M_: q = r.choice(M_); t = q.tolist(); s.Activate(q); c.rec("msop", i, "activate", U(t), V([]))
        elif k == 11: j = c.id(); sets.append((j, s.DeepCopy())); c.rec("mscopy", j, i)
        elif k == 12 and len(sets) > 1: j, o = r.choice(sets); c.rec("msop", i, "union", j, V([getattr(s, "union")(o)])) if j != i else None
        elif k == 13: 
            l, t = gen_lim(r, d); ok = 1
            try: s.SetLimiter(l)
            except Exception: ok = 0
            c.rec("msop", i, "setlim", t, V([ok]))
        else:
            f = s.fix(r.random() < 0.5); L = fixlist(f); comp = 1
            c.rec("msop", i, "fix", comp, V([L[0], L[1]] + L[3] + [q for t in range(L[0]) for q in L[4][t] + [f.MultiToIndex(L[4][t])]]))
    for i, s in sets: c.rec("msop", i, "list", V([q for k in range(s.Size()) for q in s[k].tolist()] + [s.Size(), len(s)] + list(s.MaxOrders())))
    l, t = gen_lim(r, d); m = [r.randrange(5) for _ in range(d)]; c.rec("limit", t, U(m), V([l(mt.MultiIndex(m))]))
    p = r.randrange(0, 4); f = mt.FixedMultiIndexSet(d, p); c.rec("fixto", d, p, V([f.Size()] + [q for k in range(f.Size()) for q in f.IndexToMulti(k)]))
    a = mt.MultiIndex(m); b = mt.MultiIndex(len(m), 0)
    for k, v in enumerate(m): b[k] = v
    c.check(a == b and not (a != b) and a <= b and a >= b and not (a < b) and a.tolist() == m and len(a) == d and a.sum() == sum(m) and a.max() == max(m) and a.count_nonzero() == sum(1 for v in m if v) and [a[k] for k in range(d)] == m, "multi-index", m)
    for f in (lambda: a[d], lambda: a.__setitem__(d, 1), lambda: a[-1]):
        try: f(); c.check(False, "multi-index-out-of-range")
        except Exception: c.check(True, "")
    c.replay()
def fixsame(a, b): return [a[k].tolist() for k in range(a.Size())] == [b[k].tolist() for k in range(b.Size())]
def c_train(c):
    n = new_map(c, 1); r = c.r
    if n.noinv or n.nc == 0 or getattr(n, "exp", False) or not n.ldc: c.count("train-skipped"); return
    c.count("trainings"); N = r.randrange(4, 12); i = c.id(); a = points(c, n.nin, N); b = points(c, n.nin, 5); te = r.random() < 0.5
    A_, B_ = np.asfortranarray(a), np.asfortranarray(b)
    ob = mt.CreateGaussianKLObjective(A_, B_, n.nout) if te else mt.CreateGaussianKLObjective(A_, n.nout) if r.random() < 0.5 else mt.CreateGaussianKLObjective(train=A_, dim=n.nout)
    c.rec("kl", i, n.nout, int(te), M(a), *([M(b)] if te else [])); A_[...] = np.nan; B_[...] = np.nan; del A_, B_; churn(r); c.cover("train", n.shape, te)
    c.rec("err", i, n.i, 0, V([ob.TrainError(n.o)]))
    if te: c.rec("err", i, n.i, 1, V([ob.TestError(n.o)]))
    t = mt.TrainOptions(); t.opt_alg = r.choice(["LD_SLSQP", "LD_LBFGS", "LD_MMA", "LN_NELDERMEAD"]); t.opt_maxeval = r.choice([1, 5, 12]); t.opt_ftol_rel = 1e-5; t.opt_xtol_rel = 1e-5; t.verbose = 0
    e = mt.TrainMap(n.o, ob, t); c.rec("train", i, n.i, t.opt_alg, t.opt_maxeval, HX(1e-5), HX(1e-5), V([e] + list(n.o.CoeffMap()))); do_op(c, n, "eval"); c.replay()
def c_adapt(c):
    r = c.r; o = r.randrange(1, 3); nin = o + r.randrange(0, 2); N = r.randrange(8, 16); a = points(c, nin, N); b = points(c, nin, 6); i = c.id(); ids = []; ms = []; c.count("adaptive"); c.describe("adaptive in %d out %d" % (nin, o)); c.cover("adapt", nin, o, N)
    c.rec("kl", i, o, 1, M(a), M(b)); ob = mt.CreateGaussianKLObjective(np.asfortranarray(a), np.asfortranarray(b), o)
    for k in range(o): d = nin - o + k + 1; p = r.randrange(2); j = c.id(); ids.append(j); ms.append(mt.MultiIndexSet.CreateTotalOrder(d, p)); c.rec("mscreate", j, 0, d, p, "none")
    t = mt.ATMOptions(); t.basisLB = -3; t.basisUB = 3; q = c.id(); t.maxSize = o * 3 + r.randrange(5); t.maxPatience = 2; t.opt_maxeval = 6; t.verbose = 0; c.rec("opts", q, opt_txt(t))
    m = mt.TrainMapAdaptive(ms, ob, t); c.rec("adapt", i, U(ids), q, t.maxSize, t.maxPatience, t.opt_maxeval, V(list(m.CoeffMap()) + [z for s in ms for z in [s.Size()] + [w for k in range(s.Size()) for w in s[k].tolist()]])); c.replay()

def c_torch(c):
    n = new_map(c); r = c.r
    if n.noinv: c.count("torch-skipped"); return
    c.count("torch"); dt = r.choice([torch.double, torch.double, torch.float, torch.float, torch.half]); tag = {torch.double: 0, torch.float: 1, torch.half: 2}[dt]
    if tag == 2 and float(np.abs(n.o.Evaluate(points(c, n.nin, 4))).max(initial=0)) > 1e3: dt, tag = torch.double, 0
    ld = n.ismap and (n.ldgrad and n.ldc) and r.random() < 0.6; use = r.randrange(3); cdt = r.choice([torch.double, torch.double, torch.float]); cond = n.ismap and (ld or r.random() < 0.6)
    store = r.random() < 0.7 and (n.nc > 0)
    if n.nc == 0: cdt = torch.double
    if cdt != torch.double: set_coeffs(c, n, np.array(n.v, dtype=np.float32).astype(np.float64)); n.v = np.array(n.v, dtype=np.float32).astype(np.float64)
    v = np.array(n.v); c.cover("torch", n.shape, str(dt), str(cdt), ld, use, store, cond)
    if n.nc == 0: mod = None
    elif cdt == torch.double and r.random() < 0.4: mod = n.o.torch(store_coeffs=store, return_logdet=ld) if cond else mt.TorchParameterizedFunctionBase(n.o, store)
    else: mod = mt.TorchConditionalMapBase(n.o, store, ld, dtype=cdt) if cond else mt.TorchParameterizedFunctionBase(n.o, store, dtype=cdt)
    if mod is not None and store: c.check(mod.coeffs.shape == (n.nc,) and np.array_equal(mod.coeffs.detach().double().numpy(), v) and (mod.coeffs.dtype == cdt or cond), "torch-parameter")
    if mod is not None and store and r.random() < 0.3:
        if n.serial and r.random() < 0.5: mod = dill.loads(dill.dumps(mod)); n.o = mod.f; gc.collect(); churn(r)
    for rep in range(r.randrange(1, 3)):
        N = r.choice([1, 2, 3, 6]); x0 = points(c, n.nin, N); 
        if r.random() < 0.2: x0 = np.repeat(x0[:, :1], N, axis=1)
        x, nx = tensors(r, x0.T, dt); x = x.detach(); x0 = x.double().numpy().T.copy(); x.requires_grad_(use != 1)
        ct = None
        if not store and n.nc:
            if rep: v = np.array(coeffs_for(c, n), dtype=np.float32 if cdt == torch.float else np.float64).astype(np.float64); c.rec("coef", n.i, V(v))
            if r.random() < 0.5: ct = torch.tensor(v, dtype=cdt)
            else: b = torch.full((2 * n.nc,), float("nan"), dtype=cdt); b[::2] = torch.tensor(v, dtype=cdt); ct = b[::2]; c.count("torch-strided-coeffs")
            ct = ct.detach().requires_grad_(use != 0)
        if mod is None: y = mt.MpartTorchAutograd.apply(x.T, None, n.o, ld); y, l = (y[0].T, y[1]) if ld else (y.T, None)
        else:
            y = mod(x) if store else mod(x, ct); y, l = y if ld else (y, None)
        c.check(y.dtype == dt and tuple(y.shape) == (N, n.nout) and (l is None or (l.dtype == dt and tuple(l.shape) == (N,))), "torch-shape", (y.dtype, y.shape))
        c.rec("op", "eval", n.i, tag, M(x0), VF(y.detach().double().numpy().T))
        if ld: c.rec("op", "logdet", n.i, tag, M(x0), V(l.detach().double().numpy()))
        if not bool(torch.isfinite(y).all()): continue
        # gradients of a random linear function of the outputs
        s0 = points(c, n.nout, N); l0 = points(c, N, 1)[:, 0]
        if r.random() < 0.3: s0[:] = 1; l0[:] = 1
        w = torch.tensor(s0.T).to(dt); wl = torch.tensor(l0).to(dt); s0 = w.double().numpy().T.copy(); l0 = wl.double().numpy().copy(); mode = r.randrange(3) if ld else 0
        loss = y.sum() if (s0 == 1).all() else (w * y).sum()
        if ld and mode == 0: loss = loss + (l.sum() if (l0 == 1).all() else (wl * l).sum())
        elif ld and mode == 1: loss = l.sum() if (l0 == 1).all() else (wl * l).sum(); s0 = 0 * s0
        if mode == 2: l0 = 0 * l0
        ps = mod.coeffs if store and mod is not None else ct
        if not (x.requires_grad or (ps is not None and ps.requires_grad)): continue
        if mod is not None and store: mod.coeffs.grad = None
        gc.collect(); churn(r); loss.backward()
        ls = V(l0) if ld else V([])
        if x.requires_grad:
            c.check(x.grad is not None and x.grad.shape == x.shape and x.grad.dtype == x.dtype, "torch-grad-shape"); c.rec("op", "tgrad", n.i, tag, M(x0), M(s0), ls, VF(x.grad.double().numpy().T)); c.count("torch-input-grad")
        if ps is not None and ps.requires_grad:
            c.check(ps.grad is not None and ps.grad.shape == ps.shape, "torch-coeff-grad-shape"); c.rec("op", "tcgrad", n.i, max(tag, 1 if cdt == torch.float else 0), M(x0), M(s0), ls, V(ps.grad.double().numpy())); c.count("torch-coeff-grad")
        if cond and mod is not None and r.random() < 0.5:
            R = n.o.Evaluate(x0).T; p = n.nin - n.nout; rr, _ = tensors(r, R); short = r.random() < 0.5; xx, _ = tensors(r, x0.T[:, :p] if short else x0.T)
            z = mod.inverse(xx, rr) if store else mod.inverse(xx, rr, ct)
            c.rec("op", "inv", n.i, 0, M(np.vstack([x0[:p], R.T]) if short else x0), M(R.T), VF(z.detach().double().numpy().T)); c.count("torch-inverse")
        if mod is not None and store and r.random() < 0.4:     # an optimizer step changes the parameter, and so the map
            with torch.no_grad(): mod.coeffs += 0.1 * torch.randn(n.nc, generator=torch.Generator().manual_seed(r.randrange(10**6)), dtype=torch.double).to(mod.coeffs.dtype)
            v = mod.coeffs.detach().double().numpy().copy(); c.rec("coef", n.i, V(v)); c.count("torch-step")
            mod(torch.tensor(x0.T))      # the map has the new coefficients from the next call on
            continue
        if n.nc and mod is not None and r.random() < 0.5:      # the map itself is left with the coefficients just used
            gc.collect(); churn(r); c.check(np.array_equal(n.o.CoeffMap(), v), "torch-leaves-coefficients", (n.o.CoeffMap(), v))
    if mod is not None and n.nc:
        if not store: del ct
        mod = None; gc.collect(); churn(r)
        if r.random() < 0.5: c.check(np.array_equal(n.o.CoeffMap(), v), "torch-coefficients-gone", (n.o.CoeffMap(), v)); do_op(c, n, "eval")
    c.replay()

def c_invalid(c):
    """arrays of the wrong shape or type raise, and the map still works"""
    n = new_map(c); r = c.r; d, o = n.nin, n.nout; x = points(c, d, 3); y0 = n.o.Evaluate(x); bad = points(c, d + 1, 3); s = points(c, o, 3); c.count("invalid")
    co = np.zeros(n.nc + 1); T = torch.zeros
    L = [("Evaluate", lambda: n.o.Evaluate(bad)), ("Evaluate-3d", lambda: n.o.Evaluate(np.zeros((d, 2, 2)))), ("Evaluate-text", lambda: n.o.Evaluate("abc")), ("Evaluate-none", lambda: n.o.Evaluate(None)),
         ("Gradient", lambda: n.o.Gradient(bad, s)), ("Gradient-sens", lambda: n.o.Gradient(x, points(c, o + 1, 3))), ("Gradient-cols", lambda: n.o.Gradient(x, points(c, o, 2))),
         ("SetCoeffs", lambda: n.o.SetCoeffs(co)), ("SetCoeffs-int", lambda: n.o.SetCoeffs(np.zeros(n.nc + 1, dtype=int))), ("EvaluateImpl-f32", lambda: n.o.EvaluateImpl(ext(T(d, 3)), ext(T(o, 3)))), ("Extract-3d", lambda: ext(T(1, 2, 3, dtype=torch.double))),
         ("WrapCoeffs", lambda: n.o.WrapCoeffs(ext(T(n.nc + 2, dtype=torch.double)))), ("ToBytes-garbage", lambda: mt.ParameterizedFunctionBase.FromBytes(b"\x01\x02")), ("multiset-negative-size", lambda: mt.MultiIndex(-3)), ("AffineMap", lambda: mt.AffineMap(np.zeros((3, 3)) + np.eye(3), np.zeros(2))), ("AffineMap-wide", lambda: mt.AffineMap(np.asfortranarray(np.zeros((3, 2))))),
         ("TriangularMap-empty", lambda: mt.TriangularMap([])), ("ComposedMap-empty", lambda: mt.ComposedMap([])), ("CreateTriangular", lambda: mt.CreateTriangular(1, 2, 1, mt.MapOptions())), ("options-type", lambda: setattr(mt.MapOptions(), "nugget", "x")), ("enum", lambda: mt.BasisTypes(99) if False else (_ for _ in ()).throw(ValueError())),
         ("train-alg", lambda: mt.TrainMap(n.o, mt.CreateGaussianKLObjective(np.asfortranarray(x), o), badalg()))]
    if n.ismap: L += [("Inverse-rows", lambda: n.o.Inverse(x, points(c, o + 1, 3))), ("Inverse-cols", lambda: n.o.Inverse(x, points(c, o, 2))), ("LogDeterminant", lambda: n.o.LogDeterminant(bad)), ("LogDeterminantInputGrad", lambda: n.o.LogDeterminantInputGrad(bad)), ("CoeffGrad", lambda: n.o.CoeffGrad(x, points(c, o + 2, 3)))]
    if n.ismap and n.nc: L += [("torch-x", lambda: n.o.torch()(T(3, d + 1, dtype=torch.double))), ("torch-coeffs", lambda: n.o.torch(False)(T(3, d, dtype=torch.double), T(n.nc + 1, dtype=torch.double))), ("torch-nocoeffs", lambda: n.o.torch(False)(T(3, d, dtype=torch.double)))]
    for nm, f in r.sample(L, min(8, len(L))):
        c.out("D %d invalid-%s %s" % (c.i, nm, n.shape)); c.cover("invalid", nm, n.shape[0])
        try: f(); c.check(False, "accepted:" + nm, n.shape)
        except Exception as e: c.check(True, "")
        if n.nc: c.check(np.array_equal(n.o.CoeffMap(), n.v), "invalid-changed-coeffs:" + nm)
        c.check(np.array_equal(n.o.Evaluate(x), y0, equal_nan=True), "invalid-changed-map:" + nm)
def badalg(): t = mt.TrainOptions(); t.opt_alg = "NO_SUCH"; t.verbose = 0; return t

KINDS = [(c_map, 34), (c_torch, 30), (c_sets, 10), (c_serial, 8), (c_life, 6), (c_opts, 2), (c_train, 3), (c_adapt, 1), (c_invalid, 6)]
def main():
    c = Ctx(arg("--out"), arg("--prop"), int(arg("--seed"))); tot = sum(w for _, w in KINDS)
    stop = []; import signal; signal.signal(signal.SIGUSR1, lambda *a: stop.append(1))
    for i in range(int(arg("--from")), int(arg("--to")), int(arg("--stride", 1))):
        if stop: break
        c.begin(i); k = c.r.randrange(tot)
        for f, w in KINDS:
            if k < w: break
            k -= w
        c.out("D %d %s" % (i, f.__name__))
        try: f(c); c.count(f.__name__)
        except Exception as e:
            import traceback; tb = traceback.extract_tb(e.__traceback__)
            c.check(False, "exception:%s" % f.__name__, "%s: %s at %s" % (type(e).__name__, str(e)[:300], [(t.lineno, t.line[:80]) for t in tb][-3:]))
        if len(c.samples) < 4 and c.desc: c.samples.append(c.desc[:300])
    c.end()
main(); os._exit(0)
