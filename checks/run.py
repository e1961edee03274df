#!/usr/bin/env python3
"""Runs one check:  run.py <property-id>   (VERIF_SEED, VERIF_TIER from the environment).

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=<id> replay=<path>": violated.
Exit 2: the check itself could not run (build error, no observations).
"""
import atexit, json, os, re, signal, subprocess, sys, time, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "tools")); sys.path.insert(0, HERE)
import vbuild
from config import CHECKS

def load_known():
    try:
        return json.load(open(os.path.join(VERIF, "known_findings.json")))
    except FileNotFoundError:
        return {"findings": [], "fixed": []}

BUDGET = {"quick": 600, "thorough": 6 * 3600}      # seconds after which no further case is begun
GRACE = 20                                         # seconds the exploration goes on after the first violation

class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.fails, self.evals, self.distinct, self.counts, self.samples = [], 0, set(), {}, []
        self.cases, self.notes, self.inconclusive = 0, [], 0
        self.t0, self.known, self.viol_at, self.stopped = time.time(), [], None, ""
        self.work = os.path.join(vbuild.BUILD, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True); os.makedirs(self.work)

    def env(self, extra=None):
        e = dict(os.environ)
        e.update({"OMP_PROC_BIND": "false", "OMP_WAIT_POLICY": "passive", "MPART_WARNINGS": "OFF", "HOME": "/root",
                  "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=8",
                  "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
                  "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:report_thread_leaks=0:second_deadlock_stack=1:history_size=4"})
        if extra: e.update(extra)
        return e

    def add_fail(self, key, msg, desc="", case=None, cmd=None, extra=None):
        self.fails.append({"key": key, "msg": msg, "desc": desc, "case": case, "cmd": cmd, "extra": extra})

    def is_new(self, f):
        return not any(re.fullmatch(k["key"], f["key"]) and re.search(k.get("desc", ""), f["desc"] or "") for k in self.known)

    # once something unlisted has failed, or the time of the tier is used up, the rest of the exploration is cut short
    def stop_now(self):
        if self.stopped: return True
        now = time.time()
        if self.viol_at is None and any(self.is_new(f) for f in self.fails): self.viol_at = now
        if self.viol_at is not None and now - self.viol_at > GRACE: self.stopped = "a violation was found"
        elif now - self.t0 > BUDGET[self.tier]: self.stopped = "the time budget of %d s was used up" % BUDGET[self.tier]
        return bool(self.stopped)

    # failures a live shard has already written
    def peek(self, st):
        try:
            with open(st["log"], errors="replace") as f:
                f.seek(st.get("pos", 0)); txt = f.read()
        except OSError: return
        cut = txt.rfind("\n") + 1
        if cut == 0: return
        st["pos"] = st.get("pos", 0) + len(txt[:cut].encode("utf-8", "replace"))
        for ln in txt[:cut].split("\n"):
            if ln.startswith("F "):
                try: f = json.loads(ln[2:])
                except ValueError: continue
                if self.is_new({"key": st["prefix"] + f["key"], "desc": f["desc"]}) and self.viol_at is None: self.viol_at = time.time()

    # run cases [0,n) of `prop` in `exe`, split over shards; crash-safe
    def run_cases(self, exe, prop, n, shards=8, threads=(1,), label="", case_timeout=90, keyprefix="", env=None, on_crash=None, seed=None):
        seed = self.seed if seed is None else seed
        if self.stop_now(): return
        procs = []
        for s in range(shards):
            procs.append({"s": s, "from": s, "restarts": 0, "p": None, "hang": {}})
        def start(st, frm):
            st["log"] = os.path.join(self.work, "%s%s_%d_%d.log" % (label, prop, st["s"], st["restarts"]))
            st["err"] = st["log"] + ".err"
            st["cmd"] = (exe if isinstance(exe, list) else [exe]) + ["--prop", prop, "--seed", str(seed), "--from", str(frm), "--to", str(n), "--stride", str(shards), "--out", st["log"]]
            if self.tier == "thorough": st["cmd"].append("--thorough")
            t = threads[st["s"] % len(threads)]
            ev = {"OMP_NUM_THREADS": str(t)}
            if env: ev.update(env)
            st["env"] = ev
            st["p"] = subprocess.Popen(st["cmd"], stdout=subprocess.DEVNULL, stderr=open(st["err"], "w"), env=self.env(ev), start_new_session=True)
            st["last"] = (0, time.time()); st["pos"] = 0; st["prefix"] = keyprefix
        live = []
        for st in procs:
            if st["from"] < n: start(st, st["from"]); live.append(st)
        self.procs = procs
        looked = time.time()
        while live:
            time.sleep(0.05)
            if time.time() - looked > 2:
                looked = time.time()
                for st in live: self.peek(st)
                if self.stop_now():
                    for st in live:         # each shard finishes the case at hand and reports
                        try: os.kill(st["p"].pid, signal.SIGUSR1)
                        except OSError: pass
                    end = time.time() + (5 if self.viol_at else 100)
                    while time.time() < end and any(st["p"].poll() is None for st in live): time.sleep(0.1)
                    for st in live:
                        try: os.killpg(st["p"].pid, signal.SIGKILL)
                        except OSError: pass
                        st["p"].wait(); self.parse(st["log"], prop, exe, seed, st["env"], keyprefix)
                    return
            for st in list(live):
                rc = st["p"].poll()
                if rc is None:
                    try: sz = os.path.getsize(st["log"])
                    except OSError: sz = 0
                    if sz != st["last"][0]: st["last"] = (sz, time.time()); continue
                    if time.time() - st["last"][1] <= case_timeout: continue
                    try: os.killpg(st["p"].pid, signal.SIGKILL)
                    except OSError: pass
                    st["p"].wait(); rc = "hang"
                cur, desc, done = self.parse(st["log"], prop, exe, seed, st["env"], keyprefix)
                if done:
                    live.remove(st); continue
                st["restarts"] += 1
                if cur is None:
                    err = open(st["err"], errors="replace").read()[-3000:]
                    raise vbuild.BuildError("harness failed before its first case (rc=%s): %s" % (rc, err))
                if rc == "hang" and st["hang"].get(cur, 0) == 0:
                    st["hang"][cur] = 1; nxt = cur; st["hangs"] = st.get("hangs", 0) - 1            # run the same case once more before judging
                else:
                    err = open(st["err"], errors="replace").read()
                    kind = self.crash_kind(rc, err)
                    key = keyprefix + kind + ":" + desc.split(" ", 1)[0]
                    self.add_fail(key, "process ended abnormally (%s) in case %d" % (rc, cur), desc, cur,
                                  self.replay_cmd(exe, prop, cur, seed, st["env"]), err[-5000:])
                    nxt = cur + shards
                if rc == "hang": st["hangs"] = st.get("hangs", 0) + 1
                if nxt >= n or st["restarts"] > 12 or st.get("hangs", 0) > 2: live.remove(st)
                else: start(st, nxt)

    # logged results of the runs `a` and `b` of the same programs:  H bitwise, R bitwise if same_threads, A up to rounding
    def results(self, label):
        o = {}
        for f in sorted(os.listdir(self.work)):
            if not (f.startswith(label) and f.endswith(".log")): continue
            k, buf, desc = None, {}, ""
            for l in open(os.path.join(self.work, f), errors="replace"):
                c2 = l[:2]
                if c2 == "B ":
                    if k is not None: o[k] = (desc, buf)
                    k, buf, desc = int(l[2:]), {}, ""
                elif c2 in ("H ", "A ", "R "):
                    t, lab, v = (l.rstrip("\n").split(" ", 2) + [""])[:3]; buf[lab] = (t, v)
                elif c2 == "D ": desc = l.rstrip("\n").split(" ", 2)[2]
            if k is not None: o[k] = (desc, buf)
        return o
    def compare(self, a, b, same_threads, key, cmd_note=""):
        n = 0
        for k in a:
            if k not in b: continue
            desc, x = a[k]; y = b[k][1]
            for lab, (t, v) in x.items():
                if lab not in y: continue
                u = y[lab][1]
                if t == "R" and not same_threads: continue
                n += 1
                if u == v: continue
                if t == "A":
                    p = [float(q) for q in v.split()]; w = [float(q) for q in u.split()]
                    m = max([abs(q) for q in p if q == q and abs(q) < 1e300] + [1.0])
                    if len(p) == len(w) and all(i == j or (i != i and j != j) or abs(i - j) <= 1e-9 * m for i, j in zip(p, w)): continue
                op = lab.split(":", 1)[-1].split("/")[0]
                self.add_fail("%s:%s" % (key, op), "result %s of case %d differs between executions %s: %s / %s" % (lab, k, cmd_note, v[:120], u[:120]), desc, k)
        self.counts["compared_" + key] = self.counts.get("compared_" + key, 0) + n
        return n

    def replay_cmd(self, exe, prop, case, seed, env):
        if isinstance(exe, list): exe = " ".join(exe)
        return " ".join("%s=%s" % kv for kv in env.items()) + " %s --prop %s --seed %d --from %d --to %d --verbose%s" % (exe, prop, seed, case, case + 1, " --thorough" if self.tier == "thorough" else "")

    @staticmethod
    def crash_kind(rc, err):
        if rc == "hang": return "hang"
        m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
        if m:
            f = re.search(r"#\d+ 0x[0-9a-f]+ in (?:[^\n]*?)(mpart::[\w:]+)", err)
            return "asan-" + m.group(1) + (":" + f.group(1) if f else "")
        m = re.search(r"runtime error: ([^\n]{0,60})", err)
        if not m and "SUMMARY: ThreadSanitizer" in err:
            m2 = re.search(r"SUMMARY: ThreadSanitizer: ([\w -]+?) (?:/|\()", err); return "tsan-" + (m2.group(1) if m2 else "report")
        if m: return "ubsan-" + re.sub(r"[^a-z]+", "-", m.group(1).lower())[:50]
        if "Assertion" in err: 
            m = re.search(r"([\w.]+):\d+:.*Assertion `([^']{0,60})", err)
            return "assert" + (":" + m.group(1) if m else "")
        if "terminate called" in err: return "terminate"
        return "crash(%s)" % rc

    def parse(self, log, prop, exe, seed, env, keyprefix):
        cur, desc, done, begun = None, "", False, 0
        try: lines = open(log, errors="replace").read().split("\n")
        except OSError: return None, "", False
        for ln in lines:
            if ln.startswith("B "): cur = int(ln[2:]); desc = ""; begun += 1
            elif ln.startswith("D "): desc = ln.split(" ", 2)[2]
            elif ln.startswith("F "):
                try: f = json.loads(ln[2:])
                except ValueError: continue
                self.add_fail(keyprefix + f["key"], f["msg"], f["desc"], f["case"], self.replay_cmd(exe, prop, f["case"], seed, env))
            elif ln.startswith("S "):
                s = json.loads(ln[2:]); done = True
                self.evals += s["evals"]; self.distinct.update(s["distinct"])
                for k, v in s["counts"].items(): self.counts[k] = self.counts.get(k, 0) + v
                if len(self.samples) < 12: self.samples += s["samples"][:2]
        self.cases += begun
        return cur, desc, done

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    chk = CHECKS[pid]
    r = Run(pid, tier, seed); r.t0 = t0
    r.known = known = [k for k in load_known()["findings"] if k["property"] == pid]
    def cleanup(*a):
        for st in getattr(r, "procs", []):
            if st["p"] is not None and st["p"].poll() is None:
                try: os.killpg(st["p"].pid, signal.SIGKILL)
                except OSError: pass
        if a: os._exit(2)
    atexit.register(cleanup); signal.signal(signal.SIGTERM, cleanup); signal.signal(signal.SIGINT, cleanup)
    try:
        chk["run"](r)
    except vbuild.BuildError as e:
        if not any(r.is_new(f) for f in r.fails):
            print("CHECK-ERROR property=%s build or start failed\n%s" % (pid, e)); sys.exit(2)
    viol, seen_known = [], {}
    for f in r.fails:
        for k in known:
            if re.fullmatch(k["key"], f["key"]) and re.search(k.get("desc", ""), f["desc"] or ""):
                seen_known.setdefault(k["key"], [k, 0])[1] += 1; break
        else: viol.append(f)
    for k in known:      # every listed finding is reported on every run
        print("KNOWN-FINDING: property=%s %s%s" % (pid, k["what"], " (observed %d times in this run)" % seen_known[k["key"]][1] if k["key"] in seen_known else ""))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": r.evals, "cases": r.cases, "distinct_nontrivial": len(r.distinct), "rule": chk["rule"],
                       "samples": r.samples[:12], "observed": dict(sorted(r.counts.items()))},
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    if r.stopped: r.notes.append("exploration cut short: " + r.stopped)
    if r.notes: ev["coverage"]["notes"] = r.notes
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if viol:
        path = os.path.join(VERIF, "evidence", "replay_%s.json" % pid)
        with open(path, "w") as f: json.dump(viol[:60], f, indent=1)
        keys = {}
        for v in viol: keys.setdefault(v["key"], v)
        for k, v in list(keys.items())[:12]: print("  %s | %s | %s" % (k, v["msg"][:300], (v["desc"] or "")[:300]))
        print("VIOLATION property=%s replay=%s" % (pid, path)); sys.exit(1)
    if r.evals == 0 or len(r.distinct) < chk.get("min_distinct", 2):
        print("CHECK-ERROR property=%s observed too little (evaluations=%d distinct=%d)" % (pid, r.evals, len(r.distinct))); sys.exit(2)
    print("OK property=%s tier=%s seed=%d cases=%d evaluations=%d distinct=%d wall=%.1fs" % (pid, tier, seed, r.cases, r.evals, len(r.distinct), time.time() - t0))

if __name__ == "__main__":
    main()
