#!/usr/bin/env python3-vt
"""check.py <PROPERTY> [--tier quick|thorough] [--only fn,...] [-v]
Compiles contracts/<PROPERTY>*.cpp against /repo's current sources, generates and discharges every proof obligation,
validates the contracts on sampled inputs with the natively built code, replays counterexamples, writes the evidence."""
import sys, os, re, json, time, glob, subprocess, shutil, tempfile, multiprocessing as mp, traceback, resource, signal, select, threading, queue
sys.setrecursionlimit(200000)
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
import build

BASE_ASSUME = [
    "floating-point values are mathematical reals: no rounding, no NaN/Inf, no overflow",
    "denominators of floating-point divisions are assumed non-zero unless a contract states the check (integer division by zero is always an obligation)",
    "clang 18 -O1 front end and the LLVM simplification passes preserve the meaning of the C++ sources; the native build is g++ 13",
    "Kokkos contract: a View is a total map from in-bounds index tuples to elements, copies share it, host mirrors alias the device view",
    "Kokkos contract: parallel_for runs the body exactly once per index and no body depends on the writes of another one (atomics act as if sequential)",
    "heap allocation never fails; libm functions are uninterpreted except sqrt, floor, ceil, fabs, min/max (axioms of exp>0, |sin|,|cos|,|tanh|<=1, pow>0)",
]
class Spec: pass
def parse_opts(src):
    """structured comments:  //@ fn key=value key=value   or  //@ file key=value"""
    out = {}
    for ln in open(src):
        m = re.match(r"\s*//@\s+(\w+)\s+(.*)$", ln)
        if not m: continue
        d = out.setdefault(m.group(1), {})
        for tok in re.findall(r'(\w+)=("[^"]*"|\S+)', m.group(2)):
            k, v = tok[0], tok[1].strip('"')
            if k in ("replace", "define", "extra", "noinline", "assume", "undecided", "cases"): d.setdefault(k, []).append(v)
            else: d[k] = v
    return out
def contract_fns(src):
    return re.findall(r"^VC_CONTRACT\(\s*(\w+)\s*\)", open(src).read(), re.M)

def verify_fn(ir_path, fn, o, cfg, sem, q):
    """child process: symbolic execution then discharge; puts result dict on q"""
    t0 = time.time()
    res = dict(fn=fn, status="ok", obls=[], covers=[], called=[], notes=[], bounded=[], exec_s=0, models=[], contracts=[])
    try:
        resource.setrlimit(resource.RLIMIT_AS, (int(cfg["mem"]), int(cfg["mem"])))
        import exec as XE, solve, expr
        from expr import TRUE, FALSE
        with sem:
            m = XE.Module2(ir_path)
            opts = dict(check_f2i=o.get("check_f2i", "1") == "1", check_div=o.get("check_div", "0") == "1", unwind=int(o.get("unwind", 70)),
                        check_ub=o.get("check_ub", "0") == "1", allow_throw=o.get("allow_throw", "0") == "1", seq=int(o.get("seq", 8)),
                        replace=[tuple(x.split("=>")) for x in o.get("replace", [])])
            expr.UREM_ATOM[0] = o.get("urem") == "atom"
            # cases=name:lo..hi : the contract is executed once per value of these inputs (every combination)
            cases = [{}]
            for c in o.get("cases", []):
                n, r = c.split(":"); lo, hi = r.split("..")
                cases = [dict(k, **{n: v}) for k in cases for v in range(int(lo), int(hi) + 1)]
            signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(TimeoutError("symbolic execution")))
            signal.alarm(int(cfg["exec_timeout"]))
            f = m.func("vc_" + fn); exs = []; res["end_reachable"] = False
            for c in cases:
                ex = XE.Exec(m, opts); ex.feas = None; ex.fixed = c
                v, g, s2 = ex.run_func(f, [], TRUE, XE.State({}))
                exs.append((ex, g)); res["end_reachable"] |= g is not FALSE
            signal.alarm(0)
            res["exec_s"] = time.time() - t0
        called = sorted({k for ex, g in exs for k in ex.called if not k.startswith("vc_")})
        res["called"] = [c for c in called if not c.startswith("contract:")]
        res["contracts"] = [c[9:] for c in called if c.startswith("contract:")]
        res["bounded"] = [b for ex, g in exs for b in ex.bounded]
        # dedupe
        todo = []; cov = []; own = {}; cown = []
        for ex, g in exs:
            seen = {}
            for ob in ex.obls:
                k = (ob.guard.id, ob.cond.id, ob.na)
                if k in seen: continue
                seen[k] = 1; own[len(todo)] = ex; todo.append(ob)
            cs = [(l, g2, na) for l, g2, na in ex.covers]
            if g is not None: cs.append(("end of contract", g, len(ex.assumes)))
            cov += cs; cown += [ex] * len(cs)
        results = {}; running = {}; bufs = {}
        jobs = [("ob", i) for i in range(len(todo))] + [("cov", i) for i in range(len(cov))]
        for j in list(jobs):   # trivial ones at once
            if j[0] == "ob" and (todo[j[1]].cond is TRUE or todo[j[1]].guard is FALSE): results[j] = dict(status="proved", by=["folding"], time=0)
        jobs = [j for j in jobs if j not in results]
        # several obligations per process when there are many of them; what a process that dies leaves behind is retried one by one
        bs = max(1, min(24, len(jobs) // 40)); pend = [jobs[i::max(1, (len(jobs) + bs - 1) // bs)] for i in range((len(jobs) + bs - 1) // bs)] if jobs else []
        def solve_one(j):
            kind, i = j
            try:
                if kind == "ob":
                    d = solve.discharge(own[i], todo[i], cfg["ob_timeout"], cfg["ob_total"]); d["smt"] = dict(solve.STATS)
                    for k in solve.STATS: solve.STATS[k] = 0
                else:
                    l, g2, na = cov[i]
                    rr, by, mm, ab = solve.smt(cown[i].assumes[:na] + solve.conj(g2), FALSE, 10, False, ("z3",))
                    d = dict(status={"proved": "unreachable", "cex": "reachable"}.get(rr, "unknown"))
            except BaseException as e:
                d = dict(status="unknown", by=["error:" + type(e).__name__ + ":" + str(e)[:200]], time=0, model=None, abstract=[])
            return d
        def run_job(js):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    with os.fdopen(w, "w") as fo:
                        for j in js:
                            signal.alarm(int(cfg["ob_total"] * 1.5 + 30))
                            fo.write(json.dumps([j, solve_one(j)], default=str) + "\n"); fo.flush()
                finally: os._exit(0)
            os.close(w)
            return pid, r
        while pend or running:
            while pend and sem.acquire(block=not running):
                j = pend.pop(0); pid, r = run_job(j); running[r] = (pid, j); bufs[r] = b""
            if running:
                rd, _, _ = select.select(list(running), [], [], 0.05)
                for r in rd:
                    b = os.read(r, 1 << 16)
                    if b: bufs[r] += b; continue
                    pid, js = running.pop(r); os.close(r); os.waitpid(pid, 0); sem.release()
                    for ln in bufs.pop(r).split(b"\n"):
                        try: j, d = json.loads(ln)
                        except Exception: continue
                        results[tuple(j)] = d
                    left = [j for j in js if j not in results]
                    if len(js) == 1 and left: results[left[0]] = dict(status="unknown", by=["died"], time=0)
                    else: pend += [[j] for j in left]
        for i, ob in enumerate(todo):
            d = results[("ob", i)]
            e = dict(kind=ob.kind, label=ob.label, where=ob.fn.split("(")[0][-120:], status=d["status"], by=d.get("by"), time=round(d.get("time", 0), 2), abstract=d.get("abstract", []), smt=d.get("smt", {}))
            if d["status"] == "cex" and d.get("model"):
                e["inputs"] = model_inputs(own[i], d["model"])
            res["obls"].append(e)
        for i, (l, g2, na) in enumerate(cov):
            res["covers"].append((l, results[("cov", i)]["status"]))
        if len(exs) > 1:   # a cover holds when it is reached in some case
            rank = ["reachable", "unknown", "unreachable"]
            res["covers"] = [(l, min((s for l2, s in res["covers"] if l2 == l), key=rank.index)) for l in dict.fromkeys(l for l, s in res["covers"])]
        if res["bounded"]: res["status"] = "bounded"
    except TimeoutError as e:
        res["status"] = "unsupported"; res["why"] = "timeout: " + str(e)
    except BaseException as e:
        res["status"] = "unsupported"; res["why"] = type(e).__name__ + ": " + str(e)[:400]
        if cfg.get("verbose"): res["tb"] = traceback.format_exc()[-3000:]
    res["wall"] = time.time() - t0
    q.put(res)

def model_inputs(ex, mdl):
    """solver model -> replay file entries"""
    out = {}
    from fractions import Fraction
    def fl(x):
        if isinstance(x, str): x = Fraction(x)
        return repr(float(x))
    for n, inf in ex.inputs.items():
        k, v, lo, hi = inf
        if k in ("viewu", "viewr"):
            for name, args, val in mdl["ufs"]:
                if name == n: out["%s[%s]" % (n, ",".join(str(a) for a in args))] = fl(val) if k == "viewr" else str(val)
            continue
        x = v.val if v.op == "c" else mdl["vars"].get(v.val)
        if x is None: continue
        if k == "r": out[n] = fl(x)
        elif k[0] == "s":
            w = int(k[1:]); x = int(x); out[n] = str(x - (1 << w) if x >> (w - 1) & 1 else x)
        else: out[n] = str(int(x))
    return out

def native_run(exe, args, timeout, cwd):
    fd, of = tempfile.mkstemp(dir=cwd); os.close(fd)
    env = dict(os.environ, OMP_NUM_THREADS="1", OMP_PROC_BIND="false", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
               OMPI_MCA_plm="isolated", OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_rmaps_base_oversubscribe="1",
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=1", UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1")
    if os.environ.get("VC_VERBOSE"): env["VC_VERBOSE"] = "1"
    d = tempfile.mkdtemp(dir=cwd)
    out = subprocess.DEVNULL if not os.environ.get("VC_VERBOSE") else None
    with build.LOCK: p = subprocess.Popen([exe, of] + args, stdin=subprocess.DEVNULL, stdout=out, stderr=out, env=env, cwd=d)
    try: p.wait(timeout=timeout)
    except subprocess.TimeoutExpired: p.kill(); p.wait(); return None
    try: return json.loads(open(of).read().strip().split("\n")[-1])
    except Exception: return None

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1].split(",") if "--only" in sys.argv else None
    verbose = "-v" in sys.argv
    noir = "--noir" in sys.argv; nonat = "--nonat" in sys.argv
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    quick = tier == "quick"
    cfg = dict(ob_timeout=40 if quick else 200, ob_total=150 if quick else 600, exec_timeout=240 if quick else 600, mem=10 << 30, verbose=verbose,
               samples=20000 if quick else 400000, sample_s=8 if quick else 60)
    t_start = time.time()
    budget = 780 if quick else 3000
    srcs = sorted(glob.glob(VERIF + "/contracts/%s*.cpp" % prop))
    if not srcs: print("no contracts for", prop); sys.exit(2)
    work = os.environ.get("VC_WORK") or tempfile.mkdtemp(prefix="vc_%s_" % prop)
    os.makedirs(work, exist_ok=True)
    os.makedirs(VERIF + "/replay", exist_ok=True); os.makedirs(VERIF + "/evidence", exist_ok=True)
    findings = load_findings(prop)
    violations = []; known_hit = []
    report = dict(fns=[], native=[], build_errors=[])
    # ---------- build everything in parallel threads
    from concurrent.futures import ThreadPoolExecutor
    pool = ThreadPoolExecutor(8)
    units = []
    for s in srcs:
        opts = parse_opts(s); fo = opts.get("file", {})
        fns = [f for f in contract_fns(s) if (f in only if only else not quick or opts.get(f, {}).get("tier") != "thorough")]
        if not fns: continue
        b = os.path.splitext(os.path.basename(s))[0]
        d = "%s/%s" % (work, b); os.makedirs(d, exist_ok=True)
        defs = ["-D" + x for x in fo.get("define", [])]
        noinl = list(fo.get("noinline", [])) + [x.split("=>")[0] for f in opts for x in opts[f].get("replace", [])]
        u = Spec(); u.src = s; u.fns = fns; u.opts = opts; u.dir = d; u.name = b
        u.ir = pool.submit(build.build_ir, s, d, defs, noinl) if not noir and fo.get("prove", "1") == "1" else None
        u.nat = None if nonat else pool.submit(build.build_native, s, d, defs, [build.REPO + "/" + x for x in fo.get("extra", [])], fo.get("opt", "-O1"))
        units.append(u)
    # ---------- symbolic verification
    sem = mp.Semaphore(8)
    ctx = mp.get_context("fork"); q = ctx.Queue()
    procs = []; expected = 0
    waiting = list(units)
    def start_ir(u):
        nonlocal expected
        try: p = u.ir.result()
        except Exception as e:
            report["build_errors"].append((u.name, "ir", str(e)[-1500:])); u.irpath = None; return
        u.irpath = p
        for f in u.fns:
            o = u.opts.get(f, {})
            if o.get("prove", "1") == "0": continue
            pr = ctx.Process(target=verify_fn, args=(p, f, o, cfg, sem, q))
            with build.LOCK: pr.start()
            procs.append(pr); expected += 1
    got = {}
    def drain():   # the results are read while they come: a full queue would stop the processes that write to it
        while len(got) < expected or not ready.is_set():
            try: r = q.get(timeout=1)
            except queue.Empty: continue
            except Exception: return
            got[r["fn"]] = r
            if verbose: print_fn(r)
    ready = threading.Event(); threading.Thread(target=drain, daemon=True).start()
    for u in units:
        if u.ir is not None: start_ir(u)
    ready.set()
    def giveup():
        print("UNDECIDED property=%s the check did not finish within its time" % prop, flush=True)
        for p in procs:
            if p.is_alive(): kill_tree(p.pid)
        os._exit(0)
    wd = threading.Timer(budget + 80 if quick else budget + 600, giveup); wd.daemon = True; wd.start()
    # ---------- native sampling
    def sample(u, f):
        exe = u.nat.result()
        o = u.opts.get(f, {})
        n = int(float(o.get("samples", 1)) * cfg["samples"]) if float(o.get("samples", 1)) < 1000 else int(o["samples"])
        k = 1 if quick else 4
        tot = None
        for j in range(k):
            r = native_run(exe, ["sample", f, str(seed + 7919 * j), str(n), str(float(o.get("secs", cfg["sample_s"])))], cfg["sample_s"] * 6 + 60, u.dir)
            if r is None: r = dict(fn=f, runs=0, rejected=0, toolarge=0, fail="", covers={}, inputs={}, dead=True)
            r["unit"] = u.name
            if tot is None: tot = r
            else:
                for x in ("runs", "rejected", "toolarge"): tot[x] += r[x]
                for c, v in r["covers"].items(): tot["covers"][c] = tot["covers"].get(c, 0) + v
                if r["fail"] and not tot["fail"]: tot["fail"] = r["fail"]; tot["inputs"] = r["inputs"]
            if tot["fail"]: break
        return u, f, tot
    futs = []
    if not nonat:
        for u in units:
            try: u.nat.result()
            except Exception as e:
                report["build_errors"].append((u.name, "native", str(e)[-3000:])); u.nat = None; continue
            for f in u.fns:
                if u.opts.get(f, {}).get("native", "1") == "1": futs.append(pool.submit(sample, u, f))
    nat = {}
    for fu in futs:
        u, f, r = fu.result(); nat[f] = (u, r); report["native"].append(r)
        if r["fail"]:
            violations.append(dict(fn=f, what=r["fail"], inputs=r["inputs"], native=True, unit=u))
    # ---------- collect proofs
    idle = 0
    while len(got) < expected and time.time() - t_start < budget and idle < 20:
        time.sleep(0.1); idle = 0 if any(p.is_alive() for p in procs) else idle + 1
    for p in procs:
        if p.is_alive():
            kill_tree(p.pid)
    for u in units:
        for f in u.fns:
            if u.ir is None or u.opts.get(f, {}).get("prove", "1") == "0": continue
            r = got.get(f)
            if r is None: r = dict(fn=f, status="unsupported", why="time budget exhausted" if u.irpath else "did not compile to IR", obls=[], covers=[], called=[], bounded=[], contracts=[], exec_s=0, wall=0)
            r["unit"] = u.name; report["fns"].append(r)
            for ob in r["obls"]:
                if ob["status"] != "cex": continue
                rep = None
                if u.nat is not None and ob.get("inputs") is not None:
                    rf = "%s/model_%s.txt" % (u.dir, f)
                    open(rf, "w").write("".join("%s=%s\n" % kv for kv in ob["inputs"].items()))
                    rep = native_run(u.nat.result(), ["replay", f, rf], 60, u.dir)
                ob["replayed"] = bool(rep and rep["fail"])
                if rep and rep["fail"]:
                    violations.append(dict(fn=f, what=ob["label"] + " (" + rep["fail"] + ")", inputs=rep["inputs"], native=True, unit=u, ob=ob))
                elif (not ob["abstract"] or ob["kind"] != "contract" and ob["abstract"] == ["toreal"]) and not r["bounded"] and u.opts.get(f, {}).get("definitive", "1") == "1":
                    violations.append(dict(fn=f, what="obligation failed: " + ob["label"] + " in " + ob["where"], inputs=ob.get("inputs", {}), native=False, unit=u, ob=ob))
            # vacuity: the end of the contract must be reachable for some input
            bad = [l for l, s in r["covers"] if s == "unreachable"]
            if bad and not any(v["fn"] == f for v in violations):
                r["vacuous"] = bad
    # an obligation that the verifier no longer accepts is reported even when no input is found (contracts tagged expect=undecided excepted)
    starved = time.time() - t_start >= budget
    hit = {v["fn"] for v in violations}
    for r in report["fns"]:
        u = next(x for x in units if x.name == r["unit"])
        if r["fn"] in hit or u.opts.get(r["fn"], {}).get("expect") == "undecided" or starved: continue
        unk = [o for o in r["obls"] if o["status"] != "proved" and "died" not in (o["by"] or [])]
        if r["status"] == "unsupported" and not r.get("why", "").startswith("MemoryError"):
            violations.append(dict(fn=r["fn"], what="obligations could not be generated from the current source: " + r.get("why", ""), inputs={}, native=False, unit=u))
        elif unk:
            violations.append(dict(fn=r["fn"], what="obligation not discharged: %s in %s" % (unk[0]["label"], unk[0]["where"]), inputs=unk[0].get("inputs") or {}, native=False, unit=u, ob=unk[0]))
    # ---------- verdict
    seen = set(); fresh_v = []
    for v in violations:
        k = next((x for x in findings if x["fn"] == v["fn"] and re.search(x["match"], v["what"])), None)
        if k is not None:
            known_hit.append(k); continue
        fresh_v.append(v)
    nat_v = [v for v in fresh_v if v["native"]]
    rc = 0
    evid(prop, tier, seed, report, units, cfg, fresh_v, time.time() - t_start)
    for k in {x["id"]: x for x in known_hit}.values(): print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    undecided = [r for r in report["fns"] if r["status"] != "ok" or any(o["status"] != "proved" for o in r["obls"])]
    if report["build_errors"]:
        for b in report["build_errors"]: print("BUILD-ERROR %s (%s): %s" % b)
    done = set()
    for v in nat_v + [v for v in fresh_v if not v["native"]]:
        if v["fn"] in done: continue
        done.add(v["fn"])
        path = "replay/%s_%s.txt" % (prop, v["fn"])
        with open(VERIF + "/" + path, "w") as fo:
            fo.write("# property %s, contract %s in contracts/%s.cpp\n# %s\n" % (prop, v["fn"], v["unit"].name, v["what"].replace("\n", " ")))
            fo.write("# replay: python3-vt vc/check.py %s --replay %s\n" % (prop, path))
            for kv in v["inputs"].items(): fo.write("%s=%s\n" % kv)
            if v.get("ob"): fo.write("# obligation: %s\n" % json.dumps({a: b for a, b in v["ob"].items() if a != "inputs"}))
        print("  %s: %s" % (v["fn"], v["what"]))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if v["native"] else " no-failing-input-found"))
        rc = 1
    # nothing could be examined at all: error of the check
    if rc == 0 and not report["native"] and not any(r["status"] == "ok" for r in report["fns"]): rc = 2
    vac = [(r["fn"], r["vacuous"]) for r in report["fns"] if r.get("vacuous")]
    nob = sum(len(r["obls"]) for r in report["fns"]); nd = sum(o["status"] == "proved" for r in report["fns"] for o in r["obls"])
    for f, l in vac: print("VACUOUS %s: %s" % (f, l))
    for r in undecided:
        if r["fn"] in done: continue
        print("UNDECIDED %s: %s %s" % (r["fn"], r["status"], r.get("why", "") or [(o["label"], o["status"], o["by"]) for o in r["obls"] if o["status"] != "proved"][:4] or r["bounded"][:3]))
    print("%s: %d contracts, %d/%d obligations discharged, %d undecided contracts, native runs %d, %.0f s" % (prop, len(report["fns"]), nd, nob, len(undecided), sum(r["runs"] - r["rejected"] for r in report["native"]), time.time() - t_start))
    if not os.environ.get("VC_WORK"): shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)

def kill_tree(pid):
    try:
        out = subprocess.run(["ps", "-eo", "pid,ppid"], capture_output=True, text=True).stdout.split("\n")[1:]
        ch = {}
        for l in out:
            if l.split(): a, b = map(int, l.split()); ch.setdefault(b, []).append(a)
        st = [pid]
        while st:
            p = st.pop(); st += ch.get(p, [])
            try: os.kill(p, signal.SIGKILL)
            except OSError: pass
    except Exception: pass
def print_fn(r):
    n = len(r["obls"]); d = sum(o["status"] == "proved" for o in r["obls"])
    print("- %-40s %-11s %d/%d exec %.1fs wall %.1fs %s" % (r["fn"], r["status"], d, n, r["exec_s"], r["wall"], r.get("why", "")))
    for e in sorted(r["obls"], key=lambda e: -e["time"])[:3]:
        if e["time"] > 3: print("      slow %.1f s %s | %s %s" % (e["time"], e["label"], e["status"], e["by"]))
    if r.get("tb"): print("   ", " | ".join(r["tb"].strip().split("\n")[-7:]))
    for o in r["obls"]:
        if o["status"] != "proved": print("     ", o["status"], o["kind"], o["label"], "|", o["where"], o["by"], o["abstract"], o["time"], o.get("inputs", ""))
    for l, s in r["covers"]:
        if s != "reachable": print("      cover", l, s)
    sys.stdout.flush()
def load_findings(prop):
    p = VERIF + "/known_findings.json"
    if not os.path.exists(p): return []
    return [x for x in json.load(open(p)).get("open", []) if x["property"] == prop]
def evid(prop, tier, seed, rep, units, cfg, viol, wall):
    nob = nd = 0; by = {}; kinds = {}; smt = {"z3": 0.0, "cvc5": 0.0}
    fns = []; called = set(); contracts = set()
    for r in rep["fns"]:
        d = sum(o["status"] == "proved" for o in r["obls"])
        nob += len(r["obls"]); nd += d
        for o in r["obls"]:
            kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
            if o["status"] == "proved":
                for b in o["by"]: by[b] = by.get(b, 0) + 1
            for k, v in (o.get("smt") or {}).items(): smt[k] = smt.get(k, 0) + v
        called.update(r["called"]); contracts.update(r.get("contracts", []))
        fns.append(dict(contract=r["fn"], file="contracts/%s.cpp" % r["unit"], status=("proved" if r["status"] == "ok" and d == len(r["obls"]) else "bounded: native runs only" if r["status"] == "unsupported" else "partly discharged"),
                        obligations=len(r["obls"]), discharged=d, why=r.get("why", ""), undischarged=[o["label"] for o in r["obls"] if o["status"] != "proved"][:20],
                        covers=r["covers"], execution_s=round(r.get("exec_s", 0), 2), vacuous=r.get("vacuous", [])))
    assume = list(BASE_ASSUME)
    for u in units:
        for f in list(u.opts):
            for a in u.opts[f].get("assume", []): assume.append(("%s: " % f if f != "file" else "") + a)
            for a in u.opts[f].get("replace", []): assume.append("%s: callee replaced by its contract: %s" % (f, a))
    repo_fns = sorted(c for c in called if not re.match(r"(std::|__gnu|void std::|Kokkos::|vc::|operator)", c.split("(")[0]))
    runs = sum(r["runs"] - r["rejected"] for r in rep["native"])
    e = dict(property=prop, tier=tier, seed=seed, level="proof", wall_s=round(wall, 1), violations=len(viol), assumptions=assume,
             coverage=dict(obligations=nob, discharged=nd, checker_cmd="python3-vt vc/check.py %s --tier %s" % (prop, tier),
                           trusted_base=["clang 18 / opt 18 front end", "vc/exec.py + vc/ir.py verification-condition generator", "vc/solve.py rational normal form", "z3 (python bindings)", "cvc5 1.1.2", "contracts/shim (Kokkos contracts)"],
                           discharged_by=by, obligation_kinds=kinds, solver_seconds={k: round(v, 1) for k, v in smt.items()}, contracts=fns,
                           functions_under_contract=repo_fns[:400], functions_executed=len(repo_fns), callee_contracts=sorted(contracts),
                           native_validation=dict(evaluations=runs, label="bounded: sampled executions of the natively built code, never counted as proved", per_contract=[dict(contract=r["fn"], runs=r["runs"], rejected=r["rejected"], failed=r["fail"], covers=r["covers"]) for r in rep["native"]]),
                           build_errors=rep["build_errors"]))
    json.dump(e, open(VERIF + "/evidence/%s.json" % prop, "w"), indent=1, default=str)

def replay():
    prop = sys.argv[1]; path = sys.argv[sys.argv.index("--replay") + 1]
    txt = open(path).read()
    fn = re.search(r"contract (\w+) in contracts/(\w+)\.cpp", txt)
    work = tempfile.mkdtemp(prefix="vc_replay_")
    src = VERIF + "/contracts/%s.cpp" % fn.group(2)
    fo = parse_opts(src).get("file", {})
    exe = build.build_native(src, work, ["-D" + x for x in fo.get("define", [])], [build.REPO + "/" + x for x in fo.get("extra", [])])
    r = native_run(exe, ["replay", fn.group(1), os.path.abspath(path)], 120, work)
    shutil.rmtree(work, ignore_errors=True)
    print(json.dumps(r, indent=1)); sys.exit(1 if r and r["fail"] else 0)
if __name__ == "__main__":
    replay() if "--replay" in sys.argv else main()
