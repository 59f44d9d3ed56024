"""Runs the contracts of a property, replays failures on the real code, writes the evidence."""
import os, sys, json, time, importlib, traceback, subprocess, tempfile, shutil
import multiprocessing as mp
from . import build, llvm, contract

VERIF = build.VERIF


def load(pid):
    return importlib.import_module("props." + pid.lower())


def _worker(a):
    pid, idx, tmax, path, patience = a
    import threading
    out = {}

    def go():
        sys.setrecursionlimit(200000)
        P = load(pid)
        C = all_contracts(P)[idx]
        mod = llvm.Module(path[getattr(C, "harness", None) or P.HARNESS])
        out["r"] = contract.run_contract(C, mod, tmax, patience)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return idx, out.get("r")


def all_contracts(P):
    """the property's contracts, then the contracts of the functions they call by summary"""
    out = []
    for C in P.contracts():
        C.dep = None
        out.append(C)
    for d in getattr(P, "DEPENDS", ()):
        D = load(d)
        for C in D.contracts():
            C.dep = d
            C.harness = getattr(C, "harness", None) or D.HARNESS
            C.name = f"{d}:{C.name}"
            out.append(C)
    return out


def run_contracts(pid, P, paths, budget, nproc):
    """all contracts; those left open are tried once more with longer solver limits (a loaded machine must not fail a proof)"""
    Cs = all_contracts(P)
    jobs = sorted(range(len(Cs)), key=lambda i: -getattr(Cs[i], "weight", 1))
    t0 = time.time()
    res = run_jobs(pid, P, Cs, paths, jobs, budget, nproc, 1)
    left = [i for i in jobs if res[i].status != "proved" and not (res[i].reason or "").startswith(("Unsupported", "internal"))]
    if left and len(left) <= 8 and not any(r.status == "refuted" for r in res):
        again = run_jobs(pid, P, Cs, paths, left, min(200, 620 - (time.time() - t0)), min(4, nproc), 4)
        for i in left:
            if again[i].status in ("proved", "refuted"):
                res[i] = again[i]
    return Cs, res


def run_jobs(pid, P, Cs, paths, jobs, budget, nproc, patience):
    res = [None] * len(Cs)
    ctx = mp.get_context("fork")
    t_end = time.time() + budget
    running = {}
    queue = list(jobs)
    while queue or running:
        while queue and len(running) < nproc:
            i = queue.pop(0)
            left = t_end - time.time()
            if left < 5:
                r = contract.Result(Cs[i].name)
                r.reason = "Budget: no time left"
                res[i] = r
                continue
            rx, tx = ctx.Pipe(False)
            tm = min(Cs[i].timeout * (1 if patience == 1 else 2), left)
            p = ctx.Process(target=lambda tx=tx, i=i, tm=tm: tx.send(_worker((pid, i, tm, paths, patience))))
            p.start()
            tx.close()
            running[i] = (p, rx, time.time() + tm * 1.5 + 60)
        for i, (p, rx, dl) in list(running.items()):
            if rx.poll(0.02):
                try:
                    res[i] = rx.recv()[1]
                except EOFError:
                    pass
                p.join()
                del running[i]
            elif not p.is_alive() or time.time() > dl:
                if p.is_alive():
                    p.kill()
                p.join()
                del running[i]
            if i not in running and res[i] is None:
                r = contract.Result(Cs[i].name)
                r.reason = "Budget: worker ended without an answer"
                res[i] = r
    return res


def native_build(P):
    out = []
    for d in getattr(P, "NATIVE", []):
        src, extra = d[0], d[1]
        kw = d[2] if len(d) > 2 else {}
        out.append((src, build.native(src, extra, **kw)))
    return out


def native_run(exe, seed, tier, params=(), timeout=240):
    d = tempfile.mkdtemp(prefix="nat_", dir=build.tmp())
    log = os.path.join(d, "case")
    env = dict(os.environ, NAT_LOG=log, ASAN_OPTIONS="detect_leaks=1:allocator_may_return_null=0:abort_on_error=0:exitcode=99:max_allocation_size_mb=8000",
               UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98")
    cmd = [exe, str(seed), tier] + list(params)
    try:
        for leaks in (1, 0):
            env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("detect_leaks=1", f"detect_leaks={leaks}")
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=env, cwd=d, errors="replace")
            if "LeakSanitizer has encountered a fatal error" not in p.stderr:
                break       # else: leak detection needs ptrace, which this sandbox refuses
    except subprocess.TimeoutExpired:
        return {"rc": None, "out": "", "err": "timeout", "fails": [], "cases": 0, "distinct": 0, "samples": []}
    case = ""
    if os.path.exists(log):
        case = open(log, errors="replace").read().strip()
    r = {"rc": p.returncode, "out": p.stdout[-6000:], "err": p.stderr[-6000:], "cases": 0, "distinct": 0, "samples": []}
    fails = [l[5:] for l in p.stdout.splitlines() if l.startswith("FAIL ")]
    for l in p.stdout.splitlines():
        if l.startswith("CASES "):
            w = l.split()
            r["cases"], r["distinct"] = int(w[1]), int(w[3])
        if l.startswith("SAMPLE "):
            r["samples"].append(l[7:])
    if p.returncode not in (0, 1) or (p.returncode == 1 and not fails):
        key = "crash"
        for pat in ("AddressSanitizer: ", "LeakSanitizer: ", "runtime error: ", "Assertion", "terminate called"):
            for l in p.stderr.splitlines():
                if pat in l:
                    key = "crash " + l[l.index(pat):][:160]
                    break
            if key != "crash":
                break
        fails.append(f"{key} :: exit {p.returncode} :: case {case}")
    r["fails"] = fails
    shutil.rmtree(d, ignore_errors=True)
    return r


def known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("findings", []) if f["property"] == pid]


def model_params(C, res):
    """integer parameters of a counter-model, for the replay driver"""
    out = []
    for r in res:
        if r is None:
            continue
        for lst in (r.refuted, r.unknown):
            for n, loc, det, m in lst[:6]:
                if isinstance(m, dict):
                    d = m.get("sample") or m
                    ps = [f"{k}={v}" for k, v in d.items() if isinstance(v, (int, float)) and "!" not in k]
                    if ps and ps not in out:
                        out.append(ps)
    return out[:8]


def main(argv):
    pid = argv[0]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    P = load(pid)
    nproc = min(8, max(2, os.cpu_count() or 4))
    budget = getattr(P, "BUDGET", 420) if tier == "quick" else getattr(P, "BUDGET_THOROUGH", 1500)
    try:
        hs = {P.HARNESS} | {getattr(C, "harness", None) or P.HARNESS for C in all_contracts(P)}
        paths = {}
        for h in hs:
            paths[h] = build.bitcode(h, getattr(P, "DEFS", ()), debug=getattr(P, "DEBUG", True))
    except build.BuildError as e:
        print("ERROR: the harness does not compile against the current tree\n" + str(e)[-3000:])
        return 2
    nat = {}

    def nb():
        try:
            nat["exes"] = native_build(P)
        except build.BuildError as e:
            nat["err"] = str(e)[-3000:]
    import threading
    tb = threading.Thread(target=nb)
    tb.start()
    Cs, res = run_contracts(pid, P, paths, budget, nproc)
    tb.join()
    # a caller checked against its callees' contracts is only as good as those contracts
    broken = [C.name for C, r in zip(Cs, res) if C.dep and r.status != "proved"]
    if broken:
        for C, r in zip(Cs, res):
            if not C.dep and r.status in ("proved", "failed"):
                r.status = "undecided"
                r.reason = "relies on callee contracts that are not established: " + ", ".join(broken[:4])
    for C, r in zip(Cs, res):
        if C.dep and r.status in ("refuted", "failed"):
            r.reason = f"callee contract of {C.dep} not established ({r.status}: {r.refuted[:1] or r.unknown[:1]})"[:300]
            r.status, r.refuted, r.unknown = "undecided", [], []
    if "err" in nat:
        print("ERROR: the replay driver does not compile against the current tree\n" + nat["err"])
        return 2
    # ---- replay on the real code
    nruns = []
    runs = [()] + [tuple(p) for p in model_params(Cs, res)]
    bad = [r for r in res if r.status != "proved"]
    for src, exe in nat.get("exes", []):
        for ps in runs:
            r = native_run(exe, seed, tier, ps, timeout=180 if tier == "quick" else 900)
            r["driver"] = src
            r["params"] = list(ps)
            nruns.append(r)
            if r["fails"]:
                break
    kf = known(pid)
    kf_hit = {}
    viol = []

    def is_known(txt):
        for f in kf:
            if f["match"] in txt:
                kf_hit[f["id"]] = f
                return True
        return False
    nfails = []
    for r in nruns:
        for f in r["fails"]:
            if not is_known(f):
                nfails.append((r, f))
    ref = []
    for C, r in zip(Cs, res):
        for x in r.refuted:
            if not is_known(f"{C.name} {x[0]} {x[1]}"):
                ref.append((C, r, x))
    unk = []
    expected = baseline(pid)
    for C, r in zip(Cs, res):
        if r.status == "failed" and not r.refuted:
            for x in r.unknown:
                if is_known(f"{C.name} {x[0]} {x[1]}"):
                    continue
                if (expected is None or C.name in expected) and not getattr(C, "soft", False):
                    unk.append((C, r, x))
    replay = os.path.join(VERIF, "evidence", f"{pid}.replay.json")
    nv = 0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if nfails or ref or unk:
        nv = len(nfails) + len(ref) + len(unk)
        doc = {"property": pid, "repo": build.REPO,
               "failed_obligations": [
                   {"contract": C.name, "function": C.covers, "obligation": x[0], "location": x[1], "verifier_output": x[2], "counterexample": x[3],
                    "kind": k} for k, l in (("refuted", ref), ("not discharged", unk)) for C, r, x in l],
               "failing_inputs": [{"driver": r["driver"], "args": [str(seed), tier] + r["params"], "failure": f, "stderr": r["err"][-2500:]}
                                  for r, f in nfails],
               "how_to_replay": "VERIF_SEED=%d VERIF_TIER=%s python3-vt check.py %s  (rebuilds the driver harness/<driver> against /repo and reruns it with the listed arguments)" % (seed, tier, pid)}
        json.dump(doc, open(replay, "w"), indent=1, default=str)
    for f in kf:
        if f["id"] in kf_hit:
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
    # ---- evidence
    nobl = sum(len(r.obls) for r in res)
    ndis = sum(sum(1 for s in r.obls.values() if s == "proved") for r in res)
    und = [(C.name, r.status, r.reason[:400]) for C, r in zip(Cs, res) if r.status != "proved"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(P, "LEVEL", "proof"),
          "coverage": {
              "obligations": nobl, "discharged": ndis,
              "checker_cmd": f"python3-vt check.py {pid}",
              "trusted_base": TRUSTED + list(getattr(P, "TRUSTED", [])) + sorted({t for r in res for t in r.trusted}),
              "vc_instances_discharged": sum(r.nproved for r in res),
              "contracts": [{"name": C.name, "status": r.status, "reason": r.reason[:300], "obligations": len(r.obls), "loops_with_invariants": r.loops,
                             "invariant_rounds": r.rounds, "seconds": round(r.time, 2), "solver": r.solver,
                             "functions_under_contract": C.covers, "end_states": r.ends, "postconditions_checked": r.posts,
                             "invariants": r.invs[:12], "bounded_runs_posts": r.bounded} for C, r in zip(Cs, res)],
              "functions_executed": sorted({f for r in res for f in r.functions})[:400],
              "backend": "z3 (integer obligations: linear + product lemmas + nonlinear), rational-function normal form with radicals (real obligations), congruence (bit-exact obligations)",
              "solver_time_s": round(sum(r.solver.get("z3_time", 0) for r in res), 2),
              "not_proved": und,
              "evaluations": sum(r["cases"] for r in nruns), "distinct_nontrivial": sum(r["distinct"] for r in nruns[:1]),
              "rule": "replay driver on the real code (ASan/UBSan): distinct case descriptions; it only produces failing inputs and cross-checks the verifier's model, it proves nothing",
              "samples": [s for r in nruns[:1] for s in r["samples"]][:6],
              "replay_runs": [{"driver": r["driver"], "params": r["params"], "rc": r["rc"], "cases": r["cases"], "fails": r["fails"][:5]} for r in nruns],
          },
          "assumptions": list(getattr(P, "ASSUMPTIONS", [])) + sorted({a for C in Cs for a in C.assumes}),
          "wall_s": round(time.time() - t0, 2), "violations": nv}
    if ev["level"] != "proof":
        ev["coverage"]["explanation"] = getattr(P, "EXPLANATION", "")
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1, default=str)
    for C, r in zip(Cs, res):
        print(f"{C.name:46s} {r.status:10s} obl={len(r.obls):3d} loops={r.loops} t={r.time:6.2f} {r.reason[:150]}")
    for r in nruns:
        print(f"replay {r['driver']} {r['params']} rc={r['rc']} cases={r['cases']} fails={r['fails'][:3]}")
    for C, r, x in (ref + unk)[:20]:
        print(f"FAILED-OBLIGATION {C.name}: {x[0]} at {x[1]}: {str(x[2])[:400]}")
    if all(r.status != "proved" for r in res) and not nv:
        print("NOTE: no contract could be decided; only the bounded stand-in ran")
    if nv:
        tail = "" if nfails or any(isinstance(x[3], dict) and x[3].get("sample") is not None for _, _, x in ref) else " no-failing-input-found"
        print(f"VIOLATION property={pid} replay={replay}{tail}")
        return 1
    print(f"OK property={pid} obligations={nobl} discharged={ndis} wall={time.time() - t0:.1f}s")
    return 0


def baseline(pid):
    p = os.path.join(VERIF, "baseline.json")
    if not os.path.exists(p):
        return None
    return set(json.load(open(p)).get(pid, []))


TRUSTED = [
    "clang 18 front end + opt (sroa, loop-simplify): the verified text is the LLVM IR of /repo's current source at -O0; vc/exec.py gives its semantics",
    "integers are mathematical with an obligation wherever the machine operation could overflow",
    "vc/exec.py, vc/prove.py, vc/smt.py (verification-condition generator and normaliser) and z3",
    "compiled code is assumed to implement the IR (gcc build of the project, no -ffast-math)",
]
