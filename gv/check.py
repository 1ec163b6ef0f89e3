"""python -m gv.check <property> [--tier quick|thorough]: decide one property."""
import json
import os
import pickle
import resource
import select
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "PYTHONNOUSERSITE": "1",
       "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "OPENBLAS_CORETYPE": "Haswell",
       "NPY_DISABLE_CPU_FEATURES": "AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL",
       "PYTHONPYCACHEPREFIX": "/nonexistent-pycache", "MPLBACKEND": "agg"}


def reexec():
    if os.environ.get("GV_CHILD") == "1":
        return
    env = dict(os.environ)
    env.update(ENV)
    env["GV_CHILD"] = "1"
    os.chdir(HERE)
    os.execve(sys.executable, [sys.executable, "-m", "gv.check"] + sys.argv[1:], env)


# ------------------------------------------------------------ process pool
class Job:
    def __init__(self, key, fn, args, limit, mem_gb):
        self.key, self.fn, self.args, self.limit, self.mem = key, fn, args, limit, mem_gb
        self.pid = self.fd = self.t0 = None
        self.buf = []


def _start(j):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.setpgid(0, 0)
            if j.mem:
                lim = int(j.mem * (1 << 30))
                resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
            nul = os.open(os.devnull, os.O_RDWR)
            os.dup2(nul, 1)
            os.dup2(nul, 2)
            try:
                res = ("ok", j.fn(*j.args))
            except BaseException as e:  # reported to the parent
                import traceback
                res = ("error", "%s: %s\n%s" % (type(e).__name__, e,
                                               traceback.format_exc()[-1500:]))
            data = pickle.dumps(res)
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    j.pid, j.fd, j.t0 = pid, r, time.time()


def run_jobs(jobs, width, deadline):
    """-> {key: (status, value)}"""
    out = {}
    todo = list(jobs)
    live = {}
    while todo or live:
        while todo and len(live) < width and time.time() < deadline:
            j = todo.pop(0)
            _start(j)
            live[j.fd] = j
        if not live:
            for j in todo:
                out[j.key] = ("timeout", "not started: time budget used up")
            break
        rd, _, _ = select.select(list(live), [], [], 0.5)
        now = time.time()
        for fd in rd:
            j = live[fd]
            b = os.read(fd, 1 << 20)
            if b:
                j.buf.append(b)
                continue
            os.close(fd)
            del live[fd]
            os.waitpid(j.pid, 0)
            try:
                out[j.key] = pickle.loads(b"".join(j.buf))
            except Exception:
                out[j.key] = ("error", "worker died (memory?)")
        for fd, j in list(live.items()):
            if now - j.t0 > j.limit or now > deadline:
                try:
                    os.killpg(j.pid, 9)
                except OSError:
                    try:
                        os.kill(j.pid, 9)
                    except OSError:
                        pass
                os.close(fd)
                del live[fd]
                os.waitpid(j.pid, 0)
                out[j.key] = ("timeout", "stopped after %.0f s" % (now - j.t0))
    return out


def lean_job(name):
    p = os.path.join(HERE, "lean", name + ".lean")
    t0 = time.time()
    r = subprocess.run(["lean", p], capture_output=True, text=True, timeout=600)
    txt = r.stdout + r.stderr
    src = open(p).read()
    bad = "sorry" in src or "axiom " in src or "native_decide" in src
    return {"ok": r.returncode == 0 and not bad and "error" not in txt, "out": txt[-800:],
            "secs": round(time.time() - t0, 1)}


# ------------------------------------------------------------ main
def main():
    reexec()
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-proof", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, HERE)
    t0 = time.time()
    budget = 780 if a.tier == "quick" else 3300
    deadline = t0 + budget
    from . import spec as S, conc, verify as V
    import girth  # noqa: F401  (shared by the forked workers)
    if not os.path.realpath(girth.__file__).startswith("/repo/"):
        print("girth is not imported from /repo: %s" % girth.__file__)
        return 2
    S.loadall()
    cids = [c for c in S.REGISTRY if a.prop in S.REGISTRY[c].props]
    scen = [s for s in S.SCEN if a.prop in S.SCEN[s].props]
    if not cids and not scen:
        print("no contract for", a.prop)
        return 2
    # callee contracts used by these proofs are part of the property
    todo, closure = list(cids), []
    while todo:
        x = todo.pop()
        if x in closure:
            continue
        closure.append(x)
        for y in S.REGISTRY.values():
            if y.export and y.qual in S.REGISTRY[x].use + S.REGISTRY[x].opaque \
                    and (y.result or y.returns or y.final):
                todo.append(y.cid)
    closure.sort()
    mult = 1 if a.tier == "quick" else 10
    jobs = []
    for c in closure:
        con = S.REGISTRY[c]
        for i in range(len(con.cases)):
            if con.proof and not a.no_proof:
                pb = con.budget if a.tier == "quick" else con.budget * 3
                jobs.append(Job(("P", c, i), V.verify, (c, i, "/repo", pb), pb + 60, 7))
    for c in closure:
        con = S.REGISTRY[c]
        for i in range(len(con.cases)):
            if con.runs:
                jobs.append(Job(("C", c, i), conc.campaign,
                                (c, i, seed, con.runs * mult, 25 * mult), 60 * mult + 30, None))
    for s in scen:
        sc = S.SCEN[s]
        jobs.append(Job(("S", s, 0), conc.scen_campaign,
                        (s, seed, sc.runs * mult, 60 * mult), 150 * mult, None))
    jobs.sort(key=lambda j: {"S": 0, "P": 1, "C": 2}[j.key[0]])
    width = max(2, os.cpu_count() or 2)
    res = run_jobs(jobs, width, deadline)
    # Lean lemmas
    lemmas = set()
    for (k, c, i), (st, v) in res.items():
        if k == "P" and st == "ok":
            lemmas |= set(v.get("lemmas", ()))
    lean = run_jobs([Job(("L", n, 0), lean_job, (n,), 620, None) for n in sorted(lemmas)],
                    4, deadline)
    violations = []       # (message, replay path, concrete?)
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)

    def rpath(tag):
        return os.path.join(HERE, "replay", "%s-%s.txt" % (a.prop, tag))

    def concrete(results, sd):
        n = 0
        for (k, c, i), (st, v) in sorted(results.items()):
            if k not in "CS":
                continue
            if st != "ok":
                if st == "timeout" and k == "C":
                    hang.append((c, v))
                elif st == "error":
                    errors.append((c, v))
                continue
            if v["slow"] > 1 and v["runs"] == 0:
                hang.append((c, "no run finished"))
            stats["runs"] += v["runs"]
            stats["skipped"] += v["skipped"]
            for kk, m, args in v["failures"]:
                p = rpath("input%d" % len(violations))
                conc.dump(p, a.prop, "contract" if k == "C" else "scenario", c, v["case"], kk,
                          sd, m, args)
                violations.append(("%s: %s" % (c, m), p, True))
                n += 1
        return n

    hang, errors = [], []
    stats = {"runs": 0, "skipped": 0}
    concrete(res, seed)
    proofs = {kk: v for kk, v in res.items() if kk[0] == "P"}
    failed = []
    for (k, c, i), (st, v) in sorted(proofs.items()):
        if st != "ok":
            failed.append((c, i, "proof attempt: %s" % v, []))
        elif v["status"] != "proved":
            failed.append((c, i, v["error"] or "", [o for o in v["obligations"]
                                                   if o["status"] != "proved"]))
    for (k, n, i), (st, v) in lean.items():
        if st != "ok" or not v["ok"]:
            failed.append(("lemma " + n, 0, "lean: %s" % (v if st != "ok" else v["out"]), []))
    if failed and not violations:
        # look harder for a failing input before reporting the obligation alone
        more = []
        left = deadline - time.time()
        per = max(20, min(120, left / 3))
        names = sorted({(c, i) for c, i, _, _ in failed if c in S.REGISTRY})
        for c, i in names:
            if S.REGISTRY[c].runs:
                for r in range(3):
                    more.append(Job(("C", c, i * 10 + r), hunt,
                                    (c, i, seed * 1000 + 7 + r, S.REGISTRY[c].runs * 20, per,
                                     r > 0), per + 40, None))
        for s in scen:
            for r in range(3):
                more.append(Job(("S", s, r), conc.scen_campaign,
                                (s, seed * 1000 + 7 + r, S.SCEN[s].runs * 10, per), per + 60,
                                None))
        if left > 40 and more:
            concrete(run_jobs(more, width, min(deadline, time.time() + per * 2 + 60)),
                     "%d (extended)" % seed)
    if hang and not violations:
        c, v = hang[0]
        p = rpath("hang")
        with open(p, "w") as f:
            f.write("property: %s\ncontract: %s\nviolation: does not finish (%s)\n" % (a.prop, c, v))
        violations.append(("%s: does not finish: %s" % (c, v), p, False))
    if failed and not violations:
        p = rpath("proof")
        with open(p, "w") as f:
            f.write("property: %s\nfailed obligations (no failing input found)\n" % a.prop)
            for c, i, err, obs in failed:
                f.write("\ncontract %s case %s: %s\n" % (c, i, err))
                for o in obs:
                    f.write("  obligation: %s\n    status: %s\n    goal: %s\n    verifier: %s\n"
                            % (o["name"], o["status"], o["goal"], o["info"]))
        violations.append(("%s: %s" % (failed[0][0], (failed[0][2] or "; ".join(
            o["name"] for o in failed[0][3])[:300])), p, False))
    evidence(a, seed, t0, closure, scen, proofs, lean, stats, violations, failed, S)
    known = load_known(a.prop)
    for e in errors[:3]:
        print("note: concrete run of %s could not be made: %s" % (e[0], e[1][:300]))
    rc = 0
    shown = 0
    for m, p, conc_ in violations:
        hit = [k for k in known if k in m]
        if hit:
            continue
        print("  %s" % m[:500])
        if shown < 5:
            print("VIOLATION property=%s replay=%s%s" % (
                a.prop, p, "" if conc_ else " no-failing-input-found"))
            shown += 1
        rc = 1
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k))
    if errors and rc == 0:
        print("error: %d concrete campaigns could not run" % len(errors))
        rc = 2
    n_o = sum(len(v["obligations"]) for st, v in proofs.values() if st == "ok")
    print("%s %s: %d contracts, %d obligations, %d concrete runs, %.0f s: %s" % (
        a.prop, a.tier, len(closure), n_o, stats["runs"], time.time() - t0,
        "held" if rc == 0 else "FAILED"))
    return rc


def hunt(c, i, seed, runs, budget, bent):
    from . import conc
    return conc.campaign(c, i, seed, runs, budget, True, bent)


def load_known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("known: property=%s " % prop):
                out.append(ln.split(" ", 2)[2])
    return out


TRUSTED = [
    "the gv verifier itself (symbolic executor, normal forms, VC generation)",
    "z3 / cvc5 / Lean kernel",
    "CPython's parser (the text proved is the AST of /repo's files on this run)",
    "NumPy/SciPy/standard library contracts listed under library_contracts",
    "floating point treated as mathematical reals; int64 as unbounded integers",
    "denominators, logarithm and root arguments assumed non-degenerate where not stated",
    "optimisers (fminbound, fmin_slsqp, minimize, basinhopping, fixed_point) are deterministic "
    "functions of objective, start, bounds and options; results lie in the bounds they are given",
]


def evidence(a, seed, t0, closure, scen, proofs, lean, stats, violations, failed, S):
    obl = dis = 0
    by = {}
    libs, funcs, inl, notes = set(), [], set(), []
    z3s = cvs = 0.0
    for (k, c, i), (st, v) in sorted(proofs.items()):
        if st != "ok":
            continue
        obl += max(1, len(v["obligations"]))
        for o in v["obligations"]:
            if o["status"] == "proved":
                dis += 1
                by[o["by"]] = by.get(o["by"], 0) + 1
        libs |= set(v["assumed"])
        funcs.append(v["name"])
        inl |= set(v["touched"])
        notes += v.get("loop_notes", [])
        z3s += v["z3_secs"]
        cvs += v["cvc5_secs"]
    obl += len(lean)
    dis += sum(1 for st, v in lean.values() if st == "ok" and v["ok"])
    bounded = [c for c in closure if not S.REGISTRY[c].proof] + list(scen)
    cov = {
        "obligations": obl, "discharged": dis,
        "checker_cmd": "/verif/bin/check %s --tier %s" % (a.prop, a.tier),
        "trusted_base": TRUSTED,
        "functions_under_contract": funcs,
        "functions_executed_from_repo_text": sorted(inl),
        "discharged_by": by, "solver_secs": {"z3": round(z3s, 1), "cvc5": round(cvs, 1)},
        "lean_lemmas": {n: (v if st == "ok" else st) for (_, n, _), (st, v) in lean.items()},
        "library_contracts": sorted(x for x in libs if not x.startswith(("note", "gv.rt"))),
        "concrete_cross_check_runs": stats["runs"],
        "bounded_only_not_counted_as_proved": bounded,
        "failed": [[c, i, e[:300]] for c, i, e, _ in failed],
    }
    if obl == 0:
        cov["explanation"] = "no obligation"
    ev = {"property": a.prop, "tier": a.tier, "seed": seed,
          "level": "proof" if funcs else "other",
          "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "assumptions": TRUSTED[3:] + sorted(x[6:] for x in libs if x.startswith("note"))
          + ["contract note: %s: %s" % (c, S.REGISTRY[c].note) for c in closure
             if S.REGISTRY[c].note],
          "violations": len(violations)}
    if not funcs:
        cov["explanation"] = "concrete runs only"
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
