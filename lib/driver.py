import argparse, threading, traceback
from pipeline import *
from crates import *
import props, sm

JOBS = int(os.environ.get("VERIF_JOBS", "8"))


def known(pid):
    r = []
    p = os.path.join(VERIF, "known-findings.json")
    if os.path.exists(p):
        r = [f for f in json.load(open(p)).get("findings", []) if f["property"] == pid]
    return r


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--only", help="run only the tasks whose name matches")
    ap.add_argument("--keep", help="keep the goto programs in this folder")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    try:
        rc = run(a, tier, seed, t0)
    except Stop as e:
        print(f"NO VERDICT property={a.property}: {e}")
        rc = 2
    return rc


def repo_builds():
    rc, out, err = sh(["cargo", "build", "--offline", "--target-dir", os.path.join(BUILD, "target"),
                       "-p", "structmeta", "-p", "structmeta-derive"], cwd=REPO, timeout=600)
    return rc == 0


def violation(pid, what, replay):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{pid}.json")
    json.dump(replay, open(p, "w"), indent=1)
    print(f"  {what}")
    print(f"VIOLATION property={pid} replay={p}", flush=True)


def run(a, tier, seed, t0):
    pid = a.property
    budget = float(os.environ.get("VERIF_BUDGET", "780" if tier == "quick" else "7200"))
    tasks = props.PROPS[pid](tier)
    if a.only:
        tasks = [t for t in tasks if re.search(a.only, t.name)]
    mods = sorted({m for t in tasks for m in getattr(t, "mods", ())})
    root = os.path.join(BUILD, pid)
    os.makedirs(os.path.join(BUILD, "tmp"), exist_ok=True)
    os.makedirs(root, exist_ok=True)
    if pid in props.DERIVES:
        real = Real(root, tasks, mods, "dvreal", dreal_crate)
        c = dmodel_crate(root, tasks)
    else:
        real = Real(root, tasks, mods)
        c = model_crate(root, tasks, mods)
    hs, log = codegen(c, os.path.join(BUILD, "kani"))
    if hs is None:
        return build_failed(pid, real, log, tasks)
    t_gen = time.time() - t0
    by = {h["pretty_name"].split("::")[-1][len("check_"):]: h for h in hs}
    missing = [t.name for t in tasks if t.name not in by]
    if missing:
        raise Stop(f"no harness generated for {missing}")
    results, viol, problems, findings = {}, [], [], []
    lock = threading.Lock()
    stop = threading.Event()

    def work(t):
        if stop.is_set():
            return
        try:
            job(t)
        except Stop as e:
            problems.append(f"{t.name}: {e}")
        except Exception:
            problems.append(f"{t.name}: {traceback.format_exc()}")

    def job(t):
        left = budget - (time.time() - t0)
        keep = os.path.join(a.keep, t.name + ".out") if a.keep else None
        r = solve(by[t.name], t.hints, t.havoc, left, t.unwind, keep, t.solver)
        results[t.name] = r
        if a.v:
            with lock:
                st = r.get("stats", {})
                print(f"  {t.name:8} {r['status']:8} {r['wall']:6.1f}s inst {r.get('instrument_s',0):.1f} symex {st.get('symex_s', 0):.1f} solve {st.get('solver_s', 0):.1f} "
                      f"vars {st.get('vars', 0)} steps {st.get('steps', 0)} {t.about}", flush=True)
                for l, b in r.get('raised', {}).items():
                    print('     raised', l, b)
                for f in r.get("failed", []):
                    print("     FAILED", f["property"], f["description"], f["wit"])
                if r["status"] == "error":
                    print(r["text"][-300:])
        if r["status"] == "ok":
            if not r["covers"] or not all(hit for d, hit in r["covers"]):
                problems.append(f"{t.name}: vacuous (no input of the domain reaches {[d for d, hit in r['covers'] if not hit]})")
            return
        if r["status"] != "fail":
            problems.append(f"{t.name}: {r['status']} {r.get('text', '')[-600:]} {[f['property'] for f in r.get('failed', [])]}")
            return
        confirmed = False
        for f in r["failed"]:
            if f["wit"] is None:  # every value is a constant
                f["wit"] = [0] * 64
            if t.frame:  # the trace omits constants
                f["wit"] = [len(t.frame)] + [
                    (f["wit"] + [0] * 40)[i + 1] if x == sm.ANY else x for i, x in enumerate(t.frame)]
            with lock:
                bad, msg = real.run(t.name, f["wit"])
            if bad:
                confirmed = True
                viol.append(dict(property=pid, task=t.name, about=t.about, wit=f["wit"], claim=f["description"], observed=msg))
                stop.set()
                break
            f["replay"] = msg
        if not confirmed and t.havoc and any("MODEL-LIMIT" not in f["description"] for f in r["failed"]):
            # Perhaps an artefact of the abstraction: decide the query without it.
            t.havoc = None
            job(t)
            return
        if not confirmed:
            problems.append(f"{t.name}: counterexample not confirmed: " + "; ".join(
                f"{f['description']} [{f['property']}] {f.get('replay')}" for f in r["failed"][:3]))

    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(work, tasks))
    evidence(pid, tier, seed, t0, t_gen, tasks, results, viol, problems)
    for v in viol[:1]:
        violation(pid, f"{v['about']}: {v['observed']}", v)
    if viol:
        return 1
    if problems:
        for p in problems:
            print("PROBLEM", p)
        return 2
    print(f"OK property={pid} queries={len(results)} wall={time.time() - t0:.0f}s")
    return 0


def build_failed(pid, real, log, tasks):
    """The harness does not compile over the models: is that the code or the models?"""
    if not repo_builds():
        raise Stop("/repo does not build")
    if real.build():
        raise Stop("the code under test does not compile over the models:\n" + "\n".join(
            l for l in log.splitlines() if l.startswith(("error", "  -->", "   -->")))[:3000] + log[-1500:])
    errs = [l for l in real.err.splitlines() if l.startswith("error")]
    violation(pid, f"a documented definition is rejected or its generated code does not compile: {errs[:3]}",
              dict(property=pid, log=real.err[-4000:]))
    return 1


def evidence(pid, tier, seed, t0, t_gen, tasks, results, viol, problems):
    done = [r for r in results.values() if r["status"] in ("ok", "fail")]
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            explanation="Each query asks the SAT solver whether any token stream in the stated domain makes the "
                        "real code (compiled from /repo's working tree by Kani, executed symbolically by CBMC) "
                        "break the claim; `ok` means unsatisfiable, with every loop unwinding assertion discharged.",
            queries=len(results), queries_ok=sum(r["status"] == "ok" for r in results.values()),
            assertions_discharged=sum(r["claims"] for r in done if r["status"] == "ok"),
            states=sum(r["stats"]["vars"] for r in done),
            transitions=sum(r["stats"]["steps"] for r in done),
            traces_validated_against_impl=sum(1 for v in viol),
            symex_s=round(sum(r["stats"]["symex_s"] for r in done), 1),
            solver_s=round(sum(r["stats"]["solver_s"] for r in done), 1),
            codegen_s=round(t_gen, 1),
            reached=sum(1 for r in done if any(h for _, h in r["covers"])),
            bounds_and_domains={t.name: t.about for t in tasks},
            samples=[dict(task=n, status=r["status"], wall_s=round(r["wall"], 1), **r.get("stats", {}))
                     for n, r in list(results.items())],
            problems=problems,
        ),
        wall_s=round(time.time() - t0, 1), violations=len(viol))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1)
