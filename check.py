#!/usr/bin/env python3-vt
"""check.py PROP: decide one property on /repo's current working tree.

1. Every unit (contract, invariant, lemma) the property rests on is re-verified against the current source:
   the obligations are generated from the AST of /repo's files and discharged by z3.
2. The replay oracle executes the real code on concrete cases: it looks for a failing input behind a failed
   obligation, and is the bounded stand-in for functions no unit reaches.
Exit 1 with a VIOLATION line when an input fails on the real code or an obligation fails; 0 otherwise.
"""
from concurrent.futures import ThreadPoolExecutor
import re, sys, os, json, time, subprocess, tempfile, importlib, multiprocessing as mp, glob, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "pv"), os.path.join(HERE, "contracts")]
REPO = os.environ.get("PV_REPO", "/repo")
ORACLE_PY = "/opt/venv/bin/python"


def load_units(prop):
    import unit
    for f in sorted(glob.glob(os.path.join(HERE, "contracts", "*.py"))):
        importlib.import_module(os.path.basename(f)[:-3])
    return [u for u in unit.UNITS.values() if prop in u.props]


TIME = "unit time limit"


def child(u, scale, path, attempt):
    import unit, core, z3, resource
    z3.set_param("memory_max_size", 6000)  # a search that runs away ends this process only
    resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
    core.SEED = 11 * attempt
    t0 = time.time()

    def save(r, path):
        with open(path + ".tmp", "w") as f:
            json.dump(r, f)
        os.rename(path + ".tmp", path)

    def so_far(r):
        """What is known when an obligation fails, should this process be ended later."""
        save(dict(unit=u.name, discharged=r.discharged, failed=r.failed, timeouts=r.timeouts, unsupported=r.unsupported or TIME, paths=r.paths, functions=sorted(r.functions), assumed=sorted(r.assumed),
                  vacuous=[], queries=core.STATS.queries, solver_s=round(core.STATS.solver_s, 2), wall_s=round(time.time() - t0, 2)), path + ".part")
    save(unit.run_unit(u, REPO, scale, so_far), path)
    os._exit(0)


def run_units(units, scale, jobs=8):
    ctx = mp.get_context("fork")
    res = {}
    with tempfile.TemporaryDirectory() as tmp:
        todo = [(u, 0) for u in sorted(units, key=lambda u: -u.limit)]
        live = []
        while todo or live:
            while todo and len(live) < jobs:
                u, attempt = todo.pop(0)
                path = os.path.join(tmp, hashlib.md5(u.name.encode()).hexdigest())
                p = ctx.Process(target=child, args=(u, scale, path, attempt))
                p.start()
                live.append((u, p, path, time.time(), attempt))
            time.sleep(0.02)
            for item in list(live):
                u, p, path, t0, attempt = item
                late = time.time() - t0 > u.limit * scale * 1.5 + 30
                if late:
                    p.kill()
                if not p.is_alive():
                    p.join()
                    live.remove(item)
                    if os.path.exists(path):
                        res[u.name] = json.load(open(path))
                    elif attempt == 0 and not late:
                        todo.insert(0, (u, 1))  # once more with another search
                    elif os.path.exists(path + ".part"):
                        res[u.name] = json.load(open(path + ".part"))
                    else:
                        res[u.name] = dict(unit=u.name, discharged={}, failed={}, timeouts={}, paths=0, functions=[], assumed=[], vacuous=[],
                                           unsupported="time limit" if late else "the verifier process died", queries=0, solver_s=0, wall_s=round(time.time() - t0, 2))
    return res


def run_oracle(prop, tier, seed, budget):
    with tempfile.TemporaryDirectory() as tmp:
        out = os.path.join(tmp, "o.json")
        e = dict(os.environ, MPLCONFIGDIR=tmp, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PV_REPO=REPO)
        cmd = [ORACLE_PY, os.path.join(HERE, "oracle", "run.py"), prop, "--out", out, "--tier", tier, "--seed", str(seed)]
        if budget:
            cmd += ["--budget", str(budget)]
        p = subprocess.run(cmd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if not os.path.exists(out):
            return dict(n=0, distinct=0, samples=[], found=None, crash=p.stderr.decode()[-1500:])
        return json.load(open(out))


def changed_functions(names, memo={}):
    """The functions that are not as recorded in contracts/prints.json."""
    from prints import prints_of
    if not memo:
        memo["now"] = prints_of(REPO)
        memo["then"] = json.load(open(os.path.join(HERE, "contracts", "prints.json")))
    return sorted(n for n in names if "<" not in n and not set(memo["now"].get(n, ["none"])) <= set(memo["then"].get(n, [])))


def laws_in_lean(tier):
    """The mathematics the contracts rest on, proved in Lean (thorough tier; the quick tier only names it)."""
    if tier != "thorough":
        return "tools/laws.py (run by the thorough tier)"
    try:
        p = subprocess.run([sys.executable, os.path.join(HERE, "tools", "laws.py"), "-q"], capture_output=True, text=True, timeout=240)
        return (p.stdout.strip().splitlines() or ["no answer"])[-1]
    except Exception as e:
        return f"not run: {e!r}"[:200]


def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            if line.startswith("finding:") and f"property={prop} " in line:
                out.append(line.split(f"property={prop} ", 1)[1].strip())
    except OSError:
        pass
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    units = load_units(prop)
    scale = 1.0 if tier == "quick" else 4.0
    budget = float(os.environ.get("PV_BUDGET", 0)) or (10 if tier == "quick" else 200)
    with ThreadPoolExecutor(1) as pool:  # the oracle is another process: start it before the units are forked
        fut = pool.submit(run_oracle, prop, tier, seed, budget)
        res = run_units(units, scale)
        orc = fut.result()

    def mine(n, name):
        """Obligations tagged [X] belong to property X, the others to the first property of the unit, and to those it is shared with."""
        m = re.match(r"\[(C\d\d)\]", name)
        return m.group(1) == prop if m else prop in owner[n].shared or owner[n].props[0] == prop
    owner = {u.name: u for u in units}
    for n, r in res.items():
        for f in ("discharged", "failed", "timeouts"):
            r[f] = {k: v for k, v in r[f].items() if mine(n, k)}
    discharged = {f"{n}: {k}": c for n, r in res.items() for k, c in r["discharged"].items()}
    failed = {f"{n}: {k}": d for n, r in res.items() for k, d in r["failed"].items() if r["unsupported"] in (None, TIME)}
    timeouts = {}
    for n, r in res.items():
        lost = r["unsupported"] in (None, TIME) and changed_functions(r["functions"])
        for k, d in r["timeouts"].items():
            if lost:  # proved for the recorded code: a proof that is lost, not a slow machine
                failed[f"{n}: {k}"] = f"{d} (changed: {', '.join(lost[:5])})"
            else:
                timeouts[f"{n}: {k}"] = d
    undecided = {n: r["unsupported"] for n, r in res.items() if r["unsupported"]}
    for n, r in res.items():
        if r["unsupported"] not in (None, TIME) and r["failed"]:
            for k, d in r["failed"].items():
                timeouts[f"{n}: {k}"] = "not counted (the unit was not completed): " + d
    vacuous = {n: r["vacuous"] for n, r in res.items() if r["vacuous"]}
    if (failed or undecided or timeouts) and not orc.get("found") and not orc.get("crash"):
        # a proof failed or could not be redone: look longer for a failing input behind it
        more = max(0, min(max(budget, 150), 780 * scale - (time.time() - t0)))
        if more > 15:
            second = run_oracle(prop, tier, seed + 1, more)
            orc = dict(second, n=orc["n"] + second["n"], distinct=orc["distinct"] + second["distinct"], samples=orc["samples"])
            budget += more

    rdir = os.path.join(HERE, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    lines, code = [], 0
    for k in known_findings(prop):
        lines.append(f"KNOWN-FINDING: property={prop} {k}")
    replay = os.path.join(rdir, f"{prop}.json")
    if os.path.exists(replay):
        os.remove(replay)
    if orc.get("found"):
        f = orc["found"]
        json.dump(dict(property=prop, case=f["case"], hashseed=f["hashseed"], message=f["message"], failed_obligations=failed,
                       replay_cmd=f"{ORACLE_PY} {HERE}/oracle/run.py --replay {replay}"), open(replay, "w"), indent=1, default=str)
        lines.append(f"failing input: {json.dumps(f['case'], default=str)[:600]}")
        lines.append(f"what happened: {f['message'][:600]}")
        for k in list(failed)[:8]:
            lines.append(f"failed obligation: {k}")
        lines.append(f"VIOLATION property={prop} replay={replay}")
        code = 1
    elif failed:
        json.dump(dict(property=prop, case=None, failed_obligations=failed, obligation=next(iter(failed)),
                       verifier_output={n: r for n, r in res.items() if r["failed"] or r["timeouts"]}), open(replay, "w"), indent=1)
        for k, d in list(failed.items())[:8]:
            lines.append(f"failed obligation: {k}: {d[:300]}")
        lines.append(f"VIOLATION property={prop} replay={replay} no-failing-input-found")
        code = 1
    if not units and code == 0:
        lines.append("no unit decides this property")
        code = 3
    if orc.get("crash") and code == 0:
        lines.append("the replay oracle crashed: " + orc["crash"])
        code = 3

    n_dis = sum(discharged.values())
    n_obl = n_dis + len(failed) + len(timeouts) + len(undecided)
    meta = json.load(open(os.path.join(HERE, "contracts", "meta.json"))).get(prop, {})
    ev = dict(property=prop, tier=tier, seed=seed, level=meta.get("level", "proof"), coverage=dict(
        obligations=n_obl, discharged=n_dis, checker_cmd=f"python3-vt check.py {prop}",
        trusted_base=["z3 5.3 (python3-vt), and the verification-condition generator /verif/pv",
                      "the models of built-in functions and containers in pv/builtins_model.py" + (" and of numpy in pv/nd.py" if meta.get("numpy") else "")]
        + sorted({a for r in res.values() for a in r["assumed"]}) + meta.get("trusted", []),
        backend="z3 (cvc5 where z3 gives no proof)", solver_s=round(sum(r["solver_s"] for r in res.values()), 2), solver_queries=sum(r["queries"] for r in res.values()),
        named_obligations=len(discharged), units={n: dict(obligations=sum(r["discharged"].values()), paths=r["paths"], wall_s=r["wall_s"]) for n, r in res.items()},
        functions_under_contract=sorted({f for r in res.values() for f in r["functions"]}),
        failed=failed, timeouts=timeouts, undecided=undecided, unreachable_points=vacuous,
        laws=laws_in_lean(tier), bounded=dict(what=meta.get("bounded", "the whole property, on concrete cases (not counted as proved)"), evaluations=orc.get("n", 0),
                     distinct=orc.get("distinct", 0), budget_s=budget, samples=orc.get("samples", [])[:2])),
        assumptions=meta.get("assumptions", []) + ["int and float are mathematical numbers (no rounding, overflow, NaN)" ],
        wall_s=round(time.time() - t0, 2), violations=1 if code == 1 else 0)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1, default=str)
    for n, why in undecided.items():
        lines.insert(0, f"undecided: {n}: {why}")
    for n in timeouts:
        lines.insert(0, f"undecided: {n}: solver gave no answer")
    lines.insert(0, f"{prop} [{tier}] obligations {n_obl}, discharged {n_dis}, failed {len(failed)}, units {len(units)} ({len(undecided)} undecided); "
                    f"{orc.get('n', 0)} concrete cases; {time.time() - t0:.1f} s")
    print("\n".join(lines), flush=True)
    return code


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":  # the same obligations in the same order on every run
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
    sys.exit(main())
