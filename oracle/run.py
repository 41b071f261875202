"""Replay oracle: executes the real code in /repo on concrete cases of one property.

run.py PROP --out FILE [--tier quick|thorough] [--seed N] [--budget S]   search for a failing case
run.py --replay FILE                                                     re-run a recorded failing case
Cases are generated deterministically from the seed and split over 8 worker processes, each with its own
hash seed (set and dict iteration order differs); a case that uses more than LIMIT CPU seconds counts as
failing to terminate only when it does so twice.
"""
import sys, os, json, time, signal, subprocess, tempfile, argparse, importlib, traceback, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PV_REPO", "/repo")
WORKERS = 8
LIMIT = 6.0


class Late(BaseException):
    pass


def _late(*_):
    raise Late()


def timed(fn, case, limit=LIMIT):
    signal.signal(signal.SIGVTALRM, _late)
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    try:
        return fn(case)
    except Late:
        return "LATE"
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def one(mod, case):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            msg = timed(mod.check, case)
            if msg == "LATE":
                msg = timed(mod.check, case)
                if msg == "LATE":
                    msg = f"did not terminate within {LIMIT} CPU seconds"
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-3:]
            msg = f"raised {type(e).__name__}: {e} at {' > '.join(where)}"
    return msg


def load(prop):
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    return importlib.import_module(prop.lower())


def worker(a):
    mod = load(a.prop)
    t0 = time.time()
    n = 0
    seen = set()
    samples = []
    found = None
    from lib import rng_for
    for i, case in enumerate(mod.cases(a.tier, rng_for(a.seed, a.prop))):
        if time.time() - t0 > a.budget:
            break
        if i % WORKERS != a.worker:
            continue
        n += 1
        seen.add(hashlib.md5(json.dumps(case, sort_keys=True, default=str).encode()).digest())
        if len(samples) < 1 or (len(samples) < 2 and n == 50):
            samples.append(case)
        msg = one(mod, case)
        if msg:
            found = dict(case=case, message=msg, index=i, hashseed=os.environ.get("PYTHONHASHSEED"))
            if not known(a.prop, case, msg):
                break
            found = None
    json.dump(dict(n=n, distinct=len(seen), samples=samples, found=found, wall=time.time() - t0),
              open(a.out, "w"), default=str)


def known(prop, case, msg):
    """Is this exact failing case listed as a known finding?"""
    path = os.path.join(HERE, "..", "known_findings.txt")
    key = hashlib.md5(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:12]
    try:
        for line in open(path):
            if line.startswith("finding:") and f"property={prop} " in line and f"case={key}" in line:
                return True
    except OSError:
        pass
    return False


def env(h):
    e = dict(os.environ)
    e.update(PYTHONHASHSEED=str(h), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1")
    e.setdefault("MPLCONFIGDIR", tempfile.gettempdir())
    e.pop("PYTHONPATH", None)
    return e


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--out")
    ap.add_argument("--worker", type=int, default=None)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.budget is None:
        a.budget = 12 if a.tier == "quick" else 240
    if a.replay:
        d = json.load(open(a.replay))
        if not d.get("case"):
            print("no failing input in this replay file: it names the failed obligation")
            return 2
        if os.environ.get("PYTHONHASHSEED") != str(d.get("hashseed")):
            os.execve(sys.executable, [sys.executable] + sys.argv, env(d.get("hashseed")))
        msg = one(load(d["property"]), d["case"])
        print("REPRODUCED: " + msg if msg else "not reproduced")
        return 1 if msg else 0
    if a.worker is not None:
        worker(a)
        return 0
    with tempfile.TemporaryDirectory() as tmp:
        os.environ["MPLCONFIGDIR"] = tmp
        procs = []
        for w in range(WORKERS):
            out = os.path.join(tmp, f"{w}.json")
            procs.append((out, subprocess.Popen(
                [sys.executable, os.path.abspath(__file__), a.prop, "--tier", a.tier, "--seed", str(a.seed),
                 "--budget", str(a.budget), "--worker", str(w), "--out", out],
                env=env(a.seed * 100 + w), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        res = []
        for out, p in procs:
            err = p.communicate()[1]
            if p.returncode != 0 or not os.path.exists(out):
                res.append(dict(n=0, distinct=0, samples=[], found=None, crash=err.decode()[-2000:]))
            else:
                res.append(json.load(open(out)))
    founds = sorted((r["found"] for r in res if r["found"]), key=lambda f: f["index"])
    json.dump(dict(property=a.prop, n=sum(r["n"] for r in res), distinct=sum(r["distinct"] for r in res),
                   samples=sum((r["samples"] for r in res), [])[:4], found=founds[0] if founds else None,
                   crash=next((r["crash"] for r in res if r.get("crash")), None)), open(a.out, "w"))
    return 0


if __name__ == "__main__":
    sys.exit(main())
