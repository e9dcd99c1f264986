"""Harness core: facets (a Hypothesis generator + an oracle over plain-data cases), runner, shrinking, evidence."""
import argparse, contextlib, hashlib, importlib, json, multiprocessing as mp, os, signal, sys, time, traceback, warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
SHRINK_BUDGET = {"quick": 25.0, "thorough": 90.0}
CASE_ALARM = 150


class Violation(Exception):
    "the code under test broke the property"


class Inconclusive(Exception):
    "the harness could not decide this case (counted, never a violation)"


class HarnessError(Exception):
    pass


def bootstrap():
    sys.path.insert(0, REPO)
    if VT not in sys.path:
        sys.path.append(VT)     # only hypothesis and its dependencies come from here: the venv has priority
    warnings.simplefilter("ignore")
    import torch
    torch.set_num_threads(1)
    with contextlib.redirect_stdout(open(os.devnull, "w")):
        import torchdyn, torchdyn.core, torchdyn.numerics, torchdyn.models, torchdyn.nn, torchdyn.datasets  # noqa
    if not os.path.abspath(torchdyn.__file__).startswith(REPO + "/"):
        raise HarnessError("torchdyn is not imported from /repo: " + torchdyn.__file__)
    import hypothesis  # noqa


# ---------------------------------------------------------------------------------------------- facets
class Ctx:
    def __init__(self):
        self.labels, self.nt = [], False

    def label(self, *ls):
        self.labels.extend(str(l) for l in ls)

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg):
        if not bool(cond):
            raise Violation(msg() if callable(msg) else msg)

    def close(self, a, b, rtol, atol, msg):
        "elementwise |a - b| <= atol + rtol*max|b|, NaN and shape mismatch are failures"
        import torch
        a, b = torch.as_tensor(a).detach(), torch.as_tensor(b).detach()
        if a.shape != b.shape:
            raise Violation(f"{msg}: shape {tuple(a.shape)} instead of {tuple(b.shape)}")
        if a.numel() == 0:
            return
        if not (a.is_complex() or b.is_complex()):
            a, b = a.double(), b.double()
        if not torch.isfinite(b.abs()).all():
            raise Inconclusive("reference is not finite")
        err = (a - b).abs()
        tol = atol + rtol * float(b.abs().max())
        if not bool((err <= tol).all()):
            raise Violation(f"{msg}: max deviation {float(err.max()):.6g} > {tol:.3g}; got {short(a)} expected {short(b)}")


def short(x, n=8):
    import torch
    if isinstance(x, torch.Tensor):
        v = x.detach().reshape(-1)[:n].tolist()
        return f"{v}{'...' if x.numel() > n else ''} shape={tuple(x.shape)}"
    s = repr(x)
    return s if len(s) < 400 else s[:400] + "..."


class Facet:
    def __init__(self, name, fn, strategy, quick, thorough, regress, shards, doc, exhaustive=False):
        self.name, self.fn, self.strategy, self.quick, self.thorough = name, fn, strategy, quick, thorough
        self.regress, self.shards, self.doc = regress, shards, doc


class Registry(list):
    "facets of one property module"
    def facet(self, strategy, quick=100, thorough=2000, regress=(), shards=1, name=None):
        def deco(fn):
            self.append(Facet(name or fn.__name__, fn, strategy, quick, thorough, list(regress), shards,
                              (fn.__doc__ or "").strip()))
            return fn
        return deco


def from_repo(tb):
    while tb is not None:
        fn = os.path.abspath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(REPO + "/"):
            return True
        tb = tb.tb_next
    return False


def _alarm(*a):
    raise Inconclusive(f"case took longer than {CASE_ALARM}s")


def run_case(facet, case):
    "returns (ctx, None | violation message); Inconclusive and harness errors propagate"
    ctx = Ctx()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_ALARM)
    try:
        facet.fn(json.loads(json.dumps(case)), ctx)
        return ctx, None
    except Violation as e:
        return ctx, str(e)
    except (Inconclusive, HarnessError, MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        if from_repo(e.__traceback__):
            fr = [f for f in traceback.extract_tb(e.__traceback__) if os.path.abspath(f.filename).startswith(REPO + "/")][-1]
            return ctx, f"{type(e).__name__}: {e} raised from {os.path.relpath(fr.filename, REPO)}:{fr.lineno} on a valid input"
        if isinstance(e, (TypeError, ValueError, IndexError, KeyError, AttributeError, RuntimeError, ArithmeticError)):
            fr = traceback.extract_tb(e.__traceback__)[-1]      # what the code returned cannot even be judged
            return ctx, f"result of an unexpected form: {type(e).__name__}: {e} at {os.path.basename(fr.filename)}:{fr.lineno}"
        raise
    finally:
        signal.alarm(0)


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


# ---------------------------------------------------------------------------------------------- worker
def run_facet(facet, prop, seed, shard, n, tier, stop_at):
    "runs regressions (shard 0) and n generated examples; returns a result dict"
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    res = dict(facet=facet.name, shard=shard, evaluations=0, nontrivial={}, labels={}, samples=[], inconclusive=0,
               inconclusive_msgs=[], violation=None, error=None, wall=0.0, regressions=0, requested=n, cut=False)
    t0 = time.time()
    failing = {}          # key -> message
    best = [None]         # (size, case, msg)
    first_fail = [None]

    def execute(case):
        key = case_key(case)
        if key in failing:
            raise Violation(failing[key])
        if first_fail[0] is not None and time.time() - first_fail[0] > SHRINK_BUDGET[tier]:
            return
        if first_fail[0] is None and stop_at is not None and time.time() > stop_at:
            res["cut"] = True       # time budget: the rest of this shard is not explored
            return
        res["evaluations"] += 1
        try:
            ctx, msg = run_case(facet, case)
        except Inconclusive as e:
            res["inconclusive"] += 1
            if len(res["inconclusive_msgs"]) < 5:
                res["inconclusive_msgs"].append(str(e))
            return
        for l in ctx.labels:
            res["labels"][l] = res["labels"].get(l, 0) + 1
        if ctx.nt:
            if key not in res["nontrivial"] and len(res["samples"]) < 2:
                res["samples"].append(dict(facet=facet.name, case=case, labels=ctx.labels))
            res["nontrivial"][key] = 1
        if msg is not None:
            failing[key] = msg
            if first_fail[0] is None:
                first_fail[0] = time.time()
            size = (len(json.dumps(case)), json.dumps(case))
            if best[0] is None or size < best[0][0]:
                best[0] = (size, case, msg)
            raise Violation(msg)

    try:
        if shard == 0:
            for case in facet.regress:
                res["regressions"] += 1
                try:
                    execute(case)
                except Violation:
                    raise
        hseed = int(hashlib.sha1(f"{seed}/{prop}/{facet.name}/{shard}".encode()).hexdigest()[:12], 16)

        @hypothesis.seed(hseed)
        @settings(max_examples=n, deadline=None, database=None, print_blob=False, report_multiple_bugs=False,
                  phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck))
        @given(facet.strategy)
        def prop_test(case):
            execute(case)
        if n > 0:
            prop_test()
    except Violation:
        pass
    except hypothesis.errors.Flaky as e:
        if best[0] is None:
            res["error"] = "flaky: " + str(e)[:500]
    except BaseException as e:   # noqa
        if best[0] is None:
            res["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    if best[0] is not None:
        res["violation"] = dict(case=best[0][1], message=best[0][2])
    res["nontrivial"] = list(res["nontrivial"])
    res["wall"] = time.time() - t0
    return res


def _worker(q, facet, prop, seed, shard, n, tier, stop_at):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VF_DEBUG"):
        os.dup2(devnull, 2)
    import torch
    torch.set_num_threads(1)
    warnings.simplefilter("ignore")
    try:
        q.put(run_facet(facet, prop, seed, shard, n, tier, stop_at))
    except BaseException as e:  # noqa
        q.put(dict(facet=facet.name, shard=shard, error=repr(e)))
    q.close()
    q.join_thread()


def schedule(tasks, prop, seed, tier, jobs, budget, hard):
    "forks one process per (facet, shard); never more than `jobs` at a time"
    mpctx = mp.get_context("fork")
    pending, running, results = list(tasks), [], []
    start = time.time()
    stop_at = start + budget
    while pending or running:
        while pending and len(running) < jobs:
            facet, shard, n = pending.pop(0)
            q = mpctx.Queue()
            p = mpctx.Process(target=_worker, args=(q, facet, prop, seed, shard, n, tier, stop_at))
            p.start()
            running.append((p, q, facet, shard, time.time()))
        time.sleep(0.02)
        still = []
        for p, q, facet, shard, t in running:
            got = None
            try:
                got = q.get_nowait()
            except Exception:
                pass
            if got is not None:
                p.join(10)
                if p.is_alive():
                    p.kill()
                results.append(got)
            elif not p.is_alive():
                try:
                    got = q.get(timeout=2)
                    results.append(got)
                except Exception:
                    results.append(dict(facet=facet.name, shard=shard, error=f"worker died with exit code {p.exitcode}"))
            elif time.time() - start > hard:
                p.kill()
                results.append(dict(facet=facet.name, shard=shard, error=f"worker exceeded the hard limit of {hard:.0f}s"))
            else:
                still.append((p, q, facet, shard, t))
        running = still
    order = {(f.name, s): i for i, (f, s, n) in enumerate(tasks)}
    results.sort(key=lambda r: order[(r["facet"], r["shard"])])
    return results


# ---------------------------------------------------------------------------------------------- known findings
def known_findings(prop):
    "entries `known: property=C10 id=<id> <text>` of the committed file"
    out = []
    with open(os.path.join(ROOT, "known_findings.txt")) as fh:
        for line in fh:
            line = line.strip()
            if line.startswith("known:"):
                parts = line[len("known:"):].strip().split(None, 2)
                kv = dict(p.split("=", 1) for p in parts[:2])
                if kv.get("property") == prop:
                    out.append((kv["id"], parts[2] if len(parts) > 2 else ""))
    return out


# ---------------------------------------------------------------------------------------------- main
def main(argv):
    if argv == ["--selfcheck"]:
        bootstrap()
        import torchdyn
        print("ok:", torchdyn.__file__)
        return 0
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--facet")
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VF_JOBS", "8")))
    a = ap.parse_args(argv)
    prop, tier = a.property, a.tier
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        bootstrap()
        with contextlib.redirect_stdout(open(os.devnull, "w")):
            mod = importlib.import_module(f"vf.props.{prop.lower()}")
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={prop} the harness could not be set up", flush=True)
        return 2
    facets = [f for f in mod.F if a.facet is None or f.name == a.facet]

    if a.replay:
        with open(a.replay) as fh:
            rec = json.load(fh)
        facet = [f for f in mod.F if f.name == rec["facet"]][0]
        ctx, msg = run_case(facet, rec["case"])
        if msg is None:
            print(f"replay of {a.replay}: property {prop} holds on this case")
            return 0
        print(f"{facet.name}: {msg}")
        print(f"VIOLATION property={prop} replay={a.replay}", flush=True)
        return 1

    budget = {"quick": 170.0, "thorough": 3000.0}[tier]
    hard = {"quick": 600.0, "thorough": 5400.0}[tier]
    tasks = []
    for f in facets:
        n = f.quick if tier == "quick" else f.thorough
        shards = f.shards if tier == "quick" else max(f.shards, 4)
        per = max(1, int(n * a.scale + shards - 1) // shards)
        for s in range(shards):
            tasks.append((f, s, per))
    results = schedule(tasks, prop, seed, tier, a.jobs, budget, hard)

    violations, errors, detail, samples = [], [], {}, []
    keys, evals, inconc = set(), 0, 0
    for r in results:
        if r.get("error"):
            errors.append((r["facet"], r["error"]))
        if "evaluations" not in r:
            continue
        d = detail.setdefault(r["facet"], dict(evaluations=0, nontrivial=0, regressions=0, inconclusive=0, labels={}, wall_s=0.0, cut_by_time_budget=False))
        d["evaluations"] += r["evaluations"]
        d["regressions"] += r["regressions"]
        d["inconclusive"] += r["inconclusive"]
        d["wall_s"] = round(d["wall_s"] + r["wall"], 2)
        d["cut_by_time_budget"] |= r["cut"]
        if r["inconclusive_msgs"]:
            d["inconclusive_examples"] = r["inconclusive_msgs"]
        for l, c in r["labels"].items():
            d["labels"][l] = d["labels"].get(l, 0) + c
        new = {r["facet"] + ":" + k for k in r["nontrivial"]} - keys
        d["nontrivial"] += len(new)
        keys |= new
        evals += r["evaluations"]
        inconc += r["inconclusive"]
        samples += r["samples"][:1] if r["shard"] == 0 else []
        if r["violation"]:
            violations.append((r["facet"], r["violation"]))

    # findings recorded in the committed file: still failing ones are reported, not counted as violations
    findings = []
    for kid, text in known_findings(prop):
        fn = getattr(mod, "KNOWN", {}).get(kid)
        if fn is None:
            errors.append(("known_findings", f"no reproduction for {kid}"))
            continue
        try:
            with contextlib.redirect_stdout(open(os.devnull, "w")):
                still = fn()
        except Exception as e:
            errors.append(("known_findings", f"{kid}: {e!r}"))
            continue
        if still:
            findings.append(kid)
            print(f"KNOWN-FINDING: property={prop} {kid}: {text}")

    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    seen = set()
    for fname, v in violations:
        path = os.path.join(ROOT, "replays", f"{prop}-{fname}-{case_key(v['case'])}.json")
        if path in seen:
            continue
        seen.add(path)
        with open(path, "w") as fh:
            json.dump(dict(property=prop, facet=fname, case=v["case"], message=v["message"]), fh, indent=1)
        print(f"{fname}: {v['message'][:600]}")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
    for fname, e in errors:
        print(f"ERROR property={prop} facet={fname}: {e}", file=sys.stderr)

    wall = time.time() - t0
    if a.facet is None:
        ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
                  coverage=dict(evaluations=evals, distinct_nontrivial=len(keys), rule=mod.RULE, samples=samples[:8],
                                facets=detail, inconclusive=inconc, known_findings_reproduced=findings),
                  assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(seen))
        with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    print(f"property={prop} tier={tier} seed={seed} evaluations={evals} distinct_nontrivial={len(keys)} "
          f"violations={len(seen)} inconclusive={inconc} errors={len(errors)} wall={wall:.1f}s")
    if seen:
        return 1
    if errors:
        return 2
    if evals == 0 or len(keys) == 0:
        print(f"ERROR property={prop}: nothing non-trivial was explored", file=sys.stderr)
        return 2
    return 0
