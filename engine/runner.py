"""Runs a property's harnesses: symbolic exploration, counterexample replay, witness replay, evidence."""
import contextlib
import importlib
import io
import json
import multiprocessing
import os
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Case:
    """one harness with its bounds"""

    def __init__(self, name, fn, backend="A", fallback="B", max_paths=6000, time_s=120, witnesses=25, options=None, bounds="",
                 max_iterations=64, max_values=64, thorough=None, small_paths=4000, expect_reach=True, witness_limit=64):
        self.name = name
        self.fn = fn
        self.backend = backend
        self.fallback = fallback
        self.max_paths = max_paths
        self.time_s = time_s
        self.witnesses = witnesses
        self.options = options or {}
        self.bounds = bounds
        self.max_iterations = max_iterations
        self.max_values = max_values
        self.thorough = thorough or {}
        self.small_paths = small_paths
        self.expect_reach = expect_reach
        self.witness_limit = witness_limit


def repo_path():
    return os.environ.get("SUMPF_REPO", "/repo")


def import_real():
    sys.dont_write_bytecode = True
    p = repo_path()
    if sys.path[0] != p:
        sys.path.insert(0, p)
    import sumpf
    assert os.path.dirname(os.path.dirname(os.path.abspath(sumpf.__file__))) == os.path.abspath(p), sumpf.__file__
    return sumpf


def make_loader(backend, options=None):
    from . import loader, npsym, npobj, mathshim
    options = options or {}
    np_ = npsym.make_module() if backend == "A" else npobj.make_module()
    sc = npsym.sharedctypes_module() if backend == "A" else npobj.sharedctypes_module()
    import multiprocessing as mp
    import types
    mpm = types.ModuleType("multiprocessing")
    mpm.__dict__.update(vars(mp))
    mpm.sharedctypes = sc
    shims = {"numpy": np_, "math": mathshim.make_module(), "multiprocessing.sharedctypes": sc, "multiprocessing": mpm}
    for k, v in (options.get("shims") or {}).items():
        shims[k] = v(np_) if callable(v) and not isinstance(v, types.ModuleType) else v
    ld = loader.Loader(shims, options.get("builtins"), repo_path())
    return ld, np_


class FunctionRecorder:
    """names of the repository's functions that were executed symbolically"""

    def __init__(self):
        self.names = set()
        self.prefix = os.path.join(repo_path(), "sumpf") + os.sep

    def __enter__(self):
        self.tool = 3
        mon = sys.monitoring
        mon.use_tool_id(self.tool, "verif")

        def start(code, offset):
            if code.co_filename.startswith(self.prefix):
                self.names.add(code.co_filename[len(self.prefix):] + ":" + code.co_qualname)
            return mon.DISABLE
        mon.register_callback(self.tool, mon.events.PY_START, start)
        mon.set_events(self.tool, mon.events.PY_START)
        return self

    def __exit__(self, *args):
        mon = sys.monitoring
        mon.set_events(self.tool, 0)
        mon.register_callback(self.tool, mon.events.PY_START, None)
        mon.free_tool_id(self.tool)


def _model_values(world, solver_model):
    from .core import z3
    values = {}
    for name, kind, term, info in world.inputs:
        if kind == "const":
            values[name] = term
        elif kind == "int":
            values[name] = solver_model.eval(term, model_completion=True).as_long()
        elif kind == "bool":
            values[name] = z3.is_true(solver_model.eval(term, model_completion=True))
        elif kind == "real":
            v = solver_model.eval(term, model_completion=True)
            try:
                values[name] = float(v.as_fraction())
            except AttributeError:
                values[name] = float(v.approx(20).as_fraction())
    return values


def _model_arrays(world, solver_model, values):
    """element values of the model for arrays of moderate size"""
    import numpy
    from .core import z3
    from . import core
    arrays = {}

    def num(v):
        try:
            return float(v.as_fraction())
        except AttributeError:
            return float(v.approx(20).as_fraction())
    for name, shape, dt in world.arrays:
        try:
            sh = []
            for s in shape:
                sh.append(s if isinstance(s, int) else solver_model.eval(s.z, model_completion=True).as_long())
            if numpy.prod([float(s) for s in sh]) > 2000:
                continue
            a = numpy.zeros(sh, dtype=complex if dt.kind == "c" else float)
            if world.mode == "A":
                f = z3.Function(name, *([z3.IntSort()] * len(shape)), z3.RealSort())
                for idx in numpy.ndindex(*sh):
                    a[idx] = num(solver_model.eval(f(*(z3.IntVal(int(i)) for i in idx)), model_completion=True))
            else:
                for idx in numpy.ndindex(*sh):
                    n = name + "_" + "_".join(str(i) for i in idx)
                    if dt.kind == "c":
                        a[idx] = num(solver_model.eval(z3.Real(n + "r"), model_completion=True)) + \
                            1j * num(solver_model.eval(z3.Real(n + "i"), model_completion=True))
                    else:
                        a[idx] = num(solver_model.eval(z3.Real(n), model_completion=True))
            arrays[name] = a
        except z3.Z3Exception:
            continue
    return arrays


def _small_models(world, ctx, extra, limits=(3, 6, 12, 40, 200, 2000)):
    """models of the path condition and extra, smallest inputs first"""
    from .core import z3
    ints = [(t, info) for _, kind, t, info in world.inputs if kind == "int"]
    found = []
    for lim in limits:
        bounds = []
        for t, (lo, hi) in ints:
            if lo >= 0:
                bounds.append(t <= max(lo + lim, lim))
            elif hi <= 0:
                bounds.append(t >= min(hi - lim, -lim))
            else:
                bounds += [t <= lim, t >= -lim]
        try:
            r = ctx.check(*extra, *bounds)
        except BaseException:
            break
        if r == z3.sat:
            found.append(ctx.solver.model())
            if len(found) >= 2:
                return found
    if ctx.check(*extra) == z3.sat:
        found.append(ctx.solver.model())
    return found


class TooSlow(BaseException):
    pass


@contextlib.contextmanager
def limited(seconds, extra_bytes):
    """bounds the time and the additional address space of a run of the real code"""
    import resource
    import signal

    def alarm(*args):
        raise TooSlow()
    with open("/proc/self/statm") as f:
        used = int(f.read().split()[0]) * resource.getpagesize()
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    want = used + extra_bytes
    resource.setrlimit(resource.RLIMIT_AS, (want if hard == resource.RLIM_INFINITY else min(want, hard), hard))
    previous = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, previous)
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))


DEEP = False   # whether the limits of the thorough tier are valid


def run_concrete(case_fn, values, arrays=None, seed=0):
    """runs the harness with plain numbers on the real package; returns None or the failure's text"""
    from . import core, world as world_
    sumpf = import_real()
    core.Ctx.current = None
    w = world_.ConcreteWorld(sumpf, values, seed, arrays)
    w.deep = DEEP
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import numpy
        with numpy.errstate(all="ignore"):
            try:
                with limited(60, 3 << 30):
                    case_fn(w)
            except TooSlow:
                return "failed", "does not finish within 60 seconds"
            except core.CheckFailed as e:
                return "failed", e.label
            except world_.Skip as e:
                return "skip", str(e)
            except core.EngineSignal as e:
                return "skip", repr(e)
            except Exception as e:
                return "failed", f"{type(e).__name__}: {e}"
    return "ok", w.checked


def _generic(world, values):
    """the values without those reals, that are not special, so that they are drawn at random"""
    reals = {name for name, kind, _, _ in world.inputs if kind == "real"}
    return {k: v for k, v in values.items() if k not in reals or v in (0, 1, -1)}


def _replay(case, world, ctx, extra):
    """tries to reproduce a symbolic counterexample on the real code"""
    import numpy
    from . import core
    from .core import z3
    tried = []
    for model in _small_models(world, ctx, extra):
        values = _model_values(world, model)
        try:
            marr = _model_arrays(world, model, values)
        except Exception:
            marr = {}
        attempts = [(marr, 0)] + [({}, s) for s in (1, 2, 3)]
        for arrays, seed in attempts:
            status, text = run_concrete(case.fn, values, arrays, seed)
            tried.append(f"{values} -> {status} {text}")
            if status == "failed":
                return {"values": values, "seed": seed, "arrays": {k: _jsonable(v) for k, v in arrays.items()}, "failure": text}, tried
    # the solver's values may be no counterexample in floating point (or it may have found none), so other values of the path are tried
    for model in _small_models(world, ctx, [])[:2]:
        values = _generic(world, _model_values(world, model))
        for seed in (11, 12, 13, 14):
            status, text = run_concrete(case.fn, values, {}, seed)
            tried.append(f"{values} -> {status} {text}")
            if status == "failed":
                return {"values": values, "seed": seed, "arrays": {}, "failure": text}, tried
    # neither may these be, so models are asked for, that differ from these ones in the order and the sign of the inputs
    end = time.time() + max(3, (20 - ctx.stats.spurious_s))
    start = time.time()
    numbers = [(name, t) for name, kind, t, _ in world.inputs if kind in ("int", "real")][:12]
    different = [c for _, t in numbers for c in (t < 0, t > 0)]
    different += [c for i, (_, a) in enumerate(numbers) for _, b in numbers[i + 1:] for c in (a < b, a > b)]
    reals = [t for _, kind, t, _ in world.inputs if kind == "real"]
    for c in different[:60]:
        if time.time() > end:
            break
        try:
            if ctx.check(*extra, c, *[t != 0 for t in reals]) != z3.sat:
                continue
            values = _model_values(world, ctx.solver.model())
        except BaseException:
            continue
        for v, seed in ((values, 1), (_generic(world, values), 11)):
            status, text = run_concrete(case.fn, v, {}, seed)
            core.Ctx.current = ctx
            if status == "failed":
                return {"values": v, "seed": seed, "arrays": {}, "failure": text}, tried
    ctx.stats.spurious_s += time.time() - start
    return None, tried


def _jsonable(a):
    import numpy
    if a.dtype.kind == "c":
        return {"re": a.real.tolist(), "im": a.imag.tolist()}
    return a.tolist()


def _unjson(a):
    import numpy
    if isinstance(a, dict):
        return numpy.array(a["re"]) + 1j * numpy.array(a["im"])
    return numpy.array(a)


def run_mode(case, backend, tier, small, deadline, last=False):
    """one exploration. Returns a result dictionary"""
    from . import core, world as world_
    core.reset_atoms()
    core.OPTIONS.update({"nra": False})
    core.OPTIONS.update(case.options.get("core", {}))
    t0 = time.time()
    stats = core.Stats()
    res = {"backend": backend, "status": "held", "detail": "", "witnesses": 0, "witness_skips": 0, "functions": [], "samples": []}
    time_s = case.thorough.get("time_s", case.time_s * 4) if tier == "thorough" else case.time_s
    limits = {"deadline": min(deadline, time.time() + time_s), "max_paths": case.small_paths if small else (
                  case.thorough.get("max_paths", case.max_paths * 6) if tier == "thorough" else case.max_paths),
              "max_iterations": case.max_iterations, "max_values": case.max_values, "timeout_ms": case.options.get("timeout_ms", 30000)}
    max_witnesses = case.witnesses * (4 if tier == "thorough" else 1)
    ld, np_ = make_loader(backend, case.options)
    sumpf = ld.load("sumpf")
    state = {"n": 0, "next": 1, "gave_up": 0, "why": ""}

    def give_up(c, w, e):
        """the engine cannot follow this path any further: inputs of the path are at least run on the real code"""
        state["gave_up"] += 1
        state["why"] = state["why"] or f"{type(e).__name__}: {e}"
        try:
            models = _small_models(w, c, [], limits=(6, case.witness_limit))
        except core.EngineSignal:
            models = []
        for m in models[:2]:
            values = _model_values(w, m)
            for seed, given in ((7, values), (8, values), (9, _generic(w, values)), (10, _generic(w, values))):
                status, text = run_concrete(case.fn, given, {}, seed)
                core.Ctx.current = c
                if status == "failed":
                    return ("violation", {"values": given, "seed": seed, "arrays": {}, "failure": text,
                                          "symbolic": f"concrete run of a path that could not be encoded to its end ({e})"})
                res["witnesses"] += status == "ok"
        if not last or state["gave_up"] > 300:
            raise e
        return None

    def path(c):
        w = world_.SymWorld(sumpf, backend, np_, small=small, loader=ld, deep=tier == "thorough")
        failure, unexpected = None, False
        try:
            case.fn(w)
        except core.CheckFailed as e:
            failure = (e.label, e.model or [])
        except (core.Unsupported, core.Inconclusive) as e:
            return give_up(c, w, e)
        except Exception as e:
            frames = traceback.extract_tb(e.__traceback__)
            mine = [f for f in frames if f.filename.startswith(os.path.join(repo_path(), ""))]
            where = f" at {mine[-1].filename}:{mine[-1].lineno}" if mine else f" (raised in {frames[-1].filename}:{frames[-1].lineno})"
            failure = (f"unexpected {type(e).__name__}: {e}{where}", [])
            unexpected = True
        if failure:
            found, tried = _replay(case, w, c, failure[1])
            core.Ctx.current = c
            if found:
                found["symbolic"] = failure[0]
                return ("violation", found)
            if unexpected:
                return give_up(c, w, core.Unsupported(failure[0]))
            return ("spurious", {"label": failure[0], "tried": tried[:6]})
        # a witness of this path, run on the real code
        state["n"] += 1
        if res["witnesses"] < max_witnesses and state["n"] >= state["next"]:
            state["next"] = state["n"] + 1 + state["n"] // 8
            ms = _small_models(w, c, [], limits=(6, case.witness_limit))
            if ms:
                values = _model_values(w, ms[0])
                status, text = run_concrete(case.fn, values, {}, 7)
                core.Ctx.current = c
                if status == "failed":
                    return ("violation", {"values": values, "seed": 7, "arrays": {}, "failure": text, "symbolic": "witness run of a path"})
                if status == "ok":
                    res["witnesses"] += 1
                    if len(res["samples"]) < 3:
                        res["samples"].append({"path_witness": values, "assertions_checked_concretely": text})
                else:
                    res["witness_skips"] += 1
        return None
    try:
        with FunctionRecorder() as rec:
            failures = core.explore(path, limits, stats)
        res["functions"] = sorted(rec.names)
        if failures:
            kind, info = failures[0]
            res["status"] = kind
            res["detail"] = info
        elif state["gave_up"]:
            res["status"] = "unsupported"
            res["detail"] = f"{state['gave_up']} paths, first: {state['why']}"
        elif case.expect_reach and stats.reach == 0:
            res["status"] = "vacuous"
            res["detail"] = "no path reached an assertion"
    except core.Unsupported as e:
        res["status"] = "unsupported"
        res["detail"] = str(e)
    except core.Inconclusive as e:
        res["status"] = "inconclusive"
        res["detail"] = str(e)
    except core.EngineSignal as e:
        res["status"] = "inconclusive"
        res["detail"] = repr(e)
    res["stats"] = stats.as_dict()
    res["wall_s"] = round(time.time() - t0, 2)
    return res


def run_case(case, tier, deadline):
    global DEEP
    DEEP = tier == "thorough"
    results = []
    r = run_mode(case, case.backend, tier, False, deadline, last=not case.fallback)
    results.append(r)
    if r["status"] not in ("held", "violation") and case.fallback:
        for small in (True,):
            r2 = run_mode(case, case.fallback, tier, small, deadline, last=True)
            results.append(r2)
            if r2["status"] in ("held", "violation"):
                break
    final = results[-1]
    if final["status"] not in ("held", "violation") and len(results) > 1:
        pass
    return results


def _worker(args):
    module, index, tier, deadline = args
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(20000)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        warnings.simplefilter("ignore")
        m = importlib.import_module(module)
        case = m.CASES[index]
        with contextlib.redirect_stdout(io.StringIO()):
            return index, run_case(case, tier, deadline), None
    except BaseException as e:
        return index, [], "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1200:]


def main(pid, tier=None, only=None, verbose=False, jobs=8):
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    module = f"checks.{pid}"
    m = importlib.import_module(module)
    budget = 780 if tier == "quick" else 6 * 3600
    deadline = t0 + budget
    indices = [i for i, c in enumerate(m.CASES) if only is None or c.name in only]
    order = sorted(indices, key=lambda i: -m.CASES[i].time_s)
    mp = multiprocessing.get_context("fork")
    outcomes = {}
    with mp.Pool(min(jobs, len(order)), maxtasksperchild=1) as pool:
        for index, results, error in pool.imap_unordered(_worker, [(module, i, tier, deadline) for i in order]):
            outcomes[index] = (results, error)
            if verbose:
                c = m.CASES[index]
                if error:
                    print(f"  {c.name}: ERROR {error}")
                for r in results:
                    s = r["stats"]
                    print(f"  {c.name} [{r['backend']}] {r['status']} {str(r['detail'])[:400] if r['status'] != 'held' else ''} paths={s['paths']} "
                          f"obl={s['obligations']} q={s['queries']} solver={s['solver_s']:.1f}s wall={r['wall_s']}s wit={r['witnesses']}/{r['witness_skips']}", flush=True)
    violations = []
    undecided = []
    cov = {"cases": [], "states": 0, "transitions": 0, "traces_validated_against_impl": 0, "queries": 0, "solver_s": 0.0,
           "obligations": 0, "discharged": 0, "functions_encoded": set(), "samples": []}
    for i in sorted(outcomes):
        c = m.CASES[i]
        results, error = outcomes[i]
        entry = {"case": c.name, "bounds": c.bounds, "runs": []}
        if error or not results:
            undecided.append((c.name, "engine error: " + (error or "")))
            entry["error"] = error
        for r in results:
            s = r["stats"]
            entry["runs"].append({"encoding": {"A": "symbolic shapes", "B": "symbolic elements, enumerated shapes"}[r["backend"]],
                                  "status": r["status"], "paths": s["paths"], "queries": s["queries"], "obligations": s["obligations"],
                                  "discharged": s["discharged"], "solver_s": round(s["solver_s"], 2), "witnesses_run": r["witnesses"],
                                  "detail": r["detail"] if r["status"] not in ("held",) else ""})
            cov["states"] += s["paths"]
            cov["transitions"] += s["decisions"]
            cov["queries"] += s["queries"]
            cov["solver_s"] += s["solver_s"]
            cov["obligations"] += s["obligations"]
            cov["discharged"] += s["discharged"]
            cov["traces_validated_against_impl"] += r["witnesses"]
            cov["functions_encoded"].update(r["functions"])
            for smp in r["samples"][:1]:
                if len(cov["samples"]) < 12:
                    cov["samples"].append({"case": c.name, **smp})
            if r["status"] == "violation":
                violations.append((c.name, r["detail"]))
        if results and results[-1]["status"] not in ("held", "violation"):
            undecided.append((c.name, f"{results[-1]['status']}: {results[-1]['detail']}"))
        cov["cases"].append(entry)
    cov["functions_encoded"] = sorted(cov["functions_encoded"])
    cov["solver_s"] = round(cov["solver_s"], 2)
    cov["undecided"] = [{"case": n, "why": str(w)[:600]} for n, w in undecided]
    known = known_findings(pid)
    reported = []
    for name, info in violations:
        k = next((k for k in known if k["case"] == name and k["match"] in (info.get("failure", "") + " | " + info.get("symbolic", ""))), None)
        if k:
            print(f"KNOWN-FINDING: property={pid} {k['text']}")
            continue
        path = os.path.join(VERIF, "evidence", "replay", f"{pid}-{name}.json".replace(" ", "_").replace("/", "_"))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump({"property": pid, "case": name, "tier": tier, **info}, f, indent=1, default=str)
        reported.append((name, info, path))
    evidence = {"property": pid, "tier": tier, "seed": seed, "level": getattr(m, "LEVEL", "model_checking"), "coverage": cov,
                "assumptions": list(getattr(m, "ASSUMPTIONS", [])), "wall_s": round(time.time() - t0, 2), "violations": len(reported)}
    if only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
            json.dump(evidence, f, indent=1, default=str)
    print(f"{pid} {tier}: cases={len(outcomes)} paths={cov['states']} obligations={cov['obligations']} discharged={cov['discharged']} "
          f"queries={cov['queries']} solver_s={cov['solver_s']} witnesses={cov['traces_validated_against_impl']} wall_s={evidence['wall_s']}")
    for name, info, path in reported:
        print(f"case {name}: {info.get('failure')} with {info.get('values')}")
        print(f"VIOLATION property={pid} replay={path}")
    if reported:
        return 1
    for n, why in undecided:
        print(f"UNDECIDED case {n}: {str(why)[:600]}")
    if undecided and not (cov["discharged"] or cov["traces_validated_against_impl"]):
        return 2        # nothing was explored
    return 0


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.txt")
    found = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("KNOWN-FINDING:") and f"property={pid} " in line:
                    text = line.split(f"property={pid} ", 1)[1]
                    fields = dict(p.split("=", 1) for p in text.split(" :: ")[0].split(" ; ") if "=" in p)
                    found.append({"case": fields.get("case", ""), "match": fields.get("match", ""), "text": text})
    return found


def replay(path):
    with open(path) as f:
        d = json.load(f)
    m = importlib.import_module(f"checks.{d['property']}")
    case = next(c for c in m.CASES if c.name == d["case"])
    global DEEP
    DEEP = d.get("tier") == "thorough"
    status, text = run_concrete(case.fn, d["values"], {k: _unjson(v) for k, v in d.get("arrays", {}).items()}, d.get("seed", 0))
    print(status, text)
    return 1 if status == "failed" else 0
