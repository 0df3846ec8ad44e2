"""Check runner: python -m symx.run PROPERTY [--tier quick|thorough] [--unit X]"""

from __future__ import annotations

import argparse
import importlib
import json
import logging
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import signal
import subprocess
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ZIGPY_REPO", "/repo")
SITE = "/opt/venv/lib/python3.12/site-packages"
REPLAY_PY = "/opt/venv/bin/python"
EVIDENCE = os.environ.get("SYMX_EVIDENCE", os.path.join(VERIF, "evidence"))

TIERS = {
    "quick": dict(unit_s=90, total_s=420, query_ms=15000, max_paths=60000, max_decisions=6000),
    "thorough": dict(unit_s=900, total_s=3000, query_ms=60000, max_paths=2000000, max_decisions=30000),
}


class PathTimeout(BaseException):
    pass


def _on_alarm(*a):
    raise PathTimeout()


def explore(prop, uname, fn, kw, tier, opts, known_ids, seed, extra):
    from . import core, rewrite, symenv

    t0 = time.monotonic()
    e = core.Engine(
        deadline=t0 + extra.get("unit_s", opts["unit_s"]), max_paths=opts["max_paths"],
        query_ms=opts["query_ms"], max_decisions=extra.get("max_decisions", opts["max_decisions"]),
    )
    e.solver.set("random_seed", seed)
    e.full_enums = extra.get("full_enums", False)
    core.set_engine(e)
    rewrite.FUNCS.clear()
    rng = random.Random(seed)
    res = dict(unit=uname, cex=[], samples=[], leaks={}, mismatch={}, tags={}, known=[], completed=0, exhausted=False)
    leak_cases = []
    seen_msgs = {}
    signal.signal(signal.SIGALRM, _on_alarm)
    import gc

    gc.disable()
    pathcap = extra.get("path_s", 45)
    nsamp = extra.get("samples", 4)

    def model_values():
        """Model of the current path condition for the declared inputs."""
        try:
            e.solver.set("timeout", 20000)
            r = e.solver.check()
            if str(r) != "sat":
                return None, None
            m = e.solver.model()
            return m, symenv.values_of(m, e.inputs)
        except Exception:  # noqa: BLE001
            return None, None
        finally:
            e.solver.set("timeout", opts["query_ms"])

    def add_case(kind, msg, values):
        n = seen_msgs.get((kind, msg), 0)
        seen_msgs[kind, msg] = n + 1
        if n >= 2 or len(res["cex"]) >= 12:
            return
        res["cex"].append(dict(kind=kind, msg=msg, values=values))

    stop = False
    while not stop:
        if e.stats.paths >= e.max_paths:
            e.incomplete.add("path bound")
            break
        if e.deadline and time.monotonic() > e.deadline:
            e.incomplete.add("time budget")
            break
        e.start_path()
        env = symenv.SymEnv(e)
        env.tier, env.known_ids = tier, known_ids
        status = "ok"
        err = None
        signal.setitimer(signal.ITIMER_REAL, pathcap)
        try:
            try:
                fn(env, **kw)
                env.guard()
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except core.PathAbort:
            status = "abort"
        except core.Leak:
            status = "leak"
        except core.CheckFailed:
            status = "cex"
        except core.BudgetExceeded:
            status, stop = "budget", True
        except PathTimeout:
            status = "timeout"
        except Exception as ex:  # noqa: BLE001
            status, err = "exc", ex
        except BaseException as ex:  # noqa: BLE001
            if type(ex).__name__ in ("CancelledError", "GeneratorExit"):
                status, err = "exc", ex
            else:
                raise
        if env.failure is not None:
            status = "cex"
        elif e.leak is not None:
            status = "leak"
        elif e.dead and status in ("exc", "ok"):
            status = "budget" if e.dead == "time budget" else "abort"
            stop |= status == "budget"
        if status == "ok":
            res["completed"] += 1
            for t in set(env.tags):
                res["tags"][t] = res["tags"].get(t, 0) + 1
            k = res["completed"]
            if nsamp and (k <= nsamp or rng.random() < nsamp / k):
                m, vals = model_values()
                if vals is not None:
                    try:
                        obs = [[n, symenv.ev(m, v)] for n, v in env.obs]
                    except core.Leak:
                        obs = None
                    s = dict(kind="sample", values=vals, obs=obs)
                    if len(res["samples"]) < nsamp:
                        res["samples"].append(s)
                    else:
                        res["samples"][rng.randrange(nsamp)] = s
        elif status == "cex":
            f = env.failure
            vals = symenv.values_of(f.model, e.inputs)
            add_case("cex", f.msg, vals)
            if len(res["cex"]) >= 6:
                stop = True
                e.incomplete.add("stopped at counterexamples")
        elif status == "leak":
            e.stats.leaks += 1
            key = e.leak or "?"
            res["leaks"][key] = res["leaks"].get(key, 0) + 1
            if extra.get("debug"):
                traceback.print_exc()
            if len(leak_cases) < 8 and res["leaks"][key] <= 3:
                m, vals = model_values()
                if vals is not None:
                    leak_cases.append(dict(kind="leak", msg=key, values=vals))
        elif status == "exc":
            tb = traceback.extract_tb(err.__traceback__)
            loc = f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}" if tb else "?"
            msg = f"unexpected {type(err).__name__}: {str(err)[:160]} at {loc}"
            if extra.get("debug"):
                traceback.print_exception(err)
            m, vals = model_values()
            if vals is not None:
                add_case("exception", msg, vals)
            else:
                e.incomplete.add("exception without model")
            if len(res["cex"]) >= 12:
                stop = True
                e.incomplete.add("stopped at exceptions")
        elif status == "timeout":
            m, vals = model_values()
            e.incomplete.add("path time")
            if vals is not None:
                add_case("timeout", "no termination on this path", vals)
        elif status == "abort":
            e.stats.aborted += 1
            if env.knownhits:
                for kid in env.knownhits:
                    if kid not in [k["id"] for k in res["known"]]:
                        m, vals = model_values()
                        if vals is not None:
                            res["known"].append(dict(id=kid, values=vals))
        e.dead = e.dead or "path over"
        env.restore()
        rewrite.cleanup(e)
        if e.stats.paths % 200 == 0:
            gc.collect()
        if not stop and not e.backtrack():
            res["exhausted"] = True
            break
    core.set_engine(None)
    res["cex"] += leak_cases
    st = e.stats.as_dict()
    res["stats"] = st
    res["incomplete"] = sorted(e.incomplete)
    res["funcs"] = sorted(f for f in rewrite.FUNCS if f.startswith("zigpy"))
    res["wall_s"] = time.monotonic() - t0
    return res


def plain(x):
    """Only built-in types, so that the result can be sent to the parent."""
    if x is None or type(x) in (bool, float):
        return x
    for ty in (int, str, bytes):
        if isinstance(x, ty):
            return x if type(x) is ty else str(x) if isinstance(x, str) else ty.__int__(x) if ty is int else bytes(x)
    if isinstance(x, dict):
        return {plain(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        out = [plain(i) for i in x]
        return tuple(out) if isinstance(x, tuple) else out
    return repr(x)


def worker(conn, args):
    try:
        r = explore(*args)
    except BaseException as ex:  # noqa: BLE001
        r = dict(unit=args[1], crash="".join(traceback.format_exception(ex))[-3000:])
    try:
        conn.send(plain(r))
    except Exception as ex:  # noqa: BLE001
        conn.send(dict(unit=args[1], crash=f"result cannot be sent: {ex!r}"))
    conn.close()
    os._exit(0)


def run_units(prop, units, tier, opts, known_ids, seed, jobs, total_deadline):
    ctx = mp.get_context("fork")
    pending = list(units)
    running = {}
    results = []
    while pending or running:
        while pending and len(running) < jobs:
            u = pending.pop(0)
            name, fn, kw = u[:3]
            extra = dict(u[3]) if len(u) > 3 else {}
            left = total_deadline - time.monotonic()
            if left < 2:
                results.append(dict(unit=name, crash="not started: total time budget"))
                continue
            extra["unit_s"] = min(extra.get("unit_s", opts["unit_s"]), left)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(b, (prop, name, fn, kw, tier, opts, known_ids, seed, extra)))
            p.start()
            b.close()
            running[a] = (p, name, time.monotonic() + extra["unit_s"] + 90)
        ready = mp.connection.wait(list(running), timeout=1)
        for a in ready:
            p, name, _ = running.pop(a)
            try:
                results.append(a.recv())
            except EOFError:
                results.append(dict(unit=name, crash="worker died"))
            p.join()
        for a, (p, name, dl) in list(running.items()):
            if time.monotonic() > dl:
                p.kill()
                p.join()
                running.pop(a)
                results.append(dict(unit=name, crash="worker exceeded its time and was stopped"))
    return results


def replay_cases(cases, known_ids, jobs, scratch):
    """Run cases on the real code; returns list of verdict dicts."""
    if not cases:
        return []
    n = max(1, min(jobs, (len(cases) + 5) // 6))
    chunks = [cases[i::n] for i in range(n)]
    procs = []
    env = dict(os.environ, PYTHONPATH=f"{REPO}:{VERIF}", PYTHONDONTWRITEBYTECODE="1")
    env.setdefault("PYTHONHASHSEED", "0")
    for i, ch in enumerate(chunks):
        f = os.path.join(scratch, f"cases{i}.json")
        json.dump(ch, open(f, "w"))
        procs.append(subprocess.Popen(
            [REPLAY_PY, "-m", "symx.replay", f, ",".join(sorted(known_ids))], cwd=scratch, env=env,
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    out = {}
    for i, p in enumerate(procs):
        try:
            so, se = p.communicate(timeout=25 * len(chunks[i]) + 60)
        except subprocess.TimeoutExpired:
            p.kill()
            so, se = p.communicate()
        lines = [l for l in so.splitlines() if l.startswith("{")]
        for j in range(len(chunks[i])):
            out[i, j] = json.loads(lines[j]) if j < len(lines) else {
                "verdict": "error", "msg": (se or "")[-800:], "obs": [], "tags": [], "known": []}
    res = [None] * len(cases)
    for i, ch in enumerate(chunks):
        for j in range(len(ch)):
            res[i + j * n] = out[i, j]
    return res


def load_known():
    """known_findings.jsonl: {"id","property","status":"known"|"fixed",...}"""
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("#"):
                out.append(json.loads(line))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--unit", default=None, help="only units whose name contains this (development)")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--debug", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.monotonic()
    prop, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    opts = TIERS[tier]
    sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    sys.path.append(SITE)
    sys.dont_write_bytecode = True
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    from . import rewrite

    rewrite.install(["zigpy", "props"])
    mod = importlib.import_module(f"props.{prop}")
    units = list(mod.units(tier))
    names = [u[0] for u in units]
    assert len(set(names)) == len(names), "duplicate unit names"
    if a.unit:
        units = [u for u in units if a.unit in u[0]]
    if a.debug:
        units = [(u[0], u[1], u[2], dict(u[3] if len(u) > 3 else {}, debug=True)) for u in units]
    known = [k for k in load_known() if k["property"] == prop and k["status"] == "known"]
    known_ids = frozenset(k["id"] for k in known)
    if os.environ.get("SYMX_PROFILE"):
        import cProfile
        import pstats

        opts = dict(opts, unit_s=20)
        from . import core

        core.FORKS = {}
        p = cProfile.Profile()
        for u in units[:1]:
            p.runcall(explore, prop, u[0], u[1], u[2], tier, opts, known_ids, seed, {})
        for k, n in sorted(core.FORKS.items(), key=lambda x: -x[1])[:15]:
            print(n, k)
        pstats.Stats(p).sort_stats(os.environ["SYMX_PROFILE"]).print_stats(45)
        return 0
    results = run_units(prop, units, tier, opts, known_ids, seed, a.jobs, t0 + opts["total_s"])
    order = {n: i for i, n in enumerate(names)}
    results.sort(key=lambda r: order.get(r["unit"], 0))

    import tempfile
    import shutil

    scratch = tempfile.mkdtemp(prefix="symx-")
    violations, spurious, kf = [], [], {}
    n_valid = n_mismatch = n_leak_ok = 0
    mism = []
    try:
        cases = []
        for r in results:
            if "crash" in r:
                continue
            for c in r["cex"] + r["samples"] + [dict(kind="known", values=k["values"], kid=k["id"]) for k in r["known"]]:
                cases.append(dict(property=prop, unit=r["unit"], tier=tier, **c))
        verdicts = replay_cases(cases, known_ids, a.jobs, scratch)
        for c, v in zip(cases, verdicts):
            kind = c["kind"]
            if v["verdict"] == "violation" or v["verdict"] == "timeout" and kind == "timeout":
                violations.append((c, v))
            elif v["verdict"] == "known":
                for kid in v["known"]:
                    kf[kid] = c
            elif kind == "sample":
                if v["verdict"] == "ok" and (c["obs"] is None or v["obs"] == c["obs"]):
                    n_valid += 1
                else:
                    n_mismatch += 1
                    mism.append(dict(unit=c["unit"], values=c["values"], engine=c["obs"], real=v))
            elif kind == "leak":
                n_leak_ok += 1
            else:
                spurious.append((c, v))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    # -- report -------------------------------------------------------------
    tot = {}
    funcs = set()
    tags = {}
    incomplete = {}
    leaks = {}
    for r in results:
        if "crash" in r:
            incomplete[r["unit"]] = [r["crash"]]
            continue
        for k, v in r["stats"].items():
            tot[k] = max(tot.get(k, 0), v) if k == "max_depth" else tot.get(k, 0) + v
        funcs.update(r["funcs"])
        for t, n in r["tags"].items():
            tags[t] = tags.get(t, 0) + n
        inc = list(r["incomplete"])
        if r["leaks"]:
            inc.append(f"unmodelled operations on {sum(r['leaks'].values())} paths")
            for k, n in r["leaks"].items():
                leaks[k] = leaks.get(k, 0) + n
        if inc:
            incomplete[r["unit"]] = inc
        if not r["completed"] and not r["cex"]:
            incomplete.setdefault(r["unit"], []).append("vacuous: no path completed")
    for c, v in spurious:
        incomplete.setdefault(c["unit"], []).append(f"not reproduced on the real code: {c.get('msg')} -> {v['verdict']} {v['msg']}")
    for m in mism:
        incomplete.setdefault(m["unit"], []).append(f"engine and code differ on a sample: {json.dumps(m)[:600]}")
    missing = [t for t in getattr(mod, "REACH", []) if t not in tags] if not a.unit else []

    os.makedirs(EVIDENCE, exist_ok=True)
    lines = []
    seen = set()
    for c, v in violations:
        k = (c["unit"], v["msg"])
        if k in seen:
            continue
        seen.add(k)
        if len(lines) >= 5:
            break
        rp = os.path.join(EVIDENCE, f"{prop}.replay{len(lines)}.json")
        json.dump(dict(property=prop, unit=c["unit"], tier=tier, values=c["values"], msg=v["msg"] or c.get("msg")), open(rp, "w"), indent=1)
        lines.append((c["unit"], v["msg"] or c.get("msg"), rp))
    wall = time.monotonic() - t0
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(wall, 2), violations=len(violations),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        coverage=dict(
            states=tot.get("paths", 0), transitions=tot.get("decisions", 0),
            traces_validated_against_impl=n_valid,
            samples=[dict(unit=c["unit"], values=c["values"]) for c in cases if c["kind"] == "sample"][:6],
            units=len(results), paths_completed=sum(r.get("completed", 0) for r in results),
            paths_infeasible_or_assumed_away=tot.get("aborted", 0),
            queries=tot.get("queries", 0), sat=tot.get("sat", 0), unsat=tot.get("unsat", 0), unknown=tot.get("unknown", 0),
            assertions=tot.get("asserts", 0), assertion_queries=tot.get("assert_queries", 0),
            solver_s=round(tot.get("solver_s", 0), 2), concretisations=tot.get("concretised", 0),
            functions_encoded=sorted(funcs), n_functions=len(funcs), reach=tags, reach_missing=missing,
            units_exhausted=sum(1 for r in results if r.get("exhausted")),
            incomplete=incomplete, leaks=leaks, leak_paths_run_concretely=n_leak_ok,
            engine_mismatches=n_mismatch,
            bounds=getattr(mod, "BOUNDS", ""), outside=getattr(mod, "OUTSIDE", ""),
            explanation="States are symbolic paths through the real functions (each stands for every input satisfying its "
            "path condition); transitions are branch decisions put to z3; an assertion passes when its negation is unsatisfiable on the path.",
            per_unit=[dict(unit=r["unit"], wall_s=round(r["wall_s"], 2), completed=r["completed"], exhausted=r["exhausted"],
                           paths=r["stats"]["paths"], queries=r["stats"]["queries"], solver_s=round(r["stats"]["solver_s"], 2)) for r in results if "crash" not in r],
        ),
    )
    if not a.unit:
        json.dump(ev, open(os.path.join(EVIDENCE, f"{prop}.json"), "w"), indent=1)
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['id']} {k['what']}" + ("" if k["id"] in kf else " (not re-encountered in this run)"))
    print(f"{prop} {tier}: units={len(results)} paths={tot.get('paths', 0)} completed={ev['coverage']['paths_completed']} "
          f"queries={tot.get('queries', 0)} solver={tot.get('solver_s', 0):.1f}s asserts={tot.get('asserts', 0)} "
          f"validated={n_valid} mismatches={n_mismatch} incomplete={len(incomplete)} wall={wall:.1f}s")
    if a.v or a.unit:
        for r in results:
            if "crash" not in r:
                print("  ", r["unit"], {k: r["stats"][k] for k in ("paths", "queries", "decisions", "concretised")}, f"ok={r['completed']} {r['wall_s']:.1f}s", r["tags"])
    for u, why in incomplete.items():
        for w in why[: (10 if a.v or a.unit else 2)]:
            print(f"  incomplete: {u}: {w[:1500 if a.v or a.unit else 300]}")
    if leaks:
        print("  leaks:", leaks)
    if missing:
        print("  unreached:", missing)
    for u, m, rp in lines:
        print(f"  {u}: {m}")
    for u, m, rp in lines:
        print(f"VIOLATION property={prop} replay={rp}")
    sys.stdout.flush()
    return 1 if lines else 0


if __name__ == "__main__":
    sys.exit(main())
