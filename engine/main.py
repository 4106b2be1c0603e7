"""Runs the solver-based check of one property.

usage: main.py C01 [--strict] [--only HARNESS] [--tier quick|thorough] [-v]
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; 2: no answer.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)

from engine import loader  # noqa: E402

PY = "/opt/venv/bin/python"
GRACE = float(os.environ.get("VERIF_GRACE", "60"))
SEED = int(os.environ.get("VERIF_SEED", "1"))


def concrete(module, tasks, tier, timeout=300):
    """Run tasks on the unpatched package in a fresh process."""
    if not tasks:
        return [], []
    with tempfile.TemporaryDirectory(prefix="verif_") as d:
        a, b = os.path.join(d, "t.json"), os.path.join(d, "o.json")
        json.dump({"module": module, "tier": tier, "tasks": tasks}, open(a, "w"))
        p = subprocess.run(
            [PY, os.path.join(HERE, "replay.py"), a, b],
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            timeout=timeout,
            cwd=d,
        )
        if not os.path.exists(b):
            raise RuntimeError("replay process died: " + p.stdout.decode()[-2000:])
        r = json.load(open(b))
    return r["results"], r["functions"]


def explore_one(args):
    module, hname, tier, deadline, verbose = args
    t0 = time.time()
    try:
        return _explore_one(module, hname, tier, deadline, verbose)
    except Exception:
        return {"harness": hname, "error": traceback.format_exc(), "wall": time.time() - t0}


def _explore_one(module, hname, tier, deadline, verbose):
    import logging
    import warnings

    import z3

    from engine import explore
    from engine.env import SymEnv

    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)
    t0 = time.time()
    mod = importlib.import_module("checks." + module)
    h = {x.name: x for x in mod.harnesses(tier)}[hname]
    import random

    z3.set_param("smt.random_seed", SEED)
    ex = explore.Explorer(
        h,
        max_paths=h.max_paths,
        timeout_ms=h.timeout_ms,
        deadline=min(deadline, time.time() + h.budget_s),
        name=h.name,
    )
    ex.run(lambda e, c: SymEnv(e, c))
    t_explore = time.time() - t0
    out = {"harness": h.name, "bounds": h.bounds, "stubs": h.stubs, "axioms": h.axioms}

    # ---- exceptions that escaped become candidates of their own
    tasks = []  # (kind, payload, task)
    from fractions import Fraction

    nrep = 0
    rnd = random.Random(SEED)
    order = list(range(len(ex.paths)))
    limit = 60 if tier == "quick" else 300
    if len(order) > limit:
        special = [i for i in order if ex.paths[i].status != "ok"]
        rest = [i for i in order if ex.paths[i].status == "ok"]
        rnd.shuffle(rest)
        order = special[:limit] + rest[: max(0, limit - len(special))]
    infeasible = 0
    for i in order:
        ctx = ex.paths[i]
        if time.time() > deadline:
            break
        facts = ctx.facts()
        r, m = z3.unknown, None
        boxes = ((3, 30) if ctx.inputs_order else ()) + (None,)
        for lim in boxes:
            box = [] if lim is None else [z3.And(v <= lim, v >= -lim) for v, k in ctx.inputs.values() if k == "real"]
            r, m = ex.solve(facts + box, timeout=3000)
            if r == z3.sat:
                break
        if r == z3.unsat:
            infeasible += 1
            ctx.infeasible = True
            continue
        if r != z3.sat:
            continue
        # make the model agree with the true transcendental functions
        pts = []
        for _ in range(3):
            p = ex.fn_points(ctx, m)
            if not p:
                break
            pts += p
            r2, m2 = ex.solve(facts + explore.point_refinement(pts)(ctx), timeout=2000)
            if r2 != z3.sat:
                break
            m = m2
        rec = ex.model_inputs(ctx, m)
        tasks.append(("path", i, {"harness": h.name, "inputs": rec["inputs"], "ufs": rec["ufs"]}))
        nrep += 1
        if ctx.status in ("gap", "budget"):
            # degrade: a few more solver-chosen inputs of this region, run concretely
            for _ in range(4):
                box = []
                for v, k in ctx.inputs.values():
                    c = rnd.choice([-4, -1, 0, 1, 2, 5])
                    if rnd.random() < 0.6:
                        box.append(v >= c if rnd.random() < 0.5 else v <= c)
                r3, m3 = ex.solve(facts + box, timeout=1500)
                if r3 == z3.sat:
                    rec = ex.model_inputs(ctx, m3)
                    tasks.append(("extra", i, {"harness": h.name, "inputs": rec["inputs"], "ufs": rec["ufs"]}))

    # ---- candidates
    seen, cands = {}, []
    for c in ex.cands:
        seen[c["label"]] = seen.get(c["label"], 0) + 1
        if seen[c["label"]] <= 6:
            cands.append(c)
    for k, c in enumerate(cands):
        tasks.append(("cand", k, {"harness": h.name, "inputs": c["inputs"], "ufs": c["ufs"]}))
    res, _ = concrete(module, [t[2] for t in tasks], tier)

    viol, mismatch, validated, offpath, assumefail = [], [], 0, 0, 0
    samples = []
    unrepro = []
    for (kind, k, task), r in zip(tasks, res):
        bad = list(r["failed"])
        if r["status"] == "exception":
            bad.append(["exception:" + r["exception"], r.get("detail", "")])
        if r["status"] == "assume":
            assumefail += 1
            if kind == "cand":
                unrepro.append(k)
            continue
        if bad:
            viol.append({"labels": bad, "task": task, "kind": kind, "trace": r.get("trace", "")})
            continue
        if kind == "cand":
            unrepro.append(k)
            continue
        if kind == "path":
            ctx = ex.paths[k]
            if ctx.status == "ok":
                try:
                    vals = explore.num_eval(ctx, task["inputs"], task["ufs"], [c for c in ctx.pc])
                    on = all(bool(v) for v in vals)
                except Exception as e:  # noqa: BLE001
                    on = False
                if not on:
                    offpath += 1
                    continue
                ok, why = compare_observed(ex, ctx, task, r)
                if ok:
                    validated += 1
                    if len(samples) < 4:
                        samples.append({"harness": h.name, "inputs": task["inputs"], "observed": r["observed"][:6]})
                else:
                    mismatch.append({"task": task, "why": why})
            elif ctx.status == "exception":
                mismatch.append({"task": task, "why": f"symbolic run raised {ctx.err}, the real one did not"})

    # ---- refine candidates that did not reproduce
    unresolved = []
    done_labels = {l for v in viol for l, _ in v["labels"]}
    for k in unrepro:
        c = cands[k]
        if c["label"] in done_labels or time.time() > deadline:
            if c["label"] not in done_labels:
                unresolved.append({"label": c["label"], "why": c["why"], "inputs": c["inputs"]})
            continue
        ok = False
        pts = list(c.get("points", []))
        cur = c
        history = []
        for rnd_i in range(8):
            ex.refinements = [explore.point_refinement(pts)] if pts else []
            before = len(ex.cands)
            nunk = len(ex.unknown_checks)
            if not pts:
                break
            ex.run_path(c["prefix"], lambda e, cx: SymEnv(e, cx), requery=c["label"])
            new = ex.cands[before:]
            if not new:
                ok = len(ex.unknown_checks) == nunk
                break
            cur = new[0]
            pts += cur["points"]
            rr, _ = concrete(module, [{"harness": h.name, "inputs": cur["inputs"], "ufs": cur["ufs"]}], tier)
            bad = list(rr[0]["failed"])
            if rr[0]["status"] == "exception":
                bad.append(["exception:" + rr[0]["exception"], rr[0].get("detail", "")])
            if bad:
                viol.append(
                    {"labels": bad, "task": {"harness": h.name, "inputs": cur["inputs"], "ufs": cur["ufs"]}, "kind": "refined", "trace": rr[0].get("trace", "")}
                )
                ok = True
                break
        ex.refinements = []
        if not ok:
            unresolved.append({"label": c["label"], "why": c["why"], "inputs": cur["inputs"]})
    gaps = {}
    for p in ex.paths:
        if p.status in ("gap", "budget") and not getattr(p, "infeasible", False):
            gaps[str(p.err)] = gaps.get(str(p.err), 0) + 1
        if p.status == "exception":
            pass
    conc = sorted({n for p in ex.paths for n in p.concretised})
    out.update(
        paths=len(ex.paths),
        feasible=len(ex.paths) - infeasible,
        forks=ex.forks,
        decisions=sum(len(p.decisions) for p in ex.paths),
        statuses={s: sum(1 for p in ex.paths if p.status == s) for s in {p.status for p in ex.paths}},
        queries=ex.queries,
        solver_s=round(ex.solver_s, 3),
        discharged=ex.discharged,
        trivial=ex.trivial,
        tolerance_only=ex.tolerance_only,
        unknown_checks=[list(map(str, u)) for u in ex.unknown_checks][:20],
        n_unknown=len(ex.unknown_checks),
        truncated=ex.truncated,
        replayed=len(tasks),
        validated=validated,
        offpath=offpath,
        assumefail=assumefail,
        mismatch=mismatch[:10],
        n_mismatch=len(mismatch),
        gaps=gaps,
        concretised=conc[:20],
        unresolved=unresolved,
        violations=viol,
        labels=ex.labels,
        samples=samples,
        functions=sorted(loader.FUNCS),
        wall=round(time.time() - t0, 2),
        explore_s=round(t_explore, 2),
    )
    return out


def _child(job, conn):
    try:
        r = explore_one(job)
        conn.send(json.dumps(r, default=str))
    finally:
        conn.close()
        os._exit(0)


def run_parallel(jobs, deadline, width=8):
    """One forked process per harness; a process that dies is an error of that harness."""
    ctx = mp.get_context("fork")
    todo = list(enumerate(jobs))
    live, out = {}, {}
    stop = None  # once a violation has been confirmed the rest gets a grace period only
    while todo or live:
        if stop is not None and time.time() > stop:
            for i, job in todo:
                out[i] = {"harness": job[1], "error": "not run: a violation was already found"}
            todo = []
            deadline = 0
        while todo and len(live) < width:
            i, job = todo.pop(0)
            rx, tx = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(job, tx))
            p.start()
            tx.close()
            live[i] = (p, rx, job)
        from multiprocessing.connection import wait

        wait([rx for _, rx, _ in live.values()], timeout=1.0)
        for i, (p, rx, job) in list(live.items()):
            done = None
            if rx.poll():
                try:
                    done = json.loads(rx.recv())
                except EOFError:
                    done = {"harness": job[1], "error": f"worker died (exit {p.exitcode})"}
            elif not p.is_alive():
                done = {"harness": job[1], "error": f"worker died (exit {p.exitcode})"}
            elif time.time() > deadline + 45:
                p.kill()
                done = {"harness": job[1], "error": "timed out"}
            if done is not None:
                out[i] = done
                if done.get("violations") and stop is None:
                    stop = time.time() + GRACE
                p.join(5)
                del live[i]
    return [out[i] for i in range(len(jobs))]


def compare_observed(ex, ctx, task, r):
    from engine import explore, sym

    exprs, names = [], []
    consts = {}
    for n, v in ctx.observed:
        if isinstance(v, (sym.SymReal, sym.SymBool)):
            exprs.append(v.e)
            names.append(n)
        else:
            consts.setdefault(n, v)
    try:
        vals = explore.num_eval(ctx, task["inputs"], task["ufs"], exprs)
    except Exception as e:  # noqa: BLE001
        return False, f"evaluation failed: {e}"
    seq = []
    it = iter(zip(names, vals))
    pos = 0
    for n, v in ctx.observed:
        if isinstance(v, (sym.SymReal, sym.SymBool)):
            seq.append((n, float(vals[pos])))
            pos += 1
        else:
            try:
                seq.append((n, float(v)))
            except (TypeError, ValueError):
                seq.append((n, None))
    if len(seq) != len(r["observed"]):
        return False, f"{len(seq)} observations symbolically, {len(r['observed'])} concretely"
    for (n, v), (n2, w) in zip(seq, r["observed"]):
        if n != n2:
            return False, f"{n} vs {n2}"
        if v is None or w is None:
            continue
        if v != v or w != w:
            if (v != v) != (w != w):
                return False, f"{n}: {v} vs {w}"
            continue
        if v == w:
            continue
        if abs(v - w) > 1e-5 * (1 + abs(v) + abs(w)):
            return False, f"{n}: encoding {v} vs real {w}"
    return True, ""


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("status", "open") == "open"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--strict", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--serial", action="store_true")
    a = ap.parse_args()
    if os.environ.get("VERIF_DUMP"):
        import faulthandler

        faulthandler.dump_traceback_later(int(os.environ["VERIF_DUMP"]), exit=True)
    prop = a.prop.upper()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    module = prop.lower()
    t0 = time.time()
    total = 780 if tier == "quick" else 3000
    deadline = t0 + total
    loader.install_symbolic()
    mod = importlib.import_module("checks." + module)
    sys.setrecursionlimit(3000)
    try:
        import spey  # noqa: F401
    except Exception:
        # the package does not even import: every property is broken on the real code
        traceback.print_exc()
        print("spey cannot be imported")
        return 2
    assert spey.__file__.startswith(loader.SRC), spey.__file__
    import warnings

    warnings.filterwarnings("ignore")
    hs = [h for h in mod.harnesses(tier) if (a.only is None or a.only in h.name)]
    jobs = [(module, h.name, tier, deadline, a.v) for h in hs]
    results = []
    if a.serial or len(jobs) == 1:
        results = [explore_one(j) for j in jobs]
    else:
        results = run_parallel(jobs, deadline)
    return report(prop, tier, module, hs, results, time.time() - t0, a, mod)


def report(prop, tier, module, hs, results, wall, a, mod):
    good = [r for r in results if "error" not in r]
    errors = [r for r in results if "error" in r]
    known = [k for k in load_known() if k["property"] == prop]
    viol_lines, known_lines = [], []
    rdir = os.path.join(ROOT, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    n = 0
    reported = set()
    for r in good:
        for v in r["violations"]:
            for label, detail in v["labels"]:
                kf = [k for k in known if k["harness"] == r["harness"] and k["label"] == label]
                if kf:
                    known_lines.append(kf[0]["what"])
                    continue
                key = (r["harness"], label)
                if key in reported:
                    continue
                reported.add(key)
                n += 1
                path = os.path.join(rdir, f"{prop}-{n}.json")
                json.dump(
                    {
                        "property": prop,
                        "module": module,
                        "tier": tier,
                        "harness": r["harness"],
                        "label": label,
                        "detail": detail,
                        "inputs": v["task"]["inputs"],
                        "ufs": v["task"]["ufs"],
                        "trace": v.get("trace", ""),
                        "how": f"{PY} /verif/engine/replay.py {path}",
                    },
                    open(path, "w"),
                    indent=1,
                )
                viol_lines.append((path, r["harness"], label, detail, v["task"]["inputs"]))
    tot = lambda k: sum(r.get(k, 0) for r in good)  # noqa: E731
    inconclusive = {
        "unknown_checks": sum(r["n_unknown"] for r in good),
        "unresolved_candidates": sum(len(r["unresolved"]) for r in good),
        "encoding_gaps": sum(sum(r["gaps"].values()) for r in good),
        "encoding_mismatches": sum(r["n_mismatch"] for r in good),
        "truncated_harnesses": [r["harness"] for r in good if r["truncated"]],
        "harness_errors": [r["harness"] for r in errors],
    }
    samples = [s for r in good for s in r["samples"]][:8]
    if not samples:
        samples = [{"harness": r["harness"], "labels": r["labels"]} for r in good][:4] or ["none"]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": SEED,
        "level": "model_checking",
        "coverage": {
            "states": tot("feasible"),
            "transitions": tot("decisions"),
            "traces_validated_against_impl": tot("validated"),
            "samples": samples,
            "what": "states = symbolic paths completed, each standing for all inputs that satisfy its path condition; transitions = branch decisions taken on symbolic conditions; traces = solver models replayed on the unpatched package whose observed values agreed with the encoding",
            "functions_encoded": sorted({f for r in good for f in r["functions"]}),
            "harnesses": [
                {
                    k: r[k]
                    for k in (
                        "harness", "bounds", "stubs", "axioms", "paths", "feasible", "forks", "decisions", "statuses", "queries",
                        "solver_s", "discharged", "trivial", "tolerance_only", "replayed", "validated", "offpath", "labels", "concretised", "wall",
                    )
                }
                for r in good
            ],
            "queries": tot("queries"),
            "solver_seconds": round(sum(r["solver_s"] for r in good), 2),
            "assertions_discharged_by_solver": tot("discharged"),
            "assertions_discharged_by_constant_folding": tot("trivial"),
            "inconclusive": inconclusive,
            "exhaustive": not inconclusive["truncated_harnesses"] and not errors and not inconclusive["encoding_gaps"],
        },
        "assumptions": [
            "floats are treated as real numbers; float literals are read as their shortest decimal",
            "assertions are decided up to an absolute tolerance of 1e-6 unless exact",
            "everything outside the bounds listed per harness is outside the claim",
        ]
        + [f"{r['harness']}: stubs: {r['stubs']}" for r in good if r["stubs"]]
        + [f"{r['harness']}: axioms: {r['axioms']}" for r in good if r["axioms"]],
        "wall_s": round(wall, 2),
        "violations": len(viol_lines),
    }
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for r in good:
        print(
            f"[{prop}] {r['harness']}: paths={r['paths']} ({r['statuses']}) forks={r['forks']} queries={r['queries']} "
            f"solver={r['solver_s']:.1f}s discharged={r['discharged']} folded={r['trivial']} tol={r['tolerance_only']} "
            f"replayed={r['replayed']} validated={r['validated']} offpath={r['offpath']} wall={r['wall']}s"
        )
        if r["truncated"]:
            print("    TRUNCATED")
        for g, c in r["gaps"].items():
            print(f"    GAP x{c}: {g}")
        for u in r["unknown_checks"][:5]:
            print("    UNKNOWN:", u[0], u[2])
        for u in r["unresolved"][:5]:
            print("    UNRESOLVED:", u["label"], u["why"], json.dumps(u["inputs"]))
        for m in r["mismatch"][:4]:
            print("    MISMATCH:", m["why"], json.dumps(m["task"]["inputs"]))
        if r["concretised"]:
            print("    CONCRETISED:", r["concretised"][:3])
        if a.v:
            print("    labels:", r["labels"])
    for r in errors:
        print(f"[{prop}] {r['harness']}: ERROR\n{r['error']}")
    for w in sorted(set(known_lines)):
        print(f"KNOWN-FINDING: property={prop} {w}")
    for path, hn, label, detail, ins in viol_lines:
        print(f"  {hn}/{label}: {detail}  inputs={json.dumps(ins)[:600]}")
        print(f"VIOLATION property={prop} replay={path}")
    if viol_lines:
        return 1
    if errors and not good:
        return 2
    # an inconclusive part is reported above and in the evidence; it is never called a proof
    bad = (
        errors
        or inconclusive["unknown_checks"]
        or inconclusive["unresolved_candidates"]
        or inconclusive["encoding_gaps"]
        or inconclusive["encoding_mismatches"]
        or inconclusive["truncated_harnesses"]
        or not ev["coverage"]["traces_validated_against_impl"]
        or any(not r["labels"] for r in good)
    )
    if bad:
        print(f"[{prop}] NOTE: part of the exploration is inconclusive: {inconclusive}")
        if a.strict:
            return 3
    print(f"[{prop}] OK wall={wall:.1f}s")
    return 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
