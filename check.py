#!/usr/bin/env python3-vt
"""One check: python3-vt check.py <ID> [--thorough] [--only file[:harness]]
   replay of a reported violation: python3-vt check.py --replay <file>

exit 0: every obligation of the property was discharged from /repo's current tree
        (bounded stand-ins: nothing found);
exit 1: VIOLATION line (a failing input was replayed on the real code, or the
        verifier refuted an obligation);
exit 2: nothing about the property could be evaluated."""
import json
import multiprocessing as mp
import os
import pathlib
import re
import sys
import time

VERIF = pathlib.Path(__file__).resolve().parent
os.chdir(VERIF)
sys.path.insert(0, str(VERIF))
sys.setrecursionlimit(20000)
from qv import cxx, pyeng, props  # noqa: E402

NCPU = min(8, os.cpu_count() or 4)
KNOWN = VERIF / "known_findings.txt"


def hs_of(kind, name):
    if kind == "cxx":
        src = (VERIF / f"cxx/{name}.cpp").read_text()
        return list(dict.fromkeys(re.findall(r"^HARNESS\((\w+)\)", src, re.M)))
    src = (VERIF / f"py/{name}.py").read_text()
    return re.findall(r"^def h_(\w+)\(", src, re.M)


def label(h):
    return "bounded" if h.startswith("b_") else "sized" if h[:2] in ("n_", "t_") else "all"


def mod_of(kind):
    return cxx if kind == "cxx" else pyeng


def job(kind, name, h, cfg):
    """runs in its own process"""
    t0 = time.time()
    m = mod_of(kind)
    out = dict(kind=kind, file=name, harness=h, label=label(h), obligations=0, discharged=0, paths=0, solver_s=0.0,
               by={}, tags={}, undecided=[], error=None, violation=None, search=None)

    def bounded(seconds):
        s = m.search(name, h, 10 ** 7, cfg["seed"], seconds)
        out["search"] = {k: s.get(k) for k in ("status", "runs", "skipped", "checks", "sample", "out")}
        if s["status"] == "fail":
            again = m.replay(name, h, s["inputs"])
            if again[0]:
                out["violation"] = dict(tag=s["tag"], inputs=s["inputs"], how="bounded search, replayed on the real code", detail=s["out"][-1500:])
                return True
        return False
    if label(h) == "bounded":
        bounded(cfg["b_seconds"])
    else:
        r = m.prove(name, h, total_s=cfg["total_s"], timeout_ms=cfg["timeout_ms"], max_paths=cfg["max_paths"] * (1 if kind == "cxx" else 100))
        out.update(obligations=r.obligations, discharged=r.discharged, paths=r.paths, solver_s=round(r.solver_s, 3), by=r.by,
                   tags=r.tags, undecided=r.undecided[:20], error=(r.error or None) and r.error[:1500])
        if not r.ok():
            done = False
            seen = set()
            for f in sorted(r.failures, key=lambda f: f.model is None):
                if f.tag in seen or f.model is None or len(seen) > 6:
                    continue
                seen.add(f.tag)
                rep = m.replay(name, h, f.model)
                if rep[0]:
                    out["violation"] = dict(tag=rep[1] or f.tag, obligation=f.tag, inputs=f.model, how="counterexample of the verifier, replayed on the real code", detail=f.detail[:800])
                    done = True
                    break
            em = getattr(r, "error_model", None)
            if not done and em is not None:
                rep = m.replay(name, h, em)
                if rep[0]:
                    out["violation"] = dict(tag=rep[1], obligation=rep[1], inputs=em, how="path on which the symbolic execution stopped, replayed on the real code", detail=r.error[:800])
                    done = True
            if not done:
                done = bounded(cfg["f_seconds"])
            if not done and kind == "cxx" and r.failures and any(f.exact for f in r.failures):
                f = next(f for f in r.failures if f.exact)
                out["violation"] = dict(tag=f.tag, obligation=f.tag, inputs=f.model, how="obligation refuted by the verifier", noinput=True, detail=f.detail[:800])
    out["wall_s"] = round(time.time() - t0, 2)
    return out


def _child(conn, args):
    try:
        r = job(*args)
    except BaseException as e:  # noqa: BLE001
        import traceback
        r = dict(kind=args[0], file=args[1], harness=args[2], label=label(args[2]), obligations=0, discharged=0, paths=0, solver_s=0.0, by={}, tags={},
                 undecided=[], error=f"{type(e).__name__}: {e} {traceback.format_exc()[-800:]}", violation=None, search=None, wall_s=0.0)
    try:
        conn.send(r)
    finally:
        conn.close()
        os._exit(0)


def run_jobs(jobs, cfg, deadline):
    ctx = mp.get_context("fork")
    todo = list(jobs)
    live = []
    res = []
    while todo or live:
        while todo and len(live) < NCPU and time.time() < deadline:
            a = todo.pop(0)
            pc, cc = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(cc, (*a, cfg)))
            p.start()
            cc.close()
            live.append((p, pc, a, time.time()))
        if time.time() >= deadline and todo:
            for a in todo:
                res.append(stub(a, "not started: time"))
            todo = []
        time.sleep(0.01)
        nl = []
        for p, pc, a, t0 in live:
            if pc.poll():
                try:
                    res.append(pc.recv())
                    v = res[-1]["violation"]
                    if v and not v.get("noinput") and not is_known(cfg["known"], res[-1]):  # the rest cannot make it hold
                        deadline = min(deadline, time.time() + 40)
                except EOFError:
                    res.append(stub(a, "process ended"))
                p.join(5)
            elif not p.is_alive():
                res.append(stub(a, "process ended"))
            elif time.time() - t0 > cfg["job_s"] or time.time() > deadline + 20:
                p.kill()
                p.join(5)
                res.append(stub(a, "time limit"))
            else:
                nl.append((p, pc, a, t0))
        live = nl
    return res


def stub(a, why):
    return dict(kind=a[0], file=a[1], harness=a[2], label=label(a[2]), obligations=0, discharged=0, paths=0, solver_s=0.0, by={}, tags={},
                undecided=[], error=why, violation=None, search=None, wall_s=0.0)


def build_cxx(names, native):
    """compile in parallel, then parse the IR here so that workers share it"""
    ctx = mp.get_context("fork")
    ps = []
    for n in names:
        ps.append(ctx.Process(target=_quiet, args=(cxx.compile_ir, n)))
        if n in native:
            ps.append(ctx.Process(target=_quiet, args=(cxx.compile_native, n)))
    for p in ps:
        p.start()
    for p in ps:
        p.join()
    for n in names:
        try:
            cxx.load_module(n)
        except Exception:  # noqa: BLE001 - reported by the harness
            pass


def _quiet(f, n):
    try:
        f(n)
    except Exception:  # noqa: BLE001
        pass
    os._exit(0)


def known(pid):
    out = []
    if KNOWN.exists():
        for l in KNOWN.read_text().splitlines():
            if l.startswith(f"finding: property={pid} "):
                m = re.match(r"finding: property=\S+ obligation=(\S+) (.*)", l)
                if m:
                    out.append((m.group(1), m.group(2)))
    return out


def is_known(kn, r):
    key = f"{r['file']}:{r['harness']}:{r['violation'].get('tag', '')}".replace(" ", "_")
    return next((x for x in kn if key.startswith(x[0])), None)


def main():
    if sys.argv[1] == "--replay":
        d = json.loads(pathlib.Path(sys.argv[2]).read_text())
        r = mod_of(d["kind"]).replay(d["file"], d["harness"], d["inputs"] or {})
        print(r)
        sys.exit(1 if r[0] else 0)
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = props.PROPS[pid]
    t0 = time.time()
    deadline = t0 + (3000 if thorough else 560)
    cfg = dict(seed=seed, total_s=900 if thorough else 200, timeout_ms=60000 if thorough else 15000, b_seconds=90 if thorough else P.get("b_seconds", 8),
               f_seconds=60 if thorough else 15, job_s=1500 if thorough else 330, max_paths=60000 if thorough else 6000)
    cfg["known"] = known(pid)
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    jobs = []
    for kind in ("cxx", "py"):
        for n in P.get(kind, []):
            for h in hs_of(kind, n):
                if (only is None and (thorough or not h.startswith("t_"))) or (only and f"{n}:{h}".startswith(only)):
                    jobs.append((kind, n, h))
    cn = sorted({j[1] for j in jobs if j[0] == "cxx"})
    build_cxx(cn, {j[1] for j in jobs if j[0] == "cxx" and j[2].startswith("b_")})
    # slow ones first
    slow = P.get("slow", ())
    jobs.sort(key=lambda j: (j[2] not in slow, not j[2].startswith("b_")))
    res = run_jobs(jobs, cfg, deadline)
    res.sort(key=lambda r: (r["kind"], r["file"], r["harness"]))
    kn = known(pid)
    viol, found_known = [], []
    for r in res:
        v = r["violation"]
        if v is None:
            continue
        k = is_known(kn, r)
        (found_known if k else viol).append((r, v, k))
    rdir = VERIF / ".build/replay"
    rdir.mkdir(parents=True, exist_ok=True)
    for r in res:
        st = "VIOLATED" if r["violation"] else "proved" if r["label"] != "bounded" and r["error"] is None and not r["undecided"] and r["obligations"] == r["discharged"] > 0 else \
            "searched" if r["search"] and r["search"]["status"] == "ok" and r["label"] == "bounded" else "undecided"
        r["status"] = st
        s = r["search"]
        print(f"{st:9s} {r['file']}:{r['harness']} [{r['label']}] obligations={r['obligations']} discharged={r['discharged']} paths={r['paths']}"
              f"{' runs=%s checks=%s' % (s['runs'], s['checks']) if s else ''} {r['wall_s']}s"
              + (f" ({r['error'][:300]})" if r["error"] else "") + (f" undecided: {r['undecided'][:2]}" if r["undecided"] else "")
              + (f" search: {s['status']} {str(s.get('out'))[-300:]}" if s and s["status"] not in ("ok", "fail") else ""))
    seen = set()
    for r, v, k in found_known:
        if k[0] not in seen:
            seen.add(k[0])
            print(f"KNOWN-FINDING: property={pid} {k[1]}")
    seen = set()
    # replayed violations first; those without an input only if there is nothing better
    viol.sort(key=lambda x: bool(x[1].get("noinput")))
    for r, v, _ in viol:
        if v.get("noinput") and any(not w.get("noinput") for _, w, _ in viol):
            continue
        f = rdir / f"{pid}-{r['file']}-{r['harness']}.json"
        f.write_text(json.dumps(dict(property=pid, kind=r["kind"], file=r["file"], harness=r["harness"], **v), indent=1, default=str) + "\n")
        print(f"  obligation failed: {r['file']}:{r['harness']}: {v.get('obligation') or v['tag']} -- {v['how']}; inputs {v.get('inputs')}")
        print(f"VIOLATION property={pid} replay={f.relative_to(VERIF)}" + (" no-failing-input-found" if v.get("noinput") else ""))
    proved = [r for r in res if r["status"] == "proved"]
    full = [r for r in res if r["label"] == "all"]
    sized = [r for r in res if r["label"] == "sized"]
    obl = sum(r["obligations"] for r in full)
    dis = sum(r["discharged"] for r in full)
    by = {}
    for r in res:
        for k, n in r["by"].items():
            by[k] = by.get(k, 0) + n
    tags = {}
    for r in res:
        for k, n in r["tags"].items():
            tags[f"{r['harness']}: {k}"] = n
    bnd = [r for r in res if r["search"]]
    cov = dict(
        obligations=obl, discharged=dis, bounded_obligations=sum(r["obligations"] for r in sized), bounded_discharged=sum(r["discharged"] for r in sized), checker_cmd=f"python3-vt check.py {pid}" + (" --thorough" if thorough else ""),
        trusted_base=props.trusted(P), functions_under_contract=P.get("functions", []),
        discharged_by=by, solver_s=round(sum(r["solver_s"] for r in res), 2), paths=sum(r["paths"] for r in res),
        proved_for_all_inputs=[f"{r['file']}:{r['harness']}" for r in proved if r["label"] == "all"],
        bounded_all_inputs_up_to_a_size=[f"{r['file']}:{r['harness']}" for r in proved if r["label"] == "sized"],
        undecided=[f"{r['file']}:{r['harness']}: {(r['error'] or ' '.join(r['undecided'][:2]))[:300]}" for r in res if r["status"] == "undecided"],
        bounded_random_search={f"{r['file']}:{r['harness']}": {k: r["search"].get(k) for k in ("status", "runs", "checks", "sample")} for r in bnd},
        evaluations=sum(r["search"]["runs"] or 0 for r in bnd), named_obligations=len(tags), samples=[{k: tags[k]} for k in sorted(tags)[:12]],
        rule="one evaluation = one random input that met the precondition, checked on the real code (bounded stand-ins only)")
    if props.level(P) != "proof":
        cov["explanation"] = P["note"]
    ev = dict(property=pid, tier="thorough" if thorough else "quick", seed=seed, level=props.level(P), coverage=cov,
              assumptions=props.assumptions(P), wall_s=round(time.time() - t0, 2), violations=len(viol))
    if only is None:
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / f"evidence/{pid}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
    evaluated = [r for r in res if r["status"] in ("proved", "searched", "VIOLATED") or (r["search"] and r["search"]["status"] == "ok")]
    print(f"{pid}: {len(proved)}/{len([r for r in res if r['label'] != 'bounded'])} harnesses discharged, obligations {dis}/{obl} for all inputs, {cov['bounded_discharged']}/{cov['bounded_obligations']} up to a size, {len(bnd)} searched, {time.time() - t0:.1f}s")
    if viol:
        sys.exit(1)
    sys.exit(0 if evaluated else 2)


if __name__ == "__main__":
    main()
