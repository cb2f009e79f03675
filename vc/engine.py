"""Runs units (function, instantiation) and contract bodies through the verifier, in parallel."""
import os, sys, time, traceback, re
import multiprocessing as mp
import z3
from logic import *
from fpv import *
from theory import *
from sexec import *
import loops, jobs, api, contracts, irparse, solve, props, ivc

CONTRACTS = [contracts.match, ivc.match, ivc.match_cos, ivc.match_pow]
USES = {"root": [contracts.match, ivc.match, ivc.match_pow], "periodic": [contracts.match, ivc.match_cos, ivc.match_pow]}


def mk_exec(mod, fn=None, inst=None):
    def mk(exact):
        ctx = Ctx(exact)
        ex = Exec(mod, ctx, USES.get(fn.group, [contracts.match, ivc.match_pow]) if fn is not None else [contracts.match])
        if fn is not None and fn.prepare:
            fn.prepare(ex, inst)
        return ex
    return mk


def res(ob, status, be, secs, model, unit):
    m = None
    if model:
        m = {k: v for k, v in model.items() if not isinstance(v, bool) and re.match(r"^([lun]\d|i\d|x|y|n)$", k)}
    return {"ob": ob.name, "tag": ob.tag, "status": status, "backend": be, "s": secs, "model": m, "unit": unit}


def run_unit(mod, inst, fn, tags, exact, deadline, hard=True):
    """-> dict(results=[...], used={key:mangled}, ...)"""
    out = {"unit": (inst.name, fn.id), "results": [], "optional": set(), "used": {}, "inlined": set(), "trusted": set(), "bounded": [],
           "unsupported": None, "exact": exact, "cases": 0, "vacuous": []}
    t0 = time.time()
    loops.TERM = "term" in tags
    try:
        for case, ex, obs, ops in jobs.fn_obligations(mod, inst, fn, tags, exact, mk_exec(mod, fn, inst)):
            out["cases"] += 1
            ctx = ex.ctx
            for n, c in ex.used.items():
                out["used"][c.key] = n
                if c.optional:
                    out["optional"].add(c.key)
            out["inlined"] |= {ex.dem(n) for n in ex.inlined}
            out["trusted"] |= ex.trusted | ctx.assumed
            out["bounded"] += ex.bounded
            live = False
            for ob in obs:
                if ob.tag == "unsupported":
                    out["unsupported"] = ob.name
                    out["results"].append(res(ob, "unsupported", None, 0, None, out["unit"]))
                    continue
                st, be, model, secs = solve.solve(ctx, ob, deadline, *effort(out["results"], hard))
                out["results"].append(res(ob, st, be, secs, model, out["unit"]) | {"case": case})
            # vacuity: the assumptions made on the way must be satisfiable
            pcs = {id(o.pc): o.pc for o in obs if o.tag not in ("unsupported",)}
            for pc in pcs.values():
                r, _ = ctx.check([p for p in pc], 800, lemmas=True)
                if r != "unsat":
                    live = True
                    break
            if not live and obs and not out["unsupported"]:
                out["vacuous"].append("%s %s%s" % (inst.name, fn.id, case))
    except (Unsupported, ExecLimit, RecursionError) as e:
        out["unsupported"] = "%s %s: %s" % (inst.name, fn.id, e)
        out["results"].append({"ob": out["unsupported"], "tag": "unsupported", "status": "unsupported", "backend": None, "s": 0, "model": None, "unit": out["unit"]})
    out["wall"] = time.time() - t0
    return out


def bad(r):
    return r["status"] in ("refuted", "unknown")


def effort(results, hard):
    """less for the rest of a function that has failed several times already"""
    return (hard, 4000) if sum(map(bad, results)) < 3 else (False, 1500)


def attempts(run, exacts, noopt, deadline, probe=None):
    """the first of these that discharges everything, else the first: with the contracts of internal helpers, on the soundness of the
    rounding operations alone or on their exactness; then with the bodies of those helpers instead.  probe looks for a failing input
    when the first has failed: with one in hand, the others are not needed"""
    first, wall = None, 0
    for no in (True,) if noopt else (False, True):
        for exact in exacts:
            if first is not None and (time.time() > deadline or (no and not noopt and not first["optional"])):
                break
            ivc.NOOPT = no
            o = run(exact, exact)
            wall += o["wall"]
            o["wall"] = wall
            if not o["unsupported"] and not any(bad(r) for r in o["results"]):
                return o
            if first is None:
                first = o
                if probe and any(bad(r) and r["tag"] != "term" for r in o["results"]):
                    probe(o)
                    if o.get("confirmed"):
                        return o
    return first


def chunk_worker(a):
    pairs, prop, wd, idx, deadline, noopt = a
    P = props.PROPS[prop]
    outs = []
    pp = [(api.INSTS[i], api.BYID[f]) for i, f in pairs]
    mod, err = jobs.compile_ir(jobs.tu(pp), wd, "c%d" % idx)
    if err:
        mods = {}
        for i, f in pp:
            m, e = jobs.compile_ir(jobs.tu([(i, f)]), wd, "c%d_%s_%s" % (idx, i.name, f.id))
            mods[(i.name, f.id)] = (m, e)
    for i, f in pp:
        try:
            if err:
                m, e = mods[(i.name, f.id)]
                if e:
                    outs.append({"unit": (i.name, f.id), "results": [{"ob": "%s %s: the function can be instantiated" % (i.name, f.id), "tag": "compile",
                                 "status": "unknown", "backend": None, "s": 0, "model": None, "unit": (i.name, f.id), "msg": e[-1500:]}],
                                 "optional": set(), "used": {}, "inlined": set(), "trusted": set(), "bounded": [], "unsupported": None, "exact": False, "cases": 0, "vacuous": [], "wall": 0})
                    continue
            else:
                m = mod
            tags = P.tags
            def probe(o):
                import native
                seed = int(os.environ.get("VERIF_SEED", "1"))
                _, rep, o["nat_runs"], _ = native.worker(((i.name, f.id), *native.evidence(o["unit"], [r for r in o["results"] if bad(r)], False), sorted(tags), seed, 500, wd,
                                                          "p%d_%s_%s" % (idx, i.name, f.id), P.libm, deadline))
                if rep:
                    o["confirmed"] = rep
            outs.append(attempts(lambda exact, hard: run_unit(m, i, f, tags, exact, deadline, hard), (True,) if P.exact or f.exact else (False, True), noopt, deadline, probe))
            if outs[-1].get("confirmed"):
                break
        except Exception as e:
            outs.append({"unit": (i.name, f.id), "results": [{"ob": "internal error: " + traceback.format_exc()[-1500:], "tag": "unsupported", "status": "unsupported",
                         "backend": None, "s": 0, "model": None, "unit": (i.name, f.id)}],
                         "optional": set(), "used": {}, "inlined": set(), "trusted": set(), "bounded": [], "unsupported": "internal error %r" % e, "exact": False, "cases": 0, "vacuous": [], "wall": 0})
    return outs


def verify_contract(o, c, mkexec, name, k, inst, tags, deadline, hard):
    o["usedkeys"] = []
    try:
        for ex, obs, case, vals in c.verify(mkexec, name, tags):
            for n, cc in ex.used.items():
                o["used"][cc.key] = n
                if cc.optional:
                    o["optional"].add(cc.key)
                o["usedkeys"].append(cc.key)
            o["trusted"] |= ex.trusted | ex.ctx.assumed
            o["inlined"] |= {ex.dem(n) for n in ex.inlined}
            live, some = False, False
            for ob in obs:
                if ob.tag in ("policy", "policy-exact", "policy-rm", "callee", "callee-incl", "callee-rm", "term") and ob.tag not in tags:
                    continue
                st, be, model, secs = solve.solve(ex.ctx, ob, deadline, *effort(o["results"], hard))
                o["results"].append(res(ob, st, be, secs, model, (inst, k)) | {"case": case})
                some = True
                if not live:
                    r, _ = ex.ctx.check(list(ob.pc), 800, lemmas=True)
                    live = r != "unsat"
            if some and not live:
                o["vacuous"].append("%s %s" % (k, case))
    except (Unsupported, ExecLimit, RecursionError) as e:
        o["unsupported"] = "%s: %s" % (k, e)
    except Exception:
        o["unsupported"] = "internal error " + traceback.format_exc()[-1500:]


def contract_worker(a):
    """verify contract bodies: [(inst, fn, key)] -> results"""
    inst, fns, keys, tags, wd, idx, deadline, noopt = a
    I = api.INSTS[inst]
    pp = [(I, api.BYID[f]) for f in fns]
    outs = []
    loops.TERM = "term" in tags
    new = lambda k, **kw: {"key": k, "results": [], "trusted": set(), "used": {}, "usedkeys": [], "optional": set(), "unsupported": None, "inst": inst, "fns": fns,
                           "inlined": set(), "vacuous": [], "wall": 0, "isopt": False} | kw
    mod, err = jobs.compile_ir(jobs.tu(pp), wd, "k%d" % idx)
    if err:
        return [new(k, unsupported="compile error") for k in keys]
    ivc.NOOPT = False
    ex0 = Exec(mod, Ctx(True), CONTRACTS)
    names = {}
    for n in mod.funcs:
        c = ex0.contract_for(n)
        if c is not None:
            names.setdefault(c.key, n)
    for k in keys:
        if k not in names:
            outs.append(new(k, unsupported="no body found for " + k))
            continue
        c = ex0.contract_for(names[k])

        def run(exact, hard):
            o, t0 = new(k, exact=exact, isopt=c.optional), time.time()
            verify_contract(o, c, lambda: Exec(mod, Ctx(exact), [contracts.match] + getattr(c, "uses", [])), names[k], k, inst, tags, deadline, hard)
            o["wall"] = time.time() - t0
            return o
        # library functions: on the soundness of the rounding operations alone if that is enough, else on their exactness
        outs.append(attempts(run, (True,) if isinstance(c, contracts.RoundC) else (False, True), noopt, deadline))
    return outs


def pmap(f, jobs_, nproc=8):
    if not jobs_:
        return []
    with mp.get_context("fork").Pool(min(nproc, len(jobs_)), maxtasksperchild=4) as p:
        return p.map(f, jobs_, chunksize=1)


def guarded(f, a, deadline):
    DEADLINE[0] = deadline
    return f(a)


def schedule(first, more, deadline, nproc=8):
    """first: [(cost, function, argument)]; more(result) -> further jobs that a result asks for, None to stop.  Costliest job first.
    -> the jobs that were not finished"""
    import heapq, queue
    heap, n = [], 0
    for c, f, a in first:
        heapq.heappush(heap, (-c, n, f, a))
        n += 1
    done, live = queue.SimpleQueue(), {}
    with mp.get_context("fork").Pool(nproc, maxtasksperchild=4) as p:
        while heap or live:
            while heap and len(live) < nproc:
                _, k, f, a = heapq.heappop(heap)
                p.apply_async(guarded, (f, a, deadline), callback=lambda r, k=k: done.put((k, r, None)), error_callback=lambda e, k=k: done.put((k, None, e)))
                live[k] = (f, a)
            try:
                k, r, e = done.get(timeout=max(deadline + 60 - time.time(), 0.1))
            except queue.Empty:
                return list(live.values()) + [(f, a) for _, _, f, a in heap]
            del live[k]
            if e is not None:
                raise e
            js = more(r)
            if js is None:
                return []
            for c, f, a in js:
                heapq.heappush(heap, (-c, n, f, a))
                n += 1
    return []
