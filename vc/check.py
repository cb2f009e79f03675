#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import json, os, re, shutil, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.set_int_max_str_digits(0)
import api, props, engine, native, leancheck

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


COSTS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "costs.json")     # seconds measured once: only the order of the jobs


def load_costs():
    try:
        return json.load(open(COSTS))
    except (OSError, ValueError):
        return {}


def chunks(units, cost, target):
    """groups of about the target cost, within one instance so that a TU stays small"""
    by, out = {}, []
    for u in units:
        by.setdefault(u[0], []).append(u)
    for us in by.values():
        us.sort(key=lambda u: -cost(u))
        k = max(1, min(len(us), round(sum(map(cost, us)) / target)))
        bins = [[0, []] for _ in range(k)]
        for u in us:
            b = min(bins, key=lambda b: b[0])
            b[0] += cost(u)
            b[1].append(u)
        out += [b for b in bins if b[1]]
    return out


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def matches(k, name):
    return re.search(k["obligation"], name) is not None


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    P = props.PROPS[pid]
    budget = 560 if tier == "quick" else 3300
    deadline = t0 + budget
    wd = tempfile.mkdtemp(prefix="vc_%s_" % pid)
    try:
        rc = go(pid, tier, seed, t0, P, deadline, wd)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    sys.exit(rc)


def go(pid, tier, seed, t0, P, deadline, wd):
    only = os.environ.get("VC_ONLY")       # developer aid: restrict to units matching a regex
    units = P.units(tier)
    if only:
        units = [u for u in units if re.search(only, "%s.%s" % u)]
    lean = leancheck.start()
    table = load_costs()
    pc = table.get(pid, {})
    cost = lambda u: pc.get("%s.%s" % u, api.BYID[u[1]].cost)
    kcost = lambda k: pc.get(k, 1.0 if k.startswith("rounded") else 4.0)
    ctags = set(P.tags) | {"policy-rm", "policy-exact"}
    known = load_known(pid)
    confirmed, bounded, nat_runs, tried = [], [], [0], set()
    isbad = lambda r: engine.bad(r) and r["tag"] != "term" and not any(matches(k, r["ob"]) for k in known)

    def early(o):
        """native runs for a function that failed, while the proofs go on"""
        rs = [r for r in o["results"] if isbad(r)]
        if not rs or len(tried) >= 40:
            return []
        us = [o["unit"]] if "unit" in o else [] if o["isopt"] else callers(o["key"], users)[:8]
        us = [u for u in us if u not in tried]
        tried.update(us)
        return [(1e6, native.worker, (u, *native.evidence(u, rs, "unit" not in o), sorted(P.tags), seed, 700, wd, "e%d" % next(seq), P.libm, deadline)) for u in us]

    outs, couts, need, users, seq, noopt, inlined = [], [], {}, {}, iter(range(1 << 30)), [False], []

    def more(rs):
        """contracts relied upon: each is verified once, as soon as something relies on it"""
        new, js = {}, []
        if isinstance(rs, tuple):       # a native run of a function that failed
            nat_runs[0] += rs[2]
            if rs[1]:
                confirmed.append(rs[1])
                return None
            return js
        for o in rs:
            if "unit" in o:
                outs.append(o)
                nat_runs[0] += o.get("nat_runs", 0)
                if o.get("confirmed"):
                    confirmed.append(o["confirmed"])
                    tried.add(o["unit"])
            else:
                couts.append(o)
            inst, fns = (o["unit"][0], (o["unit"][1],)) if "unit" in o else (o["inst"], tuple(o["fns"]))
            for k in (o["used"] if "unit" in o else o["usedkeys"]):
                if "unit" in o:
                    users.setdefault(k, []).append(o["unit"])
                if k not in need:
                    need[k] = o["unit"] if "unit" in o else None
                    new.setdefault((inst, fns), []).append(k)
        if confirmed:
            return None
        for o in rs:
            js += early(o)
        for (inst, fns), ks in new.items():
            ks.sort(key=lambda k: (-kcost(k), k))
            part, c = [], 0
            for k in ks:
                if part and c + kcost(k) > 6:
                    js.append((c, engine.contract_worker, (inst, list(fns), part, ctags, wd, next(seq), deadline, noopt[0])))
                    part, c = [], 0
                part, c = part + [k], c + kcost(k)
            if part:
                js.append((c, engine.contract_worker, (inst, list(fns), part, ctags, wd, next(seq), deadline, noopt[0])))
        return js

    total = sum(map(cost, units))
    first = [(c, engine.chunk_worker, (us, pid, wd, next(seq), deadline, False)) for c, us in chunks(units, cost, max(min(total / 40, 12), 3))]
    unfinished = engine.schedule(first, more, deadline)
    # an internal helper that no longer meets the contract used for it: whatever relied on it is verified with its body instead
    failed = lambda o: o["unsupported"] or any(engine.bad(r) for r in o["results"])
    broken = {o["key"] for o in couts if o["isopt"] and failed(o)}
    if broken and not confirmed:
        inlined = sorted(broken)
        ru = [o["unit"] for o in outs if broken & o["optional"]]
        rk = [o for o in couts if broken & o["optional"] and o["key"] not in broken]
        drop = broken | {o["key"] for o in rk}
        outs[:] = [o for o in outs if o["unit"] not in set(ru)]
        couts[:] = [o for o in couts if o["key"] not in drop]
        for k in drop:
            need.pop(k, None)
        noopt[0] = True
        first = [(c, engine.chunk_worker, (us, pid, wd, next(seq), deadline, True)) for c, us in chunks(ru, cost, 3)]
        for o in rk:
            need[o["key"]] = None
            first.append((kcost(o["key"]), engine.contract_worker, (o["inst"], list(o["fns"]), [o["key"]], ctags, wd, next(seq), deadline, True)))
        unfinished += engine.schedule(first, more, deadline)
    for f, a in unfinished:
        late = {"results": [], "used": {}, "usedkeys": [], "optional": set(), "inlined": set(), "trusted": set(), "bounded": [], "exact": False, "cases": 0,
                "vacuous": [], "wall": 0, "isopt": False}
        if f is engine.chunk_worker:
            outs.extend(late | {"unit": u, "unsupported": "%s %s: the time budget is used up" % tuple(u)} for u in a[0])
        elif f is engine.contract_worker:
            couts.extend(late | {"key": k, "unsupported": "%s: the time budget is used up" % k} for k in a[2])
    outs.sort(key=lambda o: o["unit"])
    couts.sort(key=lambda o: o["key"])
    exact_used = {k for o in outs if o["exact"] for k in o["used"]}
    if os.environ.get("VC_COSTS"):      # developer aid: record the costs
        table[pid] = {**{"%s.%s" % o["unit"]: round(o["wall"], 2) for o in outs}, **{o["key"]: round(o["wall"], 2) for o in couts}}
        json.dump(table, open(COSTS, "w"), indent=0, sort_keys=True)
    if not exact_used and not any(o.get("exact") and o["used"] for o in couts) and "policy-exact" not in P.tags:
        for o in couts:     # nothing here depends on the exactness of the rounding operations
            o["results"] = [r for r in o["results"] if r["tag"] != "policy-exact"]
    results = [r for o in outs for r in o["results"]]
    cres = [r for o in couts for r in o["results"]]
    tot = results + cres
    badl, knownhit = [], {}
    for r in tot:
        if engine.bad(r):
            for k in known:
                if matches(k, r["ob"]):
                    knownhit.setdefault(k["what"], []).append(r)
                    break
            else:
                badl.append(r)
    # termination: an undischarged obligation counts only when a native run hangs; otherwise the rest is partial correctness
    soft = [r for r in badl if r["tag"] == "term"]
    badl = [r for r in badl if r["tag"] != "term"]
    unsup = [o for o in outs if o["unsupported"]]
    cunsup = [o for o in couts if o["unsupported"]]
    vac = [v for o in outs for v in o["vacuous"]] + [v for o in couts for v in o.get("vacuous", [])]
    # ---------------------------------------------------------------- replay of failures
    extra = P.extra(tier, wd, deadline, seed) if P.extra else None
    if extra:
        badl += [r for r in extra["results"] if engine.bad(r)]
        tot += extra["results"]
    stopped = bool(confirmed)
    if not stopped and (badl or soft or unsup or cunsup):
        confirmed, bounded, n = replay(pid, P, badl + soft, unsup, cunsup, users, wd, seed, tier, known, deadline)
        nat_runs[0] += n
    rep_dir = os.path.join(VERIF, "out")
    lines = []
    viol = 0
    os.makedirs(rep_dir, exist_ok=True)
    for f in os.listdir(rep_dir):
        if f.startswith(pid + "-"):
            os.remove(os.path.join(rep_dir, f))
    if badl or confirmed:
        fails = [{"obligation": r["ob"], "tag": r["tag"], "status": r["status"], "model": {k: str(v) for k, v in (r["model"] or {}).items()},
                  **({"message": r["msg"]} if "msg" in r else {})} for r in badl + soft]
        if confirmed:
            for n, c in enumerate(confirmed[:3]):
                p = os.path.join(rep_dir, "%s-%d.json" % (pid, n))
                json.dump({"property": pid, "failed_obligations": [f for f in fails if c["function"] in f["obligation"]][:20] or fails[:20],
                           "failing_input": c}, open(p, "w"), indent=1)
                lines.append("VIOLATION property=%s replay=%s" % (pid, p))
                print("  failing input: %s %s on %s: %s -> %s; violated: %s" % (c["instance"], c["expression"], c["entry_rounding"], c["operands"], c["observed"],
                                                                                "; ".join(x[1] for x in c["violated"])))
            viol = len(confirmed)
        else:
            p = os.path.join(rep_dir, "%s-0.json" % pid)
            json.dump({"property": pid, "failed_obligations": fails[:50], "failing_input": None,
                       "verifier_output": "%d obligations not discharged; native search of %d runs found no failing input" % (len(fails), nat_runs[0])},
                      open(p, "w"), indent=1)
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, p))
            viol = 1
        for r in badl[:12]:
            print("  undischarged (%s): %s" % (r["status"], r["ob"]))
    for w, rs in knownhit.items():
        print("KNOWN-FINDING: property=%s %s (%d obligations)" % (pid, w, len(rs)))
    # ---------------------------------------------------------------- evidence
    n_ob = len([r for r in tot if r["status"] != "unsupported"])
    n_ok = len([r for r in tot if r["status"] == "proved"])
    bes = {}
    for r in tot:
        if r["status"] == "proved":
            bes[r["backend"]] = bes.get(r["backend"], 0) + 1
    inl = set()
    trusted = set()
    for o in outs + couts:
        inl |= o.get("inlined", set())
        trusted |= o["trusted"]
    if extra:
        trusted |= set(extra.get("trusted", []))
    facts = leancheck.collect(lean, max(deadline + 60 - time.time(), 60))
    trusted |= {"termination not proved: " + r["ob"] for r in soft}
    trusted |= {"fact about real numbers used without a proof: " + n for n in facts["unproved"]}
    tb = ["clang 18 front end (C++ to LLVM IR, -O0 -frounding-math)", "vc/: the verifier's IR semantics and verification-condition generator",
          "z3, cvc5, Lean 4 with Mathlib (facts about real numbers)", "IEEE 754 semantics of the hardware operations in the current rounding direction"] + sorted(trusted)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "proof",
          "coverage": {"obligations": n_ob, "discharged": n_ok,
                       "checker_cmd": "python3-vt vc/check.py %s %s" % (pid, tier), "trusted_base": tb,
                       "functions_under_contract": len(outs), "policy_contracts_proved_on_their_bodies": sorted(o["key"] for o in couts if o["results"] and not any(engine.bad(r) for r in o["results"])),
                       "helpers_whose_contract_failed_and_whose_bodies_were_used_instead": inlined,
                       "operand_classes": sum(o["cases"] for o in outs),
                       "inlined_library_functions": len(inl),
                       "discharged_by_backend": bes,
                       "facts_about_reals_and_formats_proved_by_lean": {"count": len(facts["proved"]), "names": facts["proved"], "axioms": facts["axioms"],
                                                                        "seconds": round(facts["seconds"], 1)}, "solver_seconds": round(sum(r["s"] for r in tot), 2),
                       "obligations_by_tag": {t: sum(1 for r in tot if r["tag"] == t) for t in sorted({r["tag"] for r in tot})},
                       "vacuous_operand_classes": vac,
                       "instances": sorted({i for i, _ in units}),
                       "bounded_stand_ins": bounded + sorted({b for o in outs for b in o["bounded"]}),
                       "outside_reach": [o["unsupported"] for o in unsup + cunsup],
                       "samples": [r["ob"] for r in tot[:: max(1, len(tot) // 8)]][:8],
                       "native_replay_runs": nat_runs[0],
                       **({"stopped": "at the first confirmed violation"} if stopped else {}),
                       **({"extra": extra["evidence"]} if extra else {})},
          "assumptions": ASSUME + sorted(trusted), "wall_s": round(time.time() - t0, 2), "violations": viol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d/%d obligations discharged (%s), %d units, %d policy contracts, %.1fs" % (
        pid, tier, n_ok, n_ob, ", ".join("%s %d" % kv for kv in sorted(bes.items())), len(outs), len(couts), time.time() - t0))
    print("  %d facts about real numbers and formats proved by Lean%s" % (len(facts["proved"]), "" if not facts["unproved"] else
          "; used without a proof: " + ", ".join(facts["unproved"])))
    for v in vac:
        print("  warning: vacuous operand class", v)
    for r in soft:
        print("  termination not proved:", r["ob"])
    for o in unsup + cunsup:
        print("  outside the verifier's reach:", o["unsupported"][:300])
    for l in lines:
        print(l)
    if os.environ.get("VC_SLOW"):
        for o in sorted(outs, key=lambda o: -o["wall"])[:15]:
            print("   slow", o["unit"], round(o["wall"], 1))
    if not tot or not units:
        print("no obligations generated")
        return 2
    return 1 if lines else 0


ASSUME = ["numbers passed to the library are finite and not NaN where the checking policy does not check them",
          "the operands of one call are either valid intervals or (base/catch checking) the empty interval",
          "no floating-point trap is enabled and no signal handler or other code changes the rounding direction during a call",
          "the template instances checked are the ones listed under instances; the verified text is the LLVM IR clang generates from /repo's headers"]


def replay(pid, P, badl, unsup, cunsup, users, wd, seed, tier, known, deadline):
    units = {}
    ctr = set()
    for r in badl:
        u = r["unit"]
        if u and u[1] in api.BYID:
            units.setdefault(u, []).append(r)
        elif u:
            ctr.add(u[1])
    for o in cunsup:
        ctr.add(o["key"])
    extra_units = []
    for k in ctr:
        extra_units += callers(k, users)[:12]
    un_units = [o["unit"] for o in unsup]
    allu = list(dict.fromkeys(list(units) + extra_units + un_units))
    # keep the effort bounded
    pri = list(units)[:24] + extra_units[:36] + un_units[:40]
    allu = [u for u in allu if u in pri]
    cm = [r["model"] for r in badl if r["model"] and r["unit"] and r["unit"][1] in ctr]
    jobs_ = []
    per = 1500 if tier == "quick" else 6000
    for n, u in enumerate(allu):
        cases, models = native.evidence(u, units.get(u, []), False)
        for m in cm:
            models += native.as_operands(m)
        jobs_.append((u, cases, models, sorted(P.tags), seed, per, wd, n, P.libm, deadline))
    confirmed, bounded, runs = [], [], 0
    for u, rep, n, err in engine.pmap(native.worker, jobs_):
        runs += n
        if rep:
            confirmed.append(rep)
        elif u in un_units:
            bounded.append("bounded: %s.%s native runs: %d %s" % (u[0], u[1], n, err or ""))
    return confirmed, bounded, runs


def callers(k, users):
    us = users.get(k, [])
    return [u for u in us if api.BYID[u[1]].group == "policy"] or us


if __name__ == "__main__":
    main()
