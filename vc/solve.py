"""Discharging one obligation: z3 first, then z3's nlsat tactic, then cvc5."""
import time
import z3
from logic import *
from theory import ExecLimit

BACKENDS = ("evaluation", "z3", "z3-nlsat", "cvc5")


def model_of(m):
    out = {}
    for d in m.decls():
        v = m[d]
        try:
            if z3.is_rational_value(v):
                out[d.name()] = v.as_fraction()
            elif z3.is_int_value(v):
                out[d.name()] = v.as_long()
            elif z3.is_algebraic_value(v):
                out[d.name()] = v.approx(30).as_fraction()
            elif z3.is_true(v) or z3.is_false(v):
                out[d.name()] = z3.is_true(v)
        except Exception:
            pass
    return out


def nlsat(facts, ms):
    try:
        s = z3.Then("simplify", "solve-eqs", "elim-uncnstr", "purify-arith", "qfnra-nlsat").solver()
        s.set("timeout", int(ms))
        for f in facts:
            s.add(f)
        return str(s.check())
    except z3.Z3Exception:
        return "unknown"


def cvc5_check(fs, ms):
    import cvc5
    s = z3.Solver()
    for f in fs:
        s.add(f)
    txt = s.to_smt2()
    tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
    slv = cvc5.Solver(tm) if tm else cvc5.Solver()
    slv.setOption("tlimit-per", str(int(ms)))
    slv.setOption("nl-ext-tplanes", "true")
    p = cvc5.InputParser(slv)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + txt, "ob")
    sm = p.getSymbolManager()
    res = "unknown"
    while True:
        c = p.nextCommand()
        if c.isNull():
            break
        r = c.invoke(slv, sm)
        if str(r).strip() in ("sat", "unsat", "unknown"):
            res = str(r).strip()
    return res


def solve(ctx, ob, deadline, hard=True, first=4000):
    """-> (status, backend, model, seconds)   status: proved | refuted | unknown"""
    t0 = time.time()
    if ob.goal is True or any(p is False for p in ob.pc):
        return "proved", "evaluation", None, 0.0
    fs = [f for f in ob.pc if f is not True] + ([] if ob.goal is False else [Not(ob.goal)])
    g = None
    if isinstance(ob.goal, z3.ExprRef):
        g = z3.simplify(ob.goal)
        if z3.is_true(g):
            return "proved", "evaluation", None, time.time() - t0
    model = None
    stages = []
    if ctx.exact or ctx.use_lemmas:
        stages = [("z3", False, 700), ("z3", True, first)]
    else:
        stages = [("z3", False, first), ("z3", True, first)]
    if hard:
        stages += [("z3-nlsat", True, 10000), ("cvc5", True, 15000), ("z3", True, 30000)]
    sat = False
    for be, lem, ms in stages:
        left = (deadline - time.time()) * 1000
        if left < 200:
            raise ExecLimit("the time budget is used up")
        ms = min(ms, left)
        if be == "z3":
            r, m = ctx.check(fs, ms, lemmas=lem, want_model=True)
            if r == "unsat":
                return "proved", "z3", None, time.time() - t0
            if m is not None:
                model = model_of(m)
            if r == "sat" and lem:
                sat = True
                break
        else:
            facts = [zt(f) for f in fs] + ctx.gather(fs, lem) + ctx.hyps
            if be == "z3-nlsat":
                if nlsat(facts, ms) == "unsat":
                    return "proved", be, None, time.time() - t0
            else:
                try:
                    if cvc5_check(facts, ms) == "unsat":
                        return "proved", be, None, time.time() - t0
                except Exception:
                    pass
    return ("refuted" if sat else "unknown"), None, model, time.time() - t0
