#!/usr/bin/env python3
"""Differential self-test of the verifier's IR semantics: runs the symbolic executor on concrete operands with every callee
inlined (no contracts) and compares outcome, value and rounding direction with a native run of the same wrapper.
usage: selftest.py [number of runs per unit] [seed] [regex on inst.fn]"""
import os, sys, re, random, tempfile, math, shutil
sys.set_int_max_str_digits(0)
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vc"))
import z3
from logic import *
from fpv import *
from theory import *
from sexec import *
import jobs, api, api2, native, engine, spec


class CC(Ctx):
    """concrete arithmetic"""
    def fsqrt(self, x, rm):
        if x.fin() is True and x.r >= 0:
            t, k = Fraction(x.r), 17000
            n = (t.numerator << (2 * k)) // t.denominator
            q = math.isqrt(n)
            ex = q * q == n and (t.numerator << (2 * k)) % t.denominator == 0
            l = Fraction(q, 1 << k) + (0 if ex else Fraction(1, 1 << (k + 1)))
            return self.round(x.fmt, l, rm)
        if x.nan is True or x.ni is True or (x.fin() is True and x.r < 0):
            return FP.NaN(x.fmt)
        return x


def conc_state(inst, fn, ops, rm):
    st = State(rm)
    for k, (p, x) in enumerate(zip(fn.params, ops)):
        st.mem[("A", 8 * k)] = Ptr("arg%d" % k, 0)
        b = "arg%d" % k
        if isinstance(x, spec.IV):
            st.mem[(b, 0)], st.mem[(b, jobs.SZ[x.lo.fmt.name])] = x.lo, x.hi
        elif isinstance(x, FP):
            st.mem[(b, 0)] = x
        else:
            w = 64 if p in "qQ" else 32
            st.mem[(b, 0)] = x if p in "iq" or x < (1 << (w - 1)) else x - (1 << w)
    for j in range(3):
        st.mem[("O", 8 * j)] = Ptr("out%d" % j, 0)
    return st


def same(a, b):
    if isinstance(a, FP) and isinstance(b, FP):
        return f_same(a, b)
    if isinstance(a, spec.IV):
        return And(same(a.lo, b.lo), same(a.hi, b.hi))
    if isinstance(a, tuple):
        return len(a) == len(b) and And(*[same(x, y) for x, y in zip(a, b)])
    if isb(a) and not isinstance(a, z3.ExprRef) or is_num(a):
        return a == b
    return a == b


def val(x):
    if isinstance(x, z3.ExprRef):
        x = z3.simplify(x)
        return True if z3.is_true(x) else False if z3.is_false(x) else x
    return x


def work(a):
    i, fs, n, seed, wd, k = a
    inst = api.INSTS[i]
    fns = [api.BYID[f] for f in fs]
    mod, err = jobs.compile_ir(jobs.tu([(inst, f) for f in fns]), wd, "s%d" % k)
    if err:
        return [("compile", i, str(fs), err[-300:])], 0, 0
    nat = native.Native([(inst, f) for f in fns], wd, "sn%d" % k)
    if nat.err:
        return [("compile", i, str(fs), nat.err[-300:])], 0, 0
    rng = random.Random(seed * 1000 + k)
    out, runs, skipped = [], 0, {}
    for idx, fn in enumerate(fns):
        cases = jobs.all_cases(inst, fn)
        for _ in range(n):
            case = rng.choice(cases)
            ops = native.gen_ops(inst, fn, case, rng)
            if ops is None or (callable(fn.pre) and fn.pre(*ops) is not True):
                continue
            if fn.intpre is not None and jobs.int_exact(inst, fn, ops) is not True:
                continue
            rm = native.unprot_rm(inst, rng)
            kind, rm2, outs, ins = nat.run([(idx, rm, native.slot_bytes(inst, fn, ops, rng))])[0]
            ctx = CC(True)
            ex = Exec(mod, ctx, [])
            ex.unroll = 100000
            try:
                st = conc_state(inst, fn, ops, rm)
                os_ = ex.run(mod.funcs["%s__%s" % (inst.name, fn.id)], [Ptr("O", 0), Ptr("A", 0)], st)
                os_ = [o for o in os_ if all(val(p) is not False for p in o.st.pc)]
            except (Unsupported, ExecLimit, ZeroDivisionError, RecursionError) as e:
                skipped[str(e)[:60]] = skipped.get(str(e)[:60], 0) + 1
                continue
            what = "%s %s(%s) rm=%s ops=%s" % (i, fn.id, ",".join(map(str, case)), rm, [native.show(o) if isinstance(o, (spec.IV, FP)) else o for o in ops])
            if any(isinstance(val(p), z3.ExprRef) for o in os_ for p in o.st.pc):
                skipped["undetermined"] = skipped.get("undetermined", 0) + 1       # sign of a zero divisor
                continue
            runs += 1
            if len(os_) != 1:
                out.append(("outcomes", what, [o.kind for o in os_]))
                continue
            o = os_[0]
            if kind == "abort":
                if o.kind != "abort":
                    out.append(("kind", what, o.kind, kind))
                continue
            if (kind == 0) != (o.kind == "ret") or (kind and o.val != native.KINDS[kind]):
                out.append(("kind", what, o.kind, o.val, kind))
                continue
            r2 = val(o.st.rm)
            if r2 != rm2:
                out.append(("rm", what, r2, rm2))
            if kind == 0:
                a, b = jobs.result_of(inst, fn, o.st), native.result(inst, fn, outs, ins)
                c = val(same(a, b)) if a is not None else False
                if isinstance(c, z3.ExprRef):
                    skipped["undetermined"] = skipped.get("undetermined", 0) + 1
                elif c is not True:
                    out.append(("value", what, native.show(a) if a is not None and not isinstance(a, bool) else a, native.show(b) if not isinstance(b, bool) else b))
    return out, runs, skipped


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 4
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    rx = sys.argv[3] if len(sys.argv) > 3 else ""
    units = {}
    for i in api.INSTS:
        for f in api.FNS:
            if f.applies(api.INSTS[i]) and f.out != "w" and not f.transc and f.group not in ("transc", "periodic") and not callable(f.out) and re.search(rx, "%s.%s" % (i, f.id)):
                units.setdefault(i, []).append(f.id)
    wd = tempfile.mkdtemp(prefix="vcself_")
    try:
        js = []
        for i, fs in units.items():
            for j in range(0, len(fs), 40):
                js.append((i, fs[j:j + 40], n, seed, wd, len(js)))
        tot, sk = 0, {}
        nbad = 0
        for out, runs, skipped in engine.pmap(work, js, int(os.environ.get("NPROC", "8"))):
            tot += runs
            for k, v in (skipped or {}).items():
                sk[k] = sk.get(k, 0) + v
            for o in out[:20]:
                print(*o)
            nbad += len(out)
        print("%d runs, %d disagreements; not compared: %s" % (tot, nbad, sk))
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    return 1 if nbad else 0


if __name__ == "__main__":
    sys.exit(main())
