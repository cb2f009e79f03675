"""Contracts of interval-level functions other functions are verified against
(the caller is checked against the contract, the contract on the body)."""
import re
import z3
from logic import *
from fpv import *
from theory import *
from sexec import Ptr, Outcome, State, UNDEF
from spec import IV
from irparse import Unsupported
import funcs, loops, lemmas

TF = {"float": F32, "double": F64, "long double": F80}
SZ = {"F32": 4, "F64": 8, "F80": 16}


def rounding_of(d):
    """(policy class, protected?) of the interval type in a demangled name"""
    cls = "opp" if "rounded_arith_opp<" in d else "std" if "rounded_arith_std<" in d else None
    m = re.search(r"policies<boost::numeric::interval_lib::(detail::save_state_unprotected|save_state_nothing|save_state)<", d)
    if cls is None or m is None:
        return None
    return cls, m.group(1) == "save_state"


def is_wf(x):
    return And(Not(x.lo.nan), Not(x.hi.nan), Not(x.lo.pi), Not(x.hi.ni), f_le(x.lo, x.hi))


def ikey(x):
    if is_num(x.lo.r) or is_num(x.hi.r):
        return None
    return (x.lo.r.get_id(), x.hi.r.get_id())


def members(ctx, st, x):
    """ghost elements of an interval value: (real term, condition under which it is an element)"""
    out = []
    if x.single():
        return [(x.lo.r, x.lo.fin())]
    reg = ctx.__dict__.setdefault("members", {})
    return list(reg.get(ikey(x), ()))


class IvContract:
    """contract of a function on intervals: pre(operands) => post(result)"""
    prot = False
    optional = False        # an internal helper: where its contract fails, its users are verified with its body instead

    @property
    def uses(s):
        return [match, match_pow]

    def ty(s):
        from irparse import Ty
        return Ty({"F32": "float", "F64": "double", "F80": "x86_fp80"}[s.fmt.name])

    def ldn(s, ex, st, p):
        return ex.load(st, p, s.ty())

    def ldi(s, ex, st, p):
        lo, hi = ex.load(st, p, s.ty()), ex.load(st, Ptr(p.b, p.o + SZ[s.fmt.name]), s.ty())
        if lo is UNDEF or hi is UNDEF:
            return UNDEF
        x = IV(lo, hi, False)
        x.single = lambda: (lo is hi) or (not is_num(lo.r) and not is_num(hi.r) and z3.simplify(lo.r).eq(z3.simplify(hi.r))) or (is_num(lo.r) and is_num(hi.r) and lo.r == hi.r)
        return x

    def result(s, ex, st, out, nm):
        ctx = ex.ctx
        ctx.n += 1
        rl = FP(s.fmt, False, False, ctx.fresh(nm + "ni", "b"), ctx.fp_var("%sl!%d" % (nm, ctx.n), s.fmt, "fin").r)
        rh = FP(s.fmt, False, ctx.fresh(nm + "pi", "b"), False, ctx.fp_var("%sh!%d" % (nm, ctx.n), s.fmt, "fin").r)
        r = IV(rl, rh, False)
        st.assume(f_le(rl, rh))
        ex.store(st, out, rl)
        ex.store(st, Ptr(out.b, out.o + SZ[s.fmt.name]), rh)
        if not s.prot:
            st.rm = UP if s.cls == "opp" else ctx.fresh_rm()
        return r

    def require(s, ex, st, good):
        if s.cls == "opp" and not s.prot:
            ex.oblig(st, "precondition of %s: rounding direction is upward" % s.nm, st.rm == UP, "pre")
        ex.oblig(st, "precondition of " + s.nm, good, "pre")
        st.assume(good)

    def missing(s, ex, st):
        ex.oblig(st, "arguments of %s are initialised" % s.nm, False, "side")
        return []

    def give(s, ctx, r, t, guard):
        """t is an element of r when guard holds"""
        f = Implies(guard, r.contains(t))
        for v in (r.lo.r, r.hi.r):
            ctx.define(v, f)
        ctx.__dict__.setdefault("members", {}).setdefault(ikey(r), []).append((t, guard))

    def start(s, ex):
        ctx = ex.ctx
        if s.cls == "opp" and not s.prot:
            rm0 = UP
        else:
            rm0 = z3.Int("rm0")
            ctx.define(rm0, z3.Or(rm0 == NEAR, rm0 == DOWN, rm0 == UP, rm0 == TZ))
        return State(rm0), rm0

    def operand(s, ctx, st, blk, c, j):
        from jobs import ICASES
        lo, hi = ctx.fp_var("l%d" % j, s.fmt, ICASES[c][0]), ctx.fp_var("u%d" % j, s.fmt, ICASES[c][1])
        if c == "f":
            st.assume(le(lo.r, hi.r))
        st.mem[(blk, 0)], st.mem[(blk, SZ[s.fmt.name])] = lo, hi
        return IV(lo, hi, False)

    def element(s, ctx, x):
        a = ctx.fresh("m")
        return a, [Or(x.lo.ni, And(x.lo.fin(), le(x.lo.r, a))), Or(x.hi.pi, And(x.hi.fin(), le(a, x.hi.r)))]

    def outcomes(s, ex, outs, nm, rm0):
        """(outcome, result, obligations common to every contract)"""
        for o in outs:
            if o.kind != "ret":
                yield None, None, [Ob(nm + ": no exception", "callee", o.st.pc, False)]
                continue
            rl, rh = o.st.mem.get(("r", 0)), o.st.mem.get(("r", SZ[s.fmt.name]))
            if not isinstance(rl, FP) or not isinstance(rh, FP):
                yield None, None, [Ob(nm + ": result is initialised", "side", o.st.pc, False)]
                continue
            r = IV(rl, rh, False)
            g = True
            if s.prot:
                g = o.st.rm == rm0
            elif s.cls == "opp":
                g = o.st.rm == UP
            yield o, r, [Ob(nm + ": result is a well-formed interval", "callee", o.st.pc, is_wf(r)), Ob(nm + ": rounding direction", "callee-rm", o.st.pc, g)]


OPN = {"mi": "-", "pl": "+", "ml": "*", "dv": "/"}


class OpC(IvContract):
    """x op y on well-formed intervals and finite numbers, divisor other than [0,0]: the result is a well-formed
    interval that contains a op b for every element a of x and b of y (b non-zero for /)"""

    def __init__(s, key, T, cls, prot, op, kinds):
        s.key, s.T, s.fmt, s.cls, s.prot, s.op, s.kinds = key, T, TF[T], cls, prot, op, kinds
        s.nm = "%s%s<%s> %s" % (kinds, op, T, cls)

    def value(s, ctx, a, b):
        if s.op == "+":
            return add(a, b)
        if s.op == "-":
            return add(a, neg(b))
        if s.op == "*":
            return mul(a, b)
        return ctx.quotient(a, b)

    def apply(s, ex, name, args, st):
        ctx = ex.ctx
        ops = [(s.ldi if k == "I" else s.ldn)(ex, st, p) for k, p in zip(s.kinds, args[1:])]
        if any(o is UNDEF for o in ops):
            return s.missing(ex, st)
        good = And(*[is_wf(o) if k == "I" else o.fin() for k, o in zip(s.kinds, ops)])
        if s.op == "/":
            d = ops[1]
            good = And(good, Or(d.hi.pi, gt(d.hi.r, Fraction(0)), d.lo.ni, lt(d.lo.r, Fraction(0))) if s.kinds[1] == "I" else Not(eq(d.r, Fraction(0))))
        s.require(ex, st, good)
        ms = [members(ctx, st, o) if k == "I" else [(o.r, o.fin())] for k, o in zip(s.kinds, ops)]
        r = s.result(ex, st, args[0], "op")
        for a, ga in ms[0][:4]:
            for b, gb in ms[1][:4]:
                g = And(ga, gb)
                if s.op == "/":
                    g = And(g, Not(eq(b, Fraction(0))))
                s.give(ctx, r, s.value(ctx, a, b), g)
        return [Outcome("ret", None, st)]

    def verify(s, mkexec, name, tags):
        for c0 in ("frlw" if s.kinds[0] == "I" else "n"):
            for c1 in ("frlw" if s.kinds[1] == "I" else "n"):
                ex = mkexec()
                ctx = ex.ctx
                st, rm0 = s.start(ex)
                els, hyp, ops = [], [], []
                for j, (k, c) in enumerate(zip(s.kinds, (c0, c1))):
                    if k == "I":
                        x = s.operand(ctx, st, "x%d" % j, c, j)
                        a, h = s.element(ctx, x)
                    else:
                        x = ctx.fp_var("n%d" % j, s.fmt, "fin")
                        st.mem[("x%d" % j, 0)] = x
                        a, h = x.r, []
                    ops.append(x)
                    els.append(a)
                    hyp += h
                if s.op == "/":
                    d = ops[1]
                    st.assume(Not(And(d.lo.fin(), d.hi.fin(), eq(d.lo.r, Fraction(0)), eq(d.hi.r, Fraction(0)))) if s.kinds[1] == "I" else Not(eq(d.r, Fraction(0))))
                    hyp.append(Not(eq(els[1], Fraction(0))))
                outs = ex.run(ex.mod.funcs[name], [Ptr("r", 0), Ptr("x0", 0), Ptr("x1", 0)], st)
                nm = "%s (%s,%s)" % (s.nm, c0, c1)
                obs = [Ob(nm + ": " + q.name, q.tag, q.pc, q.goal) for q in ex.obs]
                for o, r, obl in s.outcomes(ex, outs, nm, rm0):
                    obs += obl
                    if o:
                        obs.append(Ob(nm + ": contains every result", "callee-incl", o.st.pc + hyp, r.contains(s.value(ctx, *els))))
                yield ex, obs, (c0, c1), None


class RootC(IvContract):
    """root_aux(x,k), x a number above one or +infinity, 1 <= k representable in T: a well-formed interval whose bounds are at least
    one, that contains the k-th root of a finite x and is unbounded above for an infinite one"""
    optional = True

    def __init__(s, key, T, cls, prot):
        s.key, s.T, s.fmt, s.cls, s.prot = key, T, TF[T], cls, prot
        s.nm = "root_aux<%s> %s" % (T, cls)

    def apply(s, ex, name, args, st):
        ctx = ex.ctx
        out, px, n = args
        x = s.ldn(ex, st, px)
        if x is UNDEF or n is UNDEF:
            return s.missing(ex, st)
        s.require(ex, st, And(Not(x.nan), Not(x.ni), Or(x.pi, ge(x.r, Fraction(1))), ge(n, 1), le(n, 2 ** s.fmt.p)))
        r = s.result(ex, st, out, "rt")
        st.assume(Not(r.lo.ni), ge(r.lo.r, Fraction(1)), Implies(x.pi, r.hi.pi))
        if x.fin() is not False:
            s.give(ctx, r, funcs.nth_root(ctx, x.r, n), x.fin())
        return [Outcome("ret", None, st)]

    def verify(s, mkexec, name, tags):
        for c in ("fin", "pinf"):
            ex = mkexec()
            ctx = ex.ctx
            ex.loop_rules.append(loops.Houdini(loops.root_grammar))
            st, rm0 = s.start(ex)
            x = ctx.fp_var("x", s.fmt, c)
            st.mem[("x", 0)] = x
            n = z3.Int("i1")
            ctx.define(n, n >= 1, n <= 2 ** s.fmt.p if s.fmt.p < 31 else n < 2 ** 31)
            ctx.small_int = {n.get_id(): s.fmt.p}        # |n| <= 2^p: the conversion to T is exact
            if c == "fin":
                st.assume(ge(x.r, Fraction(1)))
                root = funcs.nth_root(ctx, x.r, n)
            outs = ex.run(ex.mod.funcs[name], [Ptr("r", 0), Ptr("x", 0), n], st)
            nm = "%s(%s,k)" % (s.nm, c)
            obs = [Ob(nm + ": " + q.name, q.tag, q.pc, q.goal) for q in ex.obs]
            for o, r, obl in s.outcomes(ex, outs, nm, rm0):
                obs += obl
                if o:
                    obs.append(Ob(nm + ": bounds are at least one", "callee", o.st.pc, And(Not(r.lo.ni), Or(r.lo.pi, ge(r.lo.r, Fraction(1))))))
                    obs.append(Ob(nm + ": contains the root" if c == "fin" else nm + ": is unbounded", "callee-incl", o.st.pc, r.contains(root) if c == "fin" else r.hi.pi))
            yield ex, obs, (c,), None


class PowC(IvContract):
    """interval pow(interval const&, int), n >= 0 and a well-formed operand (not [0,0] when n = 0): the result is a well-formed
    interval that contains a^n for every a in the operand, and whose bounds are at least one when a's are"""

    def __init__(s, key, T, cls, prot):
        s.key, s.T, s.fmt, s.cls, s.prot = key, T, TF[T], cls, prot
        s.nm = "pow<%s> %s" % (T, cls)

    def apply(s, ex, name, args, st):
        ctx = ex.ctx
        out, px, n = args
        x = s.ldi(ex, st, px)
        if x is UNDEF or n is UNDEF:
            return s.missing(ex, st)
        s.require(ex, st, And(is_wf(x), Or(ge(n, 1), And(eq(n, 0), Or(x.lo.ni, x.hi.pi, Not(eq(x.lo.r, Fraction(0))), Not(eq(x.hi.r, Fraction(0))))))))
        if x.single():
            funcs.mean_value(ctx, x.lo.r, n)
        ms = members(ctx, st, x)
        seen = frozenset().union(*(vars_of(p) for p in st.pc if not isb(p)))
        for p, b in ctx.__dict__.get("points", []):
            if vars_of(b) <= seen:
                ms.append((p, x.contains(p)))
        r = s.result(ex, st, out, "pow")
        st.assume(Implies(And(x.lo.fin(), ge(x.lo.r, Fraction(1))), And(r.lo.fin(), ge(r.lo.r, Fraction(1)))))
        for a, g in ms[:6]:
            s.give(ctx, r, funcs.ipow(ctx, a, n), g)
        return [Outcome("ret", None, st)]

    def verify(s, mkexec, name, tags):
        for c in "frlw":
            ex = mkexec()
            ctx = ex.ctx
            ex.loop_rules.append(loops.Houdini(loops.pow_grammar))
            st, rm0 = s.start(ex)
            x = s.operand(ctx, st, "x", c, 0)
            if c == "f":
                st.assume(Or(z3.Int("i1") >= 1, Not(eq(x.lo.r, Fraction(0))), Not(eq(x.hi.r, Fraction(0)))))
            n = z3.Int("i1")
            ctx.define(n, n >= 0, n < 2**31)
            outs = ex.run(ex.mod.funcs[name], [Ptr("r", 0), Ptr("x", 0), n], st)
            nm = "%s(%s,n)" % (s.nm, c)
            obs = [Ob(nm + ": " + q.name, q.tag, q.pc, q.goal) for q in ex.obs]
            for o, r, obl in s.outcomes(ex, outs, nm, rm0):
                obs += obl
                if not o:
                    continue
                a, hyp = s.element(ctx, x)
                p, q = funcs.ipow(ctx, a, n), funcs.ipow(ctx, neg(a), n)
                ctx.define(p, *lemmas.pow_parity(n, p, q))
                obs.append(Ob(nm + ": contains every power", "callee-incl", o.st.pc + hyp, r.contains(p)))
                if c in "fr":
                    obs.append(Ob(nm + ": at least one when the operand is", "callee", o.st.pc + [ge(x.lo.r, Fraction(1))], And(r.lo.fin(), ge(r.lo.r, Fraction(1)))))
            yield ex, obs, (c, "int"), None


class PowSideC(IvContract):
    """pow_dn / pow_up (x,n): x a number >= 0 (infinite only for pow_up), n >= 1: a number >= 0 on the lower / upper side of x^n,
    zero when x is, at least one when x is, finite from pow_dn, infinite from pow_up when x is"""
    optional = True

    def __init__(s, key, T, cls, side):
        s.key, s.T, s.fmt, s.cls, s.up = key, T, TF[T], cls, side == "up"
        s.nm = "pow_%s<%s> %s" % (side, T, cls)

    def good(s, x, n):
        return And(Not(x.nan), Not(x.ni), Or(x.pi if s.up else False, And(x.fin(), ge(x.r, Fraction(0)))), ge(n, 1))

    def bounds(s, ctx, x, n, r):
        """[(name, tag, formula)]"""
        z, one = Fraction(0), Fraction(1)
        p = funcs.ipow(ctx, x.r, n)
        side = ge(r.r, p) if s.up else le(r.r, p)
        return [("not NaN and not negative", "callee", And(Not(r.nan), Not(r.ni), Or(r.pi if s.up else False, And(r.fin(), ge(r.r, z))))),
                ("infinite when x is", "callee", Implies(x.pi, r.pi)) if s.up else ("finite", "callee", r.fin()),
                ("zero when x is", "callee", Implies(And(x.fin(), eq(x.r, z)), And(r.fin(), eq(r.r, z)))),
                ("at least one when x is", "callee", Implies(And(x.fin(), ge(x.r, one)), Or(r.pi, ge(r.r, one)))),
                ("on the right side of the power", "callee-incl", Implies(x.fin(), Or(r.pi, side)))]

    def apply(s, ex, name, args, st):
        ctx = ex.ctx
        px, n = args[0], args[1]
        x = s.ldn(ex, st, px)
        if x is UNDEF or n is UNDEF:
            return s.missing(ex, st)
        if s.cls == "opp":
            ex.oblig(st, "precondition of %s: rounding direction is upward" % s.nm, st.rm == UP, "pre")
        g = s.good(x, n)
        ex.oblig(st, "precondition of " + s.nm, g, "pre")
        st.assume(g)
        ctx.n += 1
        v = ctx.fp_var("pws!%d" % ctx.n, s.fmt, "fin").r
        r = FP(s.fmt, False, ctx.fresh("pwi", "b") if s.up else False, False, v)
        for _, _, f in s.bounds(ctx, x, n, r):
            st.assume(f)
        st.rm = UP if s.cls == "opp" else ctx.fresh_rm()
        return [Outcome("ret", r, st)]

    def verify(s, mkexec, name, tags):
        for c in ("fin", "pinf") if s.up else ("fin",):
            ex = mkexec()
            ctx = ex.ctx
            ex.loop_rules.append(loops.Houdini(loops.pow_grammar))
            if s.cls == "opp":
                rm0 = UP
            else:
                rm0 = z3.Int("rm0")
                ctx.define(rm0, z3.Or(rm0 == NEAR, rm0 == DOWN, rm0 == UP, rm0 == TZ))
            st = State(rm0)
            x = ctx.fp_var("x", s.fmt, c)
            st.mem[("x", 0)] = x
            n = z3.Int("i1")
            ctx.define(n, n >= 1, n < 2**31)
            st.assume(s.good(x, n))
            outs = ex.run(ex.mod.funcs[name], [Ptr("x", 0), n, Ptr("rnd", 0)], st)
            nm = "%s(%s,n)" % (s.nm, c)
            obs = [Ob(nm + ": " + q.name, q.tag, q.pc, q.goal) for q in ex.obs]
            for o in outs:
                if o.kind != "ret":
                    obs.append(Ob(nm + ": no exception", "callee", o.st.pc, False))
                    continue
                if s.cls == "opp":
                    obs.append(Ob(nm + ": rounding direction", "callee-rm", o.st.pc, o.st.rm == UP))
                for what, tag, f in s.bounds(ctx, x, n, o.val):
                    obs.append(Ob(nm + ": " + what, tag, o.st.pc, f))
            yield ex, obs, (c, "int"), None


class CosC(IvContract):
    """cos of a well-formed interval: a well-formed interval within [-1,1] that contains the cosine of every element"""
    not_from_wrapper = True

    def __init__(s, key, T, cls, prot):
        s.key, s.T, s.fmt, s.cls, s.prot = key, T, TF[T], cls, prot
        s.nm = "cos<%s> %s" % (T, cls)

    @property
    def uses(s):
        return [match_cos]

    def apply(s, ex, name, args, st):
        ctx = ex.ctx
        out, px = args
        x = s.ldi(ex, st, px)
        if x is UNDEF:
            return s.missing(ex, st)
        s.require(ex, st, is_wf(x))
        w = ex.__dict__.get("recursion")
        if w is not None and loops.TERM:
            ex.oblig(st, "recursion variant: the lower bound is not negative, and decreases from a non-negative one",
                     And(x.lo.fin(), ge(x.lo.r, Fraction(0)), Or(w.lo.ni, lt(w.lo.r, Fraction(0)), lt(x.lo.r, w.lo.r))), "term")
        r = s.result(ex, st, out, "cos")
        st.assume(f_le(FP.num(None, -1), r.lo), f_le(r.hi, FP.num(None, 1)))
        # instances for the elements in sight and what argument reduction makes of them
        half = mul(Fraction(1, 2), funcs.pi(ctx))
        for a, _ in ctx.__dict__.get("elements", ()):
            ts = [a, add(a, neg(half)), add(a, half), add(a, neg(funcs.pi(ctx)))]
            for n in list(ctx.reps.get("Z", {}).values()):
                for w, _ in funcs.reduced(ctx, "cos", a, n):
                    ts.append(w)
            for t in ts:
                f = Implies(x.contains(t), r.contains(funcs.fapp(ctx, "cos", t)))
                for v in (r.lo.r, r.hi.r):
                    ctx.define(v, f)
        return [Outcome("ret", None, st)]

    def verify(s, mkexec, name, tags):
        for c in "frlw":
            ex = mkexec()
            ctx = ex.ctx
            st, rm0 = s.start(ex)
            x = s.operand(ctx, st, "x", c, 0)
            a, hyp = s.element(ctx, x)
            ctx.elements = [(a, x)]
            ex.recursion = x
            outs = ex.run(ex.mod.funcs[name], [Ptr("r", 0), Ptr("x", 0)], st)
            nm = "%s(%s)" % (s.nm, c)
            obs = [Ob(nm + ": " + q.name, q.tag, q.pc, q.goal) for q in ex.obs]
            for o, r, obl in s.outcomes(ex, outs, nm, rm0):
                obs += obl
                if not o:
                    continue
                obs.append(Ob(nm + ": contains the cosine of every element", "callee-incl", o.st.pc + hyp, r.contains(funcs.periodic(ctx, "cos", a))))
                obs.append(Ob(nm + ": lies within [-1,1]", "callee", o.st.pc, And(f_le(FP.num(None, -1), r.lo), f_le(r.hi, FP.num(None, 1)))))
            yield ex, obs, (c,), None


def match_cos(dem, name):
    if not re.match(r"_ZN5boost7numeric3cosI", name):
        return None
    r = rounding_of(dem)
    t = RXT.search(dem)
    if not r or not t or not dem.endswith(")"):
        return None
    return CosC(dem, t.group(1), *r)


def add_point(ctx, a, b):
    """a: a ghost real introduced for the number b"""
    ctx.__dict__.setdefault("points", []).append((a, b))


def tail_args(dem, T):
    """kinds (I interval, N number) of the arguments of a demangled function"""
    d, i = 0, len(dem) - 1
    assert dem[i] == ")"
    for j in range(i, -1, -1):
        d += {")": 1, "(": -1}.get(dem[j], 0)
        if d == 0:
            break
    out, d, cur = [], 0, ""
    for ch in dem[j + 1:i]:
        d += {"<": 1, "(": 1, ">": -1, ")": -1}.get(ch, 0)
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    ks = ""
    for a in out:
        if re.match(r"boost::numeric::interval<.*> const&$", a):
            ks += "I"
        elif a == T + " const&":
            ks += "N"
        elif a == "int":
            ks += "i"
        else:
            return None
    return ks


NOOPT = False       # inline the optional contracts' bodies instead


def match_pow(dem, name):
    m = re.match(r"_ZN5boost7numeric12interval_lib6detail6pow_(dn|up)I", name)
    if not m or NOOPT:
        return None
    a = re.search(r"\((float|double|long double) const&, int, boost::numeric::interval_lib::(?:(?:detail::)?save_state|rounded_math).*&\)$", dem)
    cls = "std" if "rounded_arith_std<" in dem else "opp" if "rounded_arith_opp<" in dem or "rounded_math<" in dem else None
    return PowSideC(dem, a.group(1), cls, m.group(1)) if a and cls else None


RXT = re.compile(r"boost::numeric::interval<(float|double|long double), ")


def match(dem, name):
    m = re.match(r"_ZN5boost7numeric(?:(mi|pl|ml|dv)|(3pow)|(12interval_lib6detail8root_aux))I", name)
    if not m:
        return None
    r = rounding_of(dem)
    t = RXT.search(dem)
    if not r or not t or not dem.endswith(")"):
        return None
    T = t.group(1)
    if m.group(3):
        return None if NOOPT else RootC(dem, T, *r)
    ks = tail_args(dem, T)
    if m.group(2):
        return PowC(dem, T, *r) if ks == "Ii" else None
    if ks in ("II", "IN", "NI") and dem.count("policies<") >= 1:
        return OpC(dem, T, r[0], r[1], OPN[m.group(1)], ks)
    return None
