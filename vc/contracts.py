"""Contracts of the rounding policy classes (the functions every interval
operation depends on).  A contract is both assumed at call sites (apply) and
proved on the function's own body (verify_cases)."""
import re
import z3
from logic import *
from fpv import *
from theory import *
from sexec import Ptr, Outcome, State, UNDEF, LIBM
from irparse import Unsupported
import funcs

TF = {"float": F32, "double": F64, "long double": F80}
RX_ARITH = re.compile(r"boost::numeric::interval_lib::rounded_arith_(opp|std)<(float|double|long double), [^;]*?>::"
                      r"(add|sub|mul|div|sqrt|int|median|conv)(?:_(down|up))?(?:<([a-z ]+)>)?\(")
RX_TRANSC = re.compile(r"boost::numeric::interval_lib::rounded_transc_(opp|std)<(float|double|long double), .*>::"
                       r"(%s)_(down|up)\(" % "|".join(LIBM))


def havoc_rm(ctx):
    m = ctx.fresh("rm", "i")
    ctx.define(m, z3.Or(m == NEAR, m == DOWN, m == UP, m == TZ))
    return m


INTR = {"int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False),
        "long long": (64, True), "unsigned long long": (64, False), "short": (16, True), "char": (8, True),
        "unsigned short": (16, False)}


LIBM_ASSUMED = "libm: the elementary functions honour the current rounding direction and have the usual values at infinities and poles"


class RoundC:
    """one method of rounded_arith_{opp,std} / rounded_transc_{opp,std}"""
    optional = False

    def __init__(s, cls, T, op, d, U, dem, transc=False):
        s.cls, s.T, s.fmt, s.op, s.dir, s.U, s.transc = cls, T, TF[T], op, d, U, transc
        s.key = "%s<%s>::%s%s%s" % (("rounded_transc_" if transc else "rounded_arith_") + cls, T, op,
                                    "_" + d if d else "", "<%s>" % U if U else "")
        s.mode = {"down": DOWN, "up": UP, None: NEAR}[d]

    # the specified value ------------------------------------------------
    def nargs(s):
        return 2 if s.op in ("add", "sub", "mul", "div", "median") else 1

    def spec_val(s, ctx, a):
        m = s.mode
        if s.op in ("add", "sub", "mul", "div"):
            return getattr(ctx, "f" + s.op)(a[0], a[1], m)
        if s.op == "sqrt":
            return ctx.fsqrt(a[0], m)
        if s.op == "int":
            return ctx.frint(a[0], m)
        if s.op == "conv":
            if isinstance(a[0], FP):
                return ctx.convert(a[0], s.fmt, m)
            return ctx.from_int(a[0], s.fmt, m, INTR[s.U][0])
        raise Unsupported(s.op)

    def load_args(s, ex, st, args):
        out = []
        for p in args[1:1 + s.nargs()]:
            out.append(ex.load(st, p, s.argty()))
        if s.op == "conv" and s.U in INTR:
            w, sg = INTR[s.U]
            if not sg:
                out[0] = ex.unsigned(out[0], w)
        return out

    def argty(s):
        from irparse import Ty
        if s.op == "conv":
            if s.U in TF:
                return Ty({"float": "float", "double": "double", "long double": "x86_fp80"}[s.U])
            return Ty("int", INTR[s.U][0])
        return Ty({"F32": "float", "F64": "double", "F80": "x86_fp80"}[s.fmt.name])

    # sound-only value -----------------------------------------------------
    def sound_val(s, ctx, a):
        """what the callers may use when only the rounding direction matters"""
        old = ctx.round

        def rnd(fmt, t, rm):
            if is_num(t) and fmt.rep(Fraction(t)):
                return FP.num(fmt, Fraction(t))
            dn = rm == DOWN
            u = zt(t if dn else neg(t))
            key = ("sound", fmt.name, z3.simplify(u, som=True).get_id())
            if key not in ctx.rd:
                d, b = ctx.fresh("sd"), ctx.fresh("so", "b")
                ctx.add_rep(fmt, d)
                M = fmt.sMAX
                ctx.define(d, Or(b, d <= u), d <= M, -M <= d)
                ctx.rd[key] = (u, (d, b))
            d, b = ctx.rd[key][1]
            return FP(fmt, False, False, b, d) if dn else FP(fmt, False, b, False, -d)
        ctx.round = rnd
        try:
            return s.spec_val(ctx, a)
        finally:
            del ctx.__dict__["round"]

    # call-site rule -----------------------------------------------------
    def apply(s, ex, name, args, st):
        ctx = ex.ctx
        a = s.load_args(ex, st, args)
        if any(v is UNDEF for v in a):
            ex.oblig(st, "arguments of %s are initialised" % s.key, False, "side")
            return []
        if s.cls == "opp" and not (st.rm == UP if isinstance(st.rm, int) else False):
            g = (st.rm == UP)
            ex.oblig(st, "precondition of %s: rounding direction is upward" % s.key, g if not isinstance(g, int) else bool(g), "pre")
        if s.transc:
            ctx.assumed.add(LIBM_ASSUMED)
            v = funcs.libm_value(ctx, s.op, a[0], s.mode)
        elif s.op == "median":
            v = s.median_post(ex, st, a)
        elif ctx.exact or s.op in ("int", "conv", "sqrt"):
            v = s.spec_val(ctx, a)
        else:
            v = s.sound_val(ctx, a)
        if s.cls == "opp":
            st.rm = UP
        else:
            st.rm = havoc_rm(ctx)
        return [Outcome("ret", v, st)]

    def median_post(s, ex, st, a):
        """median(x,y), x <= y: a number m with x <= m <= y; a bound only if no number is strictly between
        is not promised here, only the enclosure and, when both are finite, finiteness"""
        ctx = ex.ctx
        x, y = a
        m = ctx.fp_var("med!%d" % (ctx.n + 1), s.fmt, "any")
        ctx.n += 1
        st.assume(Or(x.nan, y.nan, Not(f_le(x, y)), And(x.ni, y.pi),
                     And(f_le(x, m), f_le(m, y))))
        for n in {id(e[2]): e[2] for e in ctx.__dict__.get("roots", {}).values()}.values():
            funcs.mean_value(ctx, m.r, n)
        return m

    # proof of the contract on the body ----------------------------------
    def cases(s):
        if s.op == "conv" and s.U in INTR:
            return [("int",)]
        kinds = ["fin", "pinf", "ninf", "nan"]
        if s.nargs() == 1:
            return [(k,) for k in kinds]
        if s.op == "median":
            return [("fin", "fin"), ("ninf", "fin"), ("fin", "pinf")]
        return [(k, l) for k in kinds for l in kinds]

    def verify(s, mkexec, name, tags):
        """yields (executor, [Ob])"""
        for case in s.cases():
            ex = mkexec()
            ctx = ex.ctx
            rm0 = UP if s.cls == "opp" else z3.Int("rm0")
            st = State(rm0)
            if not isinstance(rm0, int):
                ctx.define(rm0, z3.Or(rm0 == NEAR, rm0 == DOWN, rm0 == UP, rm0 == TZ))
            vals = []
            argp = [Ptr("this", 0)]
            for i, k in enumerate(case):
                p = Ptr("arg%d" % i, 0)
                if k == "int":
                    w, sg = INTR[s.U]
                    v = z3.Int("n")
                    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
                    ctx.define(v, v >= lo, v <= hi)
                    st.mem[("arg%d" % i, 0)] = v if sg else z3.If(v >= (1 << (w - 1)), v - (1 << w), v)
                    vals.append(v)
                else:
                    f = TF[s.U] if s.op == "conv" else s.fmt
                    v = ctx.fp_var("xy"[i], f, k)
                    st.mem[("arg%d" % i, 0)] = v
                    vals.append(v)
                argp.append(p)
            if s.op == "div":
                st.assume(Not(ctx.zero(vals[1])))
            if s.op == "median":
                ctx.dbl_lemmas = True
                st.assume(f_le(vals[0], vals[1]))
            if s.transc:
                st.assume(funcs.in_domain(ctx, s.op, vals[0]))
            if st.dead():
                continue
            fn = ex.mod.funcs[name]
            outs = ex.run(fn, argp, st)
            nm = "%s(%s)" % (s.key, ",".join(case))
            obs = []
            for o in outs:
                if o.kind != "ret":
                    obs.append(Ob(nm + ": no exception", "policy", o.st.pc, False))
                    continue
                obs += s.post(ctx, o, vals, nm)
            obs += [Ob(nm + ": " + q.name, q.tag, q.pc, q.goal) for q in ex.obs]
            yield ex, obs, case, vals

    def post(s, ctx, o, vals, nm):
        pc = o.st.pc
        r = o.val
        obs = []
        if s.cls == "opp":
            g = o.st.rm == UP
            obs.append(Ob(nm + ": rounding direction is upward again", "policy-rm", pc, g))
        if s.op == "median":
            x, y = vals
            obs.append(Ob(nm + ": lies between its arguments", "policy", pc, And(f_le(x, r), f_le(r, y))))
            return obs
        if s.transc:
            obs.append(Ob(nm + ": on the right side of the real value", "policy", pc, funcs.libm_ok(ctx, s.op, vals[0], s.mode, r)))
            return obs
        e = s.spec_val(ctx, vals)
        dn = s.mode == DOWN
        # direction (soundness): never on the wrong side of the exact value
        snd = Or(And(r.nan, e.nan), And(Not(r.nan), f_le(r, e) if dn else f_le(e, r)))
        # and it must not turn a finite exact value into the far infinity
        snd = And(snd, Implies(Not(e.nan), And(Not(r.nan), Not(r.pi) if dn and e.pi is False else True,
                                               Not(r.ni) if (not dn) and e.ni is False else True)))
        obs.append(Ob(nm + ": rounded in the right direction", "policy", pc, snd))
        obs.append(Ob(nm + ": correctly rounded", "policy-exact", pc, f_same(r, e)))
        return obs


def match(dem, name):
    m = RX_ARITH.match(strip_ret(dem))
    if m:
        cls, T, op, d, U = m.groups()
        if op in ("add", "sub", "mul", "div", "sqrt", "int", "conv") and not d:
            return None
        if op == "median" and d:
            return None
        if op == "conv" and U is None:
            return None
        if op == "conv" and U not in TF and U not in INTR:
            return None
        return RoundC(cls, T, op, d, U, dem)
    m = RX_TRANSC.match(strip_ret(dem))
    if m:
        cls, T, op, d = m.groups()
        return RoundC(cls, T, op, d, None, dem, transc=True)
    return None


def strip_ret(d):
    """drop the return type a demangled template function carries"""
    i = d.find("boost::numeric::interval_lib::rounded_")
    if i > 0 and d[:i].strip() in ("float", "double", "long double"):
        return d[i:]
    return d
