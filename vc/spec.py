"""Specification context.  The same specification functions are evaluated
 - symbolically (claims become proof obligations over z3 terms), and
 - concretely (claims are evaluated on exact rationals) when a counterexample
   is replayed against the natively compiled code."""
from logic import *
from fpv import *
import theory
import z3
from theory import DOWN, UP, NEAR, TZ

Z = Fraction(0)
PI_NUM = Fraction(31415926535897932384626433832795, 10**31)
ONE = Fraction(1)


class IV:
    """an interval operand / result"""
    __slots__ = ("lo", "hi", "empty", "single")

    def __init__(s, lo, hi, empty=None):
        s.lo, s.hi = lo, hi
        s.empty = Not(f_le(lo, hi)) if empty is None else empty

    def contains(s, t):
        return And(fp_le_t(s.lo, t), t_le_fp(t, s.hi))

    def __repr__(s):
        return "[%r, %r]" % (s.lo, s.hi)


def ext(r):
    return FP(None, False, False, False, r)


def ext_of(x):
    return FP(None, x.nan, x.pi, x.ni, x.r)


INF = FP.pinf(None)
NINF = FP.ninf(None)


def only(c, e):
    """extended value e, present only when c holds (otherwise nan = absent)"""
    return FP(None, Or(e.nan, Not(c)), And(c, e.pi), And(c, e.ni), e.r)


def _pos(x):
    return Or(x.pi, And(x.fin(), gt(x.r, Z)))


def _neg(x):
    return Or(x.ni, And(x.fin(), lt(x.r, Z)))


def _zero(x):
    return And(x.fin(), eq(x.r, Z))


def e_add(x, y):
    nan = Or(x.nan, y.nan, And(x.pi, y.ni), And(x.ni, y.pi))
    return FP(None, nan, And(Not(nan), Or(x.pi, y.pi)), And(Not(nan), Or(x.ni, y.ni)), add(x.r, y.r))


def e_mul(x, y):
    """0 * inf = 0"""
    inf = Or(x.is_inf(), y.is_inf())
    if inf is False:
        return FP(None, Or(x.nan, y.nan), False, False, mul(x.r, y.r))
    z = Or(_zero(x), _zero(y))
    pi = And(inf, Or(And(_pos(x), _pos(y)), And(_neg(x), _neg(y))))
    ni = And(inf, Or(And(_pos(x), _neg(y)), And(_neg(x), _pos(y))))
    return FP(None, Or(x.nan, y.nan), pi, ni, Ite(z, Z, mul(x.r, y.r)))


class Spec:
    """common part"""

    def __init__(self, inst):
        self.inst = inst
        self.fmt = inst.fmt
        self.claims = []      # (tag, name, cond)
        self.cond = True      # claims made now hold under this condition
        self.empty_when = False   # operands for which the result is the empty interval
        self.throw_when = False   # operands for which comparison_error is thrown
        self.may_throw = False    # operands for which a throwing policy may refuse the call although other results are defined

    def claim(self, tag, name, cond, hyp=()):
        c = Implies(And(*hyp), cond) if hyp else cond
        self.claims.append((tag, name, Implies(self.cond, c)))

    def claims_if(self, cond, f):
        if cond is False:
            return
        old = self.cond
        self.cond = And(old, cond)
        f()
        self.cond = old

    def no_result_when(self, c):
        """operands outside the function's domain: the result is the empty interval"""
        self.empty_when = Or(self.empty_when, c)
        self.cond = And(self.cond, Not(c))

    def int_num(self, i):
        return FP.num(self.fmt, i) if is_num(i) else FP(self.fmt, False, False, False, real(i))

    def e_div(self, x, y):
        """corner quotient; absent when y is 0 or both infinite; c/inf = 0"""
        bad = Or(x.nan, y.nan, And(x.is_inf(), y.is_inf()), _zero(y))
        xi, yi = x.is_inf(), y.is_inf()
        pi = And(xi, Not(bad), Or(And(_pos(x), _pos(y)), And(_neg(x), _neg(y))))
        ni = And(xi, Not(bad), Or(And(_pos(x), _neg(y)), And(_neg(x), _pos(y))))
        if yi is True or xi is True:
            q = Z
        else:
            q = self.quot(x.r, y.r)
        return FP(None, bad, pi, ni, Ite(yi, Z, q))

    def round_ext(self, c, mode, fmt=None):
        fmt = fmt or self.fmt
        if c.fin() is False:
            return FP(fmt, c.nan, c.pi, c.ni, Z)
        R = self.round(fmt, c.r, mode)
        f = And(Not(c.pi), Not(c.ni))
        return FP(fmt, False, Or(c.pi, And(f, R.pi)), Or(c.ni, And(f, R.ni)), R.r)

    # -- claims on results
    def tight(self, name, b, mode, corners, tag="tight"):
        """bound b is the directed rounding of one of the corner values"""
        alts = []
        for c in corners:
            if c.nan is True:
                continue
            alts.append(And(Not(c.nan), f_eq(b, self.round_ext(c, mode))))
        self.claim(tag, name, Or(*alts))

    def tight_iv(self, r, corners, tag="tight"):
        self.tight("lower bound is the best one", r.lo, DOWN, corners, tag)
        self.tight("upper bound is the best one", r.hi, UP, corners, tag)

    def tight_sqrt(self, b, mode, xb, r, name):
        """b is the directed rounding of the square root of max(0, xb)"""
        nonneg = And(xb.fin(), ge(xb.r, Z))
        alts = [And(nonneg, f_eq(b, self.sqrt_round(xb.r, mode))) if nonneg is not False else False,
                And(Or(xb.ni, And(xb.fin(), lt(xb.r, Z))), f_eq(b, FP.num(self.fmt, 0))),
                And(xb.pi, b.pi)]
        self.claim("tight", name, Or(*alts))

    def rnd_op(self, op, mode, a, w=64):
        """the value a correctly rounding operation returns"""
        c = self.ctx if self.sym else theory.Ctx()
        if op == "sqrt":
            if not self.sym and a[0].fin() is True:
                if a[0].r < 0:
                    return FP.NaN(a[0].fmt)
                return self.sqrt_round(a[0].r, mode)
            return c.fsqrt(a[0], mode)
        if op == "int":
            return c.frint(a[0], mode)
        if op == "conv":
            if isinstance(a[0], FP):
                return c.convert(a[0], self.fmt, mode)
            return c.from_int(a[0], self.fmt, mode, w)
        return getattr(c, "f" + op)(a[0], a[1], mode)

    def well_formed(self, r):
        return And(Not(r.lo.nan), Not(r.hi.nan), Not(r.lo.pi), Not(r.hi.ni), f_le(r.lo, r.hi))

    def valid(self, r, tag="valid", name="result is a well-formed interval"):
        self.claim(tag, name, self.well_formed(r))
        self.claim("nonempty", "result is not empty where the operation is defined", f_le(r.lo, r.hi))


class SymSpec(Spec):
    def __init__(self, inst, ctx):
        super().__init__(inst)
        self.ctx = ctx
        self.sym = True
        self.hyps = []

    def members(self, x, n=2):
        for a, y in self.ctx.__dict__.get("elements", ()):
            if y is x:
                self.hyps += [Or(x.lo.ni, And(x.lo.fin(), le(x.lo.r, a))), Or(x.hi.pi, And(x.hi.fin(), le(a, x.hi.r)))]
                return [a]
        a = self.ctx.fresh("m")
        self.hyps += [Or(x.lo.ni, And(x.lo.fin(), le(x.lo.r, a))), Or(x.hi.pi, And(x.hi.fin(), le(a, x.hi.r)))]
        return [a]

    def quot(self, a, b):
        return self.ctx.quotient(a, b)

    def round(self, fmt, t, mode):
        return self.ctx.round(fmt, t, mode)

    def sqrt_round(self, t, mode):
        return self.ctx.round(self.fmt, self.ctx.sqrt_real(t), mode)

    def root_claim(self, tag, name, r, a):
        s = self.ctx.fresh("root")
        self.claim(tag, name, Implies(And(ge(a, Z), s >= 0, s * s == a), r.contains(s)))

    def nroot_claims(self, r, a, k):
        """r contains the real k-th root of a when there is one"""
        import funcs
        s = funcs.nth_root(self.ctx, a, k)
        self.claim("incl", "contains every root", Implies(ge(a, Z), r.contains(s)))
        t = funcs.nth_root(self.ctx, neg(a), k)
        self.claim("incl", "contains every root of a negative number", Implies(And(lt(a, Z), eq(k % 2, 1)), r.contains(neg(t))))

    def members_of(self, f, x):
        return self.members(x)

    def dom(self, f, a):
        import funcs
        return funcs.dom(f, a)

    def fval(self, f, a):
        import funcs
        return funcs.fapp(self.ctx, f, a)

    def pval(self, f, a):
        import funcs
        return funcs.periodic(self.ctx, f, a)

    def pi_times(self, k):
        import funcs
        return mul(k, funcs.pi(self.ctx))

    def reduced_by(self, r, x, y):
        """r contains a - n b for one of the integers n in use (or 0)"""
        a, b = self.members(x)[0], self.members(y)[0]
        alts = [r.contains(a)] + [r.contains(sub(a, mul(n, b))) for n in list(self.ctx.reps.get("Z", {}).values())]
        self.claim("incl", "contains x - n y for the integer n it reduces by", Or(*alts))

    def ipow(self, a, n):
        import funcs
        import lemmas
        p, q = funcs.ipow(self.ctx, a, n), funcs.ipow(self.ctx, neg(a), n)
        if not is_num(p) and not is_num(q) and not is_num(n):
            # a may be negative: relate its power to that of its opposite
            self.ctx.define(p, *lemmas.pow_parity(n, p, q))
        return p

    def power_in(self, a, n, r):
        p = self.ipow(a, n)
        return r.contains(p)


class ConcSpec(Spec):
    def __init__(self, inst, seed=0):
        super().__init__(inst)
        self.sym = False
        self.hyps = []
        import random
        self.rng = random.Random(seed)

    def members(self, x, n=2):
        out = []
        lo, hi = x.lo, x.hi
        big = [Fraction(-10) ** 40, -self.fmt.MAX * 3, Fraction(-5), Z, Fraction(3), Fraction(10) ** 40, self.fmt.MAX * 3]
        if lo.fin():
            out.append(lo.r)
        if hi.fin():
            out.append(hi.r)
        if lo.fin() and hi.fin() and lo.r != hi.r:
            out.append((lo.r + hi.r) / 2)
            out.append(lo.r + (hi.r - lo.r) * Fraction(self.rng.randrange(1, 1 << 20), 1 << 20))
        if not (lo.fin() and hi.fin()):
            out += [b for b in big if x.contains(b)]
        if x.contains(Z):
            out.append(Z)
            e = self.fmt.ETA * 16
            out += [b for b in (e, -e) if x.contains(b)]
        return list(dict.fromkeys(out))

    def quot(self, a, b):
        return a / b if b != 0 else Z

    def round(self, fmt, t, mode):
        return {DOWN: fmt.rd, UP: fmt.ru, NEAR: fmt.rn}[mode](t)

    def sqrt_round(self, t, mode):
        import math
        k = 17000
        n = (t.numerator << (2 * k)) // t.denominator
        q = math.isqrt(n)
        ex = q * q == n and (t.numerator << (2 * k)) % t.denominator == 0
        l = Fraction(q, 1 << k)
        if mode == DOWN:
            return self.fmt.rd(l)
        return self.fmt.ru(l if ex else l + Fraction(1, 1 << k))

    def root_claim(self, tag, name, r, a):
        if a < 0:
            return
        lo = And(Not(r.lo.nan), Not(r.lo.pi), Or(r.lo.ni, r.lo.r <= 0, r.lo.r * r.lo.r <= a))
        hi = And(Not(r.hi.nan), Not(r.hi.ni), Or(r.hi.pi, And(r.hi.r >= 0, a <= r.hi.r * r.hi.r)))
        self.claim(tag, name, And(lo, hi))

    def nroot_claims(self, r, a, k):
        if k > 200:
            return
        if a < 0:
            if k % 2 == 0:
                return
            a, r = -a, IV(r.hi.neg(), r.lo.neg(), r.empty)
        lo = And(Not(r.lo.nan), Not(r.lo.pi), Or(r.lo.ni, r.lo.r <= 0, r.lo.r ** k <= a))
        hi = And(Not(r.hi.nan), Not(r.hi.ni), Or(r.hi.pi, And(r.hi.r >= 0, a <= r.hi.r ** k)))
        self.claim("incl", "contains every root", And(lo, hi))

    def members_of(self, f, x):
        out = self.members(x)
        ex = [Z, ONE, -ONE, ONE / 2, -ONE / 2]
        if f in ("cos", "sin", "tan"):
            import mpmath
            import funcs
            c = [v.r for v in (x.lo, x.hi) if v.fin()] or [Z]
            for b in c:
                if abs(b) > 2 ** 60:
                    continue
                k = int(b / PI_NUM * 2)
                ex += [(k + d) * PI_NUM / 2 for d in range(-5, 6)]
        for e in ex:
            if x.contains(e) and e not in out:
                out.append(e)
        return out

    def dom(self, f, a):
        import funcs
        return funcs.dom(f, a)

    def fval(self, f, a):
        import mpmath
        from mpmath import mp
        if f in ("exp", "sinh", "cosh") and abs(a) > 13000:
            h = Fraction(2) ** 18000
            if f == "exp":
                return h if a > 0 else 1 / h
            return -h if f == "sinh" and a < 0 else h
        n, d = a.numerator, a.denominator
        mp.prec = 300 + max(0, n.bit_length() - d.bit_length()) + (200 if a == 0 else min(20000, max(0, d.bit_length() - n.bit_length())))
        v = getattr(mp, f)(mp.mpf(n) / mp.mpf(d))
        if f == "tanh" and abs(a) > 50:
            return Fraction(1 if a > 0 else -1)
        v = mp.mpf(v)
        sg, man, exp, _ = v._mpf_
        q = Fraction(int(man)) * Fraction(2) ** int(exp)
        return -q if sg else q

    pval = fval

    def pi_times(self, k):
        import funcs
        return k * PI_NUM

    def reduced_by(self, r, x, y):
        import math
        cand = {0}
        for p in (x.lo, x.hi):
            for q in (y.lo, y.hi):
                if p.fin() and q.fin() and q.r != 0:
                    t = p.r / q.r
                    for m in (DOWN, UP):
                        R = self.round(self.fmt, t, m)
                        for v in [t] + ([R.r] if R.fin() else []):
                            k = math.floor(v)
                            cand |= {k, k + 1, k - 1}
                            for w in (k, k + 1):
                                for mm in (DOWN, UP):
                                    z = self.round(self.fmt, Fraction(w), mm)
                                    if z.fin():
                                        cand.add(int(z.r))
        ms = [(a, b) for a in self.members(x) for b in self.members(y)]
        self.claim("incl", "contains x - n y for the integer n it reduces by", any(all(r.contains(a - n * b) for a, b in ms) for n in cand))

    def ipow(self, a, n):
        if n >= 0:
            return a ** n
        return 1 / (a ** (-n))

    def power_in(self, a, n, r):
        return r.contains(self.ipow(a, n))
