"""Floating-point values as extended reals with NaN, and their formats."""
from fractions import Fraction
from logic import *


class Fmt:
    def __init__(s, name, p, emin, emax):
        s.name, s.p, s.emin, s.emax = name, p, emin, emax
        s.MAX = (2 - Fraction(1, 2 ** (p - 1))) * Fraction(2) ** emax
        s.ETA = Fraction(2) ** (emin - p + 1)
        s.sMAX = z3.Real("MAX_" + name)
        s.sBIG = z3.Real("BIG_" + name)    # half a unit in the last place of MAX

    def __repr__(s):
        return s.name

    def ulp_exp(s, v):
        """exponent e such that representable numbers near |v| are multiples of 2^e"""
        v = abs(v)
        if v == 0:
            return s.emin - s.p + 1
        n, d = v.numerator, v.denominator
        e = n.bit_length() - d.bit_length()
        if Fraction(2) ** e > v:
            e -= 1
        e = max(e, s.emin)
        return e - s.p + 1

    def rep(s, v):
        if abs(v) > s.MAX:
            return False
        q = v / Fraction(2) ** s.ulp_exp(v)
        return q.denominator == 1

    def rd(s, v):
        """concrete rounding downward of a Fraction: returns FP"""
        if v < -s.MAX:
            return FP.ninf(s)
        if v > s.MAX:
            return FP.num(s, s.MAX)
        u = Fraction(2) ** s.ulp_exp(v)
        return FP.num(s, (v / u).__floor__() * u)

    def up(s, v):
        """the next number above the number v"""
        r = s.rd(v + s.ETA / 2)
        assert r.r == v
        u = Fraction(2) ** s.ulp_exp(v)
        for c in (u / 2, u):
            if s.rep(v + c) and c >= s.ETA:
                return v + c
        return v + u

    def ru(s, v):
        return s.rd(-v).neg()

    def rn(s, v):
        a, b = s.rd(v), s.ru(v)
        if a.is_inf() or b.is_inf():
            half = s.MAX + Fraction(2) ** (s.emax - s.p)
            if v >= half:
                return FP.pinf(s)
            if v <= -half:
                return FP.ninf(s)
            return FP.num(s, s.MAX if v > 0 else -s.MAX)
        x, y = a.r, b.r
        if v - x < y - v:
            return a
        if v - x > y - v:
            return b
        u = Fraction(2) ** s.ulp_exp(v)
        return a if (x / u) % 2 == 0 else b


F32 = Fmt("F32", 24, -126, 127)
F64 = Fmt("F64", 53, -1022, 1023)
F80 = Fmt("F80", 64, -16382, 16383)
FMTS = {"float": F32, "double": F64, "x86_fp80": F80}
ORDER = {"F32": 0, "F64": 1, "F80": 2}


class FP:
    """fmt None: an exact extended real (specification value)"""
    __slots__ = ("fmt", "nan", "pi", "ni", "r")

    def __init__(s, fmt, nan, pi, ni, r):
        s.fmt, s.nan, s.pi, s.ni, s.r = fmt, nan, pi, ni, r

    @staticmethod
    def num(fmt, r):
        if isinstance(r, int):
            r = Fraction(r)
        return FP(fmt, False, False, False, r)

    @staticmethod
    def pinf(fmt):
        return FP(fmt, False, True, False, Fraction(0))

    @staticmethod
    def ninf(fmt):
        return FP(fmt, False, False, True, Fraction(0))

    @staticmethod
    def NaN(fmt):
        return FP(fmt, True, False, False, Fraction(0))

    def neg(s):
        return FP(s.fmt, s.nan, s.ni, s.pi, neg(s.r))

    def fin(s):
        return And(Not(s.nan), Not(s.pi), Not(s.ni))

    def is_inf(s):
        return Or(s.pi, s.ni)

    def __repr__(s):
        if s.nan is True:
            return "NaN"
        if s.pi is True:
            return "+inf"
        if s.ni is True:
            return "-inf"
        if s.nan is False and s.pi is False and s.ni is False:
            return str(s.r)
        return "FP(nan=%s,+inf=%s,-inf=%s,%s)" % (s.nan, s.pi, s.ni, s.r)


def f_lt(x, y):
    return And(Not(x.nan), Not(y.nan), Or(And(x.ni, Not(y.ni)), And(y.pi, Not(x.pi)), And(x.fin(), y.fin(), lt(x.r, y.r))))


def f_le(x, y):
    return And(Not(x.nan), Not(y.nan), Or(x.ni, y.pi, And(x.fin(), y.fin(), le(x.r, y.r))))


def f_eq(x, y):
    return And(Not(x.nan), Not(y.nan), Or(And(x.ni, y.ni), And(x.pi, y.pi), And(x.fin(), y.fin(), eq(x.r, y.r))))


def f_same(x, y):
    """same datum (all NaNs are identified, the sign of zero is not observed)"""
    return Or(And(x.nan, y.nan), f_eq(x, y))


# comparisons of an FP bound with an exact real t
def fp_le_t(x, t):
    return And(Not(x.nan), Not(x.pi), Or(x.ni, le(x.r, t)))


def t_le_fp(t, x):
    return And(Not(x.nan), Not(x.ni), Or(x.pi, le(t, x.r)))
