"""The library's public API under contract: one entry per function/overload, its
precondition (operand classes), its postconditions (as a specification
function), and the wrapper text through which it is reached."""
import re
from spec import *


class Inst:
    def __init__(s, name, ctype, T, fmt, rounding, protected, checking, transc=False, nan="base", empty="base", other=None):
        s.name, s.ctype, s.T, s.fmt = name, ctype, T, fmt
        s.rounding, s.protected, s.checking, s.transc = rounding, protected, checking, transc
        s.nan = nan        # base: NaN numbers give the empty interval | ignore: not checked (precondition) | throw
        s.empty = empty    # base: empty is [NaN,NaN] | throw
        s.other = other

    def __repr__(s):
        return s.name

    def inst_of(s, p):
        """instance of an interval parameter: I own type, J other policies, K / L other base types"""
        if p == "I":
            return s
        if p == "J":
            return s.other
        t = {"K": {"d": "fb", "f": "db", "l": "db"}, "L": {"d": "lb", "f": "lb", "l": "fb"}}[p][s.name[0]]
        return INSTS[t]

    def operand_fmt(s, p):
        return s.inst_of(p).fmt

    def out_fmt(s, fn):
        return s.fmt


IPARAMS = ("I", "J", "K", "L")
EXCN = {"empty": "_ZTISt13runtime_error", "nan": "_ZTISt16invalid_argument",
        "cmp": "_ZTIN5boost7numeric12interval_lib16comparison_errorE"}

P = "policies<%s, %s >"
OPP = "save_state<rounded_transc_opp<%s > >"
STD = "save_state<rounded_transc_std<%s > >"


def mk():
    L = []

    def add(*a, **k):
        L.append(Inst(*a, **k))
    for T, fmt, c in (("double", F64, "d"), ("float", F32, "f"), ("long double", F80, "l")):
        iv = "interval<%s, %s >"
        add(c, "interval<%s>" % T, T, fmt, "opp", True, "strict", nan="ignore", empty="throw")
        add(c + "b", iv % (T, P % (OPP % T, "checking_base<%s >" % T)), T, fmt, "opp", True, "base", transc=True)
        add(c + "s", iv % (T, P % (STD % T, "checking_base<%s >" % T)), T, fmt, "std", True, "base", transc=True)
        add(c + "u", "unprotect<%s >::type" % (iv % (T, P % (OPP % T, "checking_base<%s >" % T))), T, fmt, "opp", False, "base", transc=True)
        add(c + "v", iv % (T, P % ("save_state_nothing<rounded_transc_std<%s > >" % T, "checking_base<%s >" % T)), T, fmt, "std", False, "base", transc=True)
        add(c + "c", iv % (T, P % (OPP % T, "checking_catch_nan<%s, checking_base<%s > >" % (T, T))), T, fmt, "opp", True, "catch", transc=True, nan="throw")
        add(c + "e", iv % (T, P % (OPP % T, "checking_catch_nan<%s, checking_no_empty<%s > >" % (T, T))), T, fmt, "opp", True, "catch", transc=True, nan="throw", empty="throw")
        add(c + "n", iv % (T, P % (OPP % T, "checking_no_nan<%s, checking_base<%s > >" % (T, T))), T, fmt, "opp", True, "nonan", transc=True, nan="ignore")
    D = {i.name: i for i in L}
    for i in L:
        i.other = D[{"b": "s", "": "b"}.get(i.name[1:], "b").join([i.name[0], ""])]
    return D


INSTS = mk()


class Fn:
    def __init__(s, id, params, out, body, spec, group, **k):
        s.id, s.params, s.out, s.body, s.spec, s.group = id, params.split(), out, body, spec, group
        s.strict = k.get("strict", True)       # empty/NaN operand => empty result, handled generically
        s.nan_arg = k.get("nan_arg", True)     # NaN number operands are exercised
        s.inf_arg = k.get("inf_arg", False)    # number operands may be infinite
        s.alias = k.get("alias", None)
        s.transc = k.get("transc", False)
        s.pre = k.get("pre", None)
        s.inplace = k.get("inplace", False)
        s.empties = k.get("empties", True)
        s.may_empty = k.get("may_empty", None) # callable: condition under which an empty result is right
        s.insts = k.get("insts", None)
        s.nopre = k.get("nopre", False)
        s.heavy = k.get("heavy", False)
        s.raw = k.get("raw", False)
        s.small_int = k.get("small_int", False)
        s.icases = k.get("icases", None)
        s.prepare = k.get("prepare", None)     # loop invariants / local contracts
        s.exact = k.get("exact", False)
        s.cost = k.get("cost", 1.0)
        s.skip_same = k.get("skip_same", None)
        s.target = k.get("target", False)      # operand 0 is only assigned to: its value does not matter
        s.elements = k.get("elements", False)  # one element of every operand is named before execution
        s.native_body = k.get("native_body", None)   # what the native replay runs (output: compares the text)
        s.intpre = k.get("intpre", None)       # this integer operand is exactly representable in the base type


    def applies(s, inst):
        if s.transc and not inst.transc:
            return False
        if s.skip_same == inst.name[0].replace("l", "e"):
            return False
        if s.insts is not None and not s.insts(inst):
            return False
        return True


FNS = []
BYID = {}


def F(*a, **k):
    f = Fn(*a, **k)
    FNS.append(f)
    assert f.id not in BYID, f.id
    BYID[f.id] = f
    return f


# ------------------------------------------------------------------ arithmetic
def bounds(x):
    return [ext_of(x.lo), ext_of(x.hi)]


def as_iv(v):
    return v if isinstance(v, IV) else IV(v, v, False)


def sp_add(s, r, x, y):
    x, y = as_iv(x), as_iv(y)
    for a in s.members(x):
        for b in s.members(y):
            s.claim("incl", "encloses every sum", r.contains(add(a, b)))
    s.valid(r)
    s.tight("lower bound is the best one", r.lo, DOWN, [e_add(ext_of(x.lo), ext_of(y.lo))])
    s.tight("upper bound is the best one", r.hi, UP, [e_add(ext_of(x.hi), ext_of(y.hi))])


def sp_sub(s, r, x, y):
    x, y = as_iv(x), as_iv(y)
    for a in s.members(x):
        for b in s.members(y):
            s.claim("incl", "encloses every difference", r.contains(sub(a, b)))
    s.valid(r)
    s.tight("lower bound is the best one", r.lo, DOWN, [e_add(ext_of(x.lo), ext_of(y.hi.neg()))])
    s.tight("upper bound is the best one", r.hi, UP, [e_add(ext_of(x.hi), ext_of(y.lo.neg()))])


def sp_mul(s, r, x, y):
    x, y = as_iv(x), as_iv(y)
    for a in s.members(x):
        for b in s.members(y):
            s.claim("incl", "encloses every product", r.contains(mul(a, b)))
    s.valid(r)
    s.tight_iv(r, [e_mul(p, q) for p in bounds(x) for q in bounds(y)])


def has_pos(x):
    return Or(x.hi.pi, And(x.hi.fin(), gt(x.hi.r, Z)))


def has_neg(x):
    return Or(x.lo.ni, And(x.lo.fin(), lt(x.lo.r, Z)))


def has_zero(x):
    return x.contains(Z)


def only_zero(x):
    return And(x.lo.fin(), x.hi.fin(), eq(x.lo.r, Z), eq(x.hi.r, Z))


def div_corners(s, x, y):
    c = [s.e_div(p, q) for p in bounds(x) for q in bounds(y)]
    # unbounded when y reaches 0 on one side and x has non-zero elements of the right sign
    yp0 = And(has_pos(y), has_zero(y))      # arbitrarily small positive divisors
    yn0 = And(has_neg(y), has_zero(y))
    up = Or(And(has_pos(x), yp0), And(has_neg(x), yn0))
    dn = Or(And(has_pos(x), yn0), And(has_neg(x), yp0))
    c.append(only(up, INF))
    c.append(only(dn, NINF))
    c.append(only(has_zero(x), ext(Z)))
    return c


def sp_div(s, r, x, y):
    x, y = as_iv(x), as_iv(y)
    s.no_result_when(only_zero(y))
    for a in s.members(x):
        for b in s.members(y):
            if s.sym:
                q = s.quot(a, b)
                s.claim("incl", "encloses every quotient", r.contains(q), [Not(eq(b, Z))])
            elif b != 0:
                s.claim("incl", "encloses every quotient", r.contains(a / b))
    s.valid(r)
    s.tight_iv(r, div_corners(s, x, y))


def flip(f):
    return lambda s, r, x, y: f(s, r, x, y)


OPS = [("add", "+", sp_add), ("sub", "-", sp_sub), ("mul", "*", sp_mul), ("div", "/", sp_div)]
for nm, op, sp in OPS:
    e = op == "/"
    F(nm + "_II", "I I", "I", "x0 %s x1" % op, sp, "arith", may_empty=e)
    F(nm + "_IN", "I N", "I", "x0 %s x1" % op, sp, "arith", may_empty=e)
    F(nm + "_NI", "N I", "I", "x0 %s x1" % op, sp, "arith", may_empty=e)
    F(nm + "_II_same", "I", "I", "x0 %s x0" % op, (lambda sp: lambda s, r, x: sp(s, r, x, x))(sp), "arith", may_empty=e)
    F(nm + "eq_I", "I I", "S", "x0 %s= x1" % op, sp, "arith", inplace=True, may_empty=e)
    F(nm + "eq_N", "I N", "S", "x0 %s= x1" % op, sp, "arith", inplace=True, may_empty=e)
    F(nm + "eq_self", "I", "S", "x0 %s= x0" % op, (lambda sp: lambda s, r, x: sp(s, r, x, x))(sp), "arith", inplace=True, may_empty=e)
    F(nm + "eq_lower", "I", "S", "x0 %s= x0.lower()" % op, (lambda sp: lambda s, r, x: sp(s, r, x, IV(x.lo, x.lo, False)))(sp), "arith", inplace=True, may_empty=e, pre="finite", empties=False)
    F(nm + "eq_upper", "I", "S", "x0 %s= x0.upper()" % op, (lambda sp: lambda s, r, x: sp(s, r, x, IV(x.hi, x.hi, False)))(sp), "arith", inplace=True, may_empty=e, pre="finite", empties=False)
    F(nm + "_Ii", "I i", "I", "x0 %s x1" % op, (lambda sp: lambda s, r, x, i: sp(s, r, x, s.int_num(i)))(sp), "arith", intpre=1)
    F(nm + "_iI", "i I", "I", "x0 %s x1" % op, (lambda sp: lambda s, r, i, x: sp(s, r, s.int_num(i), x))(sp), "arith", intpre=0)
    F(nm + "_NN", "N N", "I", "boost::numeric::interval_lib::%s<I>(x0, x1)" % nm, sp, "arith", may_empty=e)


def sp_neg(s, r, x):
    for a in s.members(x):
        s.claim("incl", "encloses every opposite", r.contains(neg(a)))
    s.valid(r)
    s.claim("tight", "bounds are the exact opposites", And(f_eq(r.lo, x.hi.neg()), f_eq(r.hi, x.lo.neg())))


def sp_id(s, r, x):
    for a in s.members(x):
        s.claim("incl", "encloses every element", r.contains(a))
    s.valid(r)
    s.claim("tight", "bounds unchanged", And(f_eq(r.lo, x.lo), f_eq(r.hi, x.hi)))


F("neg", "I", "I", "-x0", sp_neg, "arith")
F("pos", "I", "I", "+x0", sp_id, "arith")


import api2
