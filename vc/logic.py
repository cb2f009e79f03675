"""Boolean / real helper functions that fold constants, so that the same
specification text runs symbolically (z3 terms) and concretely (Fractions)."""
from fractions import Fraction
import z3

z3.set_param("smt.random_seed", 1)


def isb(x):
    return isinstance(x, bool)


def And(*xs):
    ys = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        ys.append(x)
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def Or(*xs):
    ys = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        ys.append(x)
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def Not(x):
    if isb(x):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isb(a):
        return b if a else Not(b)
    if isb(b):
        return a if b else Not(a)
    return a == b


def Xor(a, b):
    return Not(Iff(a, b))


def is_num(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)


def Ite(c, a, b):
    if isb(c):
        return a if c else b
    if isb(a) and isb(b):
        return (c if a else Not(c)) if a != b else a
    if isb(a):
        return Or(c, b) if a else And(Not(c), b)
    if isb(b):
        return Or(Not(c), a) if b else And(c, a)
    if is_num(a) and is_num(b) and a == b:
        return a
    return z3.If(c, zt(a), zt(b))


def zt(x):
    """python number -> z3 term"""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def _mix(a, b):
    # int python number against Real z3 terms is coerced by z3 itself
    if isinstance(a, Fraction) and not isinstance(b, Fraction):
        a = z3.RealVal(a)
    if isinstance(b, Fraction) and not isinstance(a, Fraction):
        b = z3.RealVal(b)
    return a, b


def same(a, b):
    return (not is_num(a)) and (not is_num(b)) and (not isb(a)) and (not isb(b)) and a.get_id() == b.get_id()


def le(a, b):
    if is_num(a) and is_num(b):
        return a <= b
    if same(a, b):
        return True
    a, b = _mix(a, b)
    return a <= b


def lt(a, b):
    if is_num(a) and is_num(b):
        return a < b
    if same(a, b):
        return False
    a, b = _mix(a, b)
    return a < b


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if is_num(a) and is_num(b):
        return a == b
    if same(a, b):
        return True
    a, b = _mix(a, b)
    return a == b


def add(a, b):
    if is_num(a) and is_num(b):
        return a + b
    if is_num(a) and a == 0:
        return b
    if is_num(b) and b == 0:
        return a
    a, b = _mix(a, b)
    return a + b


def neg(a):
    if is_num(a):
        return -a
    if z3.is_app_of(a, z3.Z3_OP_UMINUS):
        return a.arg(0)
    return -a


def sub(a, b):
    if is_num(a) and is_num(b):
        return a - b
    if is_num(b) and b == 0:
        return a
    if is_num(a) and a == 0:
        return neg(b)
    a, b = _mix(a, b)
    return a - b


def mul(a, b):
    if is_num(a) and is_num(b):
        return a * b
    for p, q in ((a, b), (b, a)):
        if is_num(p):
            if p == 0:
                return Fraction(0)
            if p == 1:
                return q
            if p == -1:
                return neg(q)
    # pull signs out so that syntactically equal products coincide
    s = False
    if not is_num(a) and z3.is_app_of(a, z3.Z3_OP_UMINUS):
        a, s = a.arg(0), not s
    if not is_num(b) and z3.is_app_of(b, z3.Z3_OP_UMINUS):
        b, s = b.arg(0), not s
    a, b = _mix(a, b)
    if not is_num(a) and not is_num(b) and a.get_id() > b.get_id():
        a, b = b, a
    r = a * b
    return neg(r) if s else r


def real(a):
    """int-sorted -> real-sorted"""
    if is_num(a):
        return Fraction(a)
    if a.is_int():
        return z3.ToReal(a)
    return a
