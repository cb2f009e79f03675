"""Specifications: construction, set operations, comparisons, numeric queries,
algebraic functions, two-part division, relational properties."""
from spec import *
import api, loops
from api import F, as_iv, bounds, sp_add, sp_sub, sp_mul, sp_div, has_pos, has_neg, has_zero, only_zero


def pick(c, a, b):
    if isb(c):
        return a if c else b
    return FP(a.fmt or b.fmt, Ite(c, a.nan, b.nan), Ite(c, a.pi, b.pi), Ite(c, a.ni, b.ni), Ite(c, a.r, b.r))


def fmin(a, b):
    return pick(f_le(a, b), a, b)


def fmax(a, b):
    return pick(f_le(b, a), a, b)


def is_iv(s, r, lo, hi, tag="tight", name="bounds"):
    s.claim(tag, name + ": exact lower bound", f_eq(r.lo, lo))
    s.claim(tag, name + ": exact upper bound", f_eq(r.hi, hi))


def nanlike(x):
    return x.nan


# ---------------------------------------------------------------- construction
def sp_from_num(s, r, v):
    """v: FP of any format, finite; or an int"""
    if not isinstance(v, FP):
        t = real(v)
        c = FP.num(None, t) if is_num(t) else ext(t)
    else:
        t, c = v.r, ext_of(v)
    s.claim("incl", "contains the number", r.contains(t))
    s.valid(r)
    s.tight_iv(r, [c])


def sp_from_two(s, r, a, b):
    if isinstance(a, FP):
        inv = lt(b.r, a.r)
        ca, cb, ta, tb = ext_of(a), ext_of(b), a.r, b.r
    else:
        inv = lt(b, a)
        ta, tb = real(a), real(b)
        ca, cb = ext(ta), ext(tb)
    s.no_result_when(inv)
    s.claim("incl", "contains the numbers", And(r.contains(ta), r.contains(tb)))
    s.valid(r)
    s.tight("lower bound is the best one", r.lo, DOWN, [ca])
    s.tight("upper bound is the best one", r.hi, UP, [cb])


def sp_from_iv(s, r, x):
    for a in s.members(x):
        s.claim("incl", "contains every element of the source", r.contains(a))
    s.valid(r)
    s.tight("lower bound is the best one", r.lo, DOWN, [ext_of(x.lo)])
    s.tight("upper bound is the best one", r.hi, UP, [ext_of(x.hi)])


G = "cons"
F("ctor_default", "", "I", "I()", lambda s, r: (is_iv(s, r, FP.num(s.fmt, 0), FP.num(s.fmt, 0)), s.valid(r)), G)
F("ctor_N", "N", "I", "x0", sp_from_num, G)
F("ctor_NN", "N N", "I", "x0, x1", sp_from_two, G)
for c in "iuqQdfe":
    F("ctor_" + c, c, "I", "x0", sp_from_num, G, skip_same=c)
    F("assign_" + c, "I " + c, "S", "x0 = x1", lambda s, r, x, v: sp_from_num(s, r, v), G, inplace=True, target=True, skip_same=c)
for c in "iuqdfe":
    F("ctor2_" + c, c + " " + c, "I", "x0, x1", sp_from_two, G, skip_same=c)
F("assign_N", "I N", "S", "x0 = x1", lambda s, r, x, v: sp_from_num(s, r, v), G, inplace=True, target=True)
F("assign_NN", "I N N", "S", "x0.assign(x1, x2)", lambda s, r, x, a, b: sp_from_two(s, r, a, b), G, inplace=True, target=True)
F("assign_alias1", "I N", "S", "x0.assign(x0.lower(), x1)", lambda s, r, x, b: sp_from_two(s, r, x.lo, b), G, inplace=True, pre="finite", empties=False)
F("assign_alias2", "I N", "S", "x0.assign(x1, x0.lower())", lambda s, r, x, b: sp_from_two(s, r, b, x.lo), G, inplace=True, pre="finite", empties=False)
F("assign_alias3", "I N", "S", "x0.assign(x0.upper(), x1)", lambda s, r, x, b: sp_from_two(s, r, x.hi, b), G, inplace=True, pre="finite", empties=False)
F("assign_alias4", "I N", "S", "x0.assign(x1, x0.upper())", lambda s, r, x, b: sp_from_two(s, r, b, x.hi), G, inplace=True, pre="finite", empties=False)
F("assign_alias5", "I", "S", "x0.assign(x0.upper(), x0.lower())", lambda s, r, x: sp_from_two(s, r, x.hi, x.lo), G, inplace=True, pre="finite", empties=False)
F("assign_alias6", "I", "S", "x0.assign(x0.upper(), x0.upper())", lambda s, r, x: sp_from_two(s, r, x.hi, x.hi), G, inplace=True, pre="finite", empties=False)
F("assign_lower", "I", "S", "x0 = x0.lower()", lambda s, r, x: sp_from_num(s, r, x.lo), G, inplace=True, pre="finite", empties=False)
F("assign_upper", "I", "S", "x0 = x0.upper()", lambda s, r, x: sp_from_num(s, r, x.hi), G, inplace=True, pre="finite", empties=False)
for c in "IJKL":
    F("ctor_" + c, c, "I", "x0", sp_from_iv, G)
    F("assign_" + c, "I " + c, "S", "x0 = x1", lambda s, r, x, y: sp_from_iv(s, r, y), G, inplace=True, target=True)
F("assign_self", "I", "S", "x0 = x0", sp_from_iv, G, inplace=True)
F("whole", "", "I", "I::whole()", lambda s, r: (is_iv(s, r, FP.ninf(s.fmt), FP.pinf(s.fmt)), s.valid(r)), G)
F("empty_ctor", "", "I", "I::empty()", lambda s, r: s.no_result_when(True), G)


# ---------------------------------------------------------------- sets
def sp_hull_list(s, r, items):
    """items: [(empty?, lo, hi, members)]"""
    el = FP.NaN(s.fmt)
    lo, hi, emp = None, None, True
    for e, l, h, ms in items:
        if e is True:
            continue
        for a in ms:
            s.claim("incl", "contains the operand", r.contains(a))
        lo = l if lo is None else fmin(lo, l)
        hi = h if hi is None else fmax(hi, h)
        emp = False
    if emp:
        s.no_result_when(True)
        return
    is_iv(s, r, lo, hi)
    if any(e is True for e, _, _, _ in items):
        is_iv(s, r, lo, hi, "nonempty", "hull with an empty operand ignores it")
    s.valid(r)


def hull_item(s, x):
    if isinstance(x, IV):
        return (x.empty, x.lo, x.hi, [] if x.empty else s.members(x))
    return (x.nan is True, x, x, [x.r])


def sp_hull(s, r, x, y):
    sp_hull_list(s, r, [hull_item(s, x), hull_item(s, y)])


def sp_intersect(s, r, x, y):
    lo, hi = fmax(x.lo, y.lo), fmin(x.hi, y.hi)
    s.no_result_when(Not(f_le(lo, hi)))
    is_iv(s, r, lo, hi)
    s.valid(r)
    for a in s.members(x):
        s.claim("incl", "contains every common element", Implies(y.contains(a), r.contains(a)))


def boolspec(f):
    def sp(s, r, *ops):
        s.claim("val", "the answer is the one of the set operation", Iff(r, f(*ops)))
    return sp


def sub_of(x, y):
    return And(f_le(y.lo, x.lo), f_le(x.hi, y.hi))


def e_subset(x, y):
    if x.empty:
        return True
    if y.empty:
        return False
    return sub_of(x, y)


def e_equal(x, y):
    if x.empty or y.empty:
        return x.empty and y.empty
    return And(f_eq(x.lo, y.lo), f_eq(x.hi, y.hi))


def e_proper(x, y):
    return And(e_subset(x, y), Not(e_equal(x, y)))


def e_overlap(x, y):
    if x.empty or y.empty:
        return False
    return And(f_le(x.lo, y.hi), f_le(y.lo, x.hi))


def e_in(v, y):
    if y.empty or v.nan is True:
        return False
    return And(f_le(y.lo, v), f_le(v, y.hi))


def e_zero_in(x):
    return False if x.empty else x.contains(Z)


def e_singleton(x):
    return False if x.empty else f_eq(x.lo, x.hi)


G = "set"
F("hull_II", "I I", "I", "hull(x0, x1)", sp_hull, G, strict=False)
F("hull_IN", "I N", "I", "hull(x0, x1)", sp_hull, G, strict=False)
F("hull_NI", "N I", "I", "hull(x0, x1)", sp_hull, G, strict=False)
F("hull_NN", "N N", "I", "I::hull(x0, x1)", sp_hull, G, strict=False)
F("hull_NN_free", "N N", "I", "hull(x0, x1)", sp_hull, G, strict=False, insts=lambda i: i.name in ("d", "f", "l"))
F("hull_same", "I", "I", "hull(x0, x0)", lambda s, r, x: sp_hull(s, r, x, x), G, strict=False)
F("intersect", "I I", "I", "intersect(x0, x1)", sp_intersect, G)
F("in", "N I", "b", "in(x0, x1)", boolspec(e_in), G, strict=False)
F("zero_in", "I", "b", "zero_in(x0)", boolspec(e_zero_in), G, strict=False)
F("in_zero", "I", "b", "in_zero(x0)", boolspec(e_zero_in), G, strict=False)
F("subset", "I I", "b", "subset(x0, x1)", boolspec(e_subset), G, strict=False)
F("proper_subset", "I I", "b", "proper_subset(x0, x1)", boolspec(e_proper), G, strict=False)
F("proper_subset_IJ", "I J", "b", "proper_subset(x0, x1)", boolspec(e_proper), G, strict=False)
F("overlap", "I I", "b", "overlap(x0, x1)", boolspec(e_overlap), G, strict=False)
F("overlap_IJ", "I J", "b", "overlap(x0, x1)", boolspec(e_overlap), G, strict=False)
F("equal", "I I", "b", "equal(x0, x1)", boolspec(e_equal), G, strict=False)
F("equal_IJ", "I J", "b", "equal(x0, x1)", boolspec(e_equal), G, strict=False)
F("singleton", "I", "b", "singleton(x0)", boolspec(e_singleton), G, strict=False)
F("empty", "I", "b", "boost::numeric::empty(x0)", boolspec(lambda x: x.empty), G, strict=False)

# ---------------------------------------------------------------- comparisons
CERT = {"lt": lambda x, y: f_lt(x.hi, y.lo), "le": lambda x, y: f_le(x.hi, y.lo), "gt": lambda x, y: f_lt(y.hi, x.lo),
        "ge": lambda x, y: f_le(y.hi, x.lo), "eq": lambda x, y: And(f_eq(x.lo, y.hi), f_eq(x.hi, y.lo)),
        "ne": lambda x, y: Or(f_lt(x.hi, y.lo), f_lt(y.hi, x.lo))}
NEGREL = {"lt": "ge", "le": "gt", "gt": "le", "ge": "lt", "eq": "ne", "ne": "eq"}
POSS = {k: (lambda k: lambda x, y: Not(CERT[NEGREL[k]](x, y)))(k) for k in CERT}
REL = {"lt": lt, "le": le, "gt": gt, "ge": ge, "eq": eq, "ne": lambda a, b: Not(eq(a, b))}
SYM = {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!="}


def some_empty(x, y):
    return any((v.empty is True) if isinstance(v, IV) else (v.nan is True) for v in (x, y))


def sp_cert(k, poss=False):
    def sp(s, r, x, y):
        if some_empty(x, y):
            s.throw_when = True
            return
        x, y = as_iv(x), as_iv(y)
        want = (POSS if poss else CERT)[k](x, y)
        for a in s.members(x):
            for b in s.members(y):
                if poss:
                    s.claim("val", "a false answer excludes every pair", Implies(Not(r), Not(REL[k](a, b))))
                else:
                    s.claim("val", "a true answer holds for every pair", Implies(r, REL[k](a, b)))
        s.claim("val", "the answer is the quantified relation", Iff(r, want))
    return sp


def sp_default(k, tri=False):
    def sp(s, r, x, y):
        if some_empty(x, y):
            s.throw_when = True
            return
        x, y = as_iv(x), as_iv(y)
        c, n = CERT[k](x, y), CERT[NEGREL[k]](x, y)
        if tri:
            s.claim("val", "true exactly when certain", Iff(eq(r, 1), c))
            s.claim("val", "false exactly when certainly not", Iff(eq(r, 0), n))
            s.claim("val", "indeterminate otherwise", Iff(eq(r, 2), And(Not(c), Not(n))))
            return
        s.throw_when = And(Not(c), Not(n))
        for a in s.members(x):
            for b in s.members(y):
                s.claim("val", "the answer holds for every pair", Iff(r, REL[k](a, b)))
        s.claim("val", "the answer is the certain one", Iff(r, c))
    return sp


def lex(k):
    def f(x, y):
        x, y = as_iv(x), as_iv(y)
        l = Or(f_lt(x.lo, y.lo), And(f_eq(x.lo, y.lo), f_lt(x.hi, y.hi)))
        e = And(f_eq(x.lo, y.lo), f_eq(x.hi, y.hi))
        return {"lt": l, "le": Or(l, e), "gt": And(Not(l), Not(e)), "ge": Not(l), "eq": e, "ne": Not(e)}[k]
    return f


def sp_lex(k):
    def sp(s, r, x, y):
        if some_empty(x, y):
            s.throw_when = True
            return
        s.claim("val", "the answer is the lexicographic one", Iff(r, lex(k)(x, y)))
    return sp


SETREL = {"lt": e_proper, "le": e_subset, "gt": lambda x, y: e_proper(y, x), "ge": lambda x, y: e_subset(y, x),
          "eq": e_equal, "ne": lambda x, y: Not(e_equal(x, y))}


def body_ns(ns, expr):
    return "{ using namespace compare::%s; *(int*)o[0] = (%s) ? 1 : 0; }" % (ns, expr)


for k, op in SYM.items():
    for a, b in (("I", "I"), ("I", "N"), ("I", "J")):
        n = "%s_%s%s" % (k, a, b)
        P_ = "%s %s" % (a, b)
        F("cer_" + n, P_, "b", body_ns("certain", "x0 %s x1" % op), sp_cert(k), "cert", strict=False, raw=True)
        F("pos_" + n, P_, "b", body_ns("possible", "x0 %s x1" % op), sp_cert(k, True), "cert", strict=False, raw=True)
        F("cmp_" + n, P_, "b", "x0 %s x1" % op, sp_default(k), "defcmp", strict=False)
        F("tri_" + n, P_, "t", "{ using namespace compare::tribool; boost::logic::tribool t = (x0 %s x1); *(int*)o[0] = int(t.value); }" % op,
          sp_default(k, True), "defcmp", strict=False, raw=True)
        F("lex_" + n, P_, "b", body_ns("lexicographic", "x0 %s x1" % op), sp_lex(k), "order", strict=False, raw=True)
        if b == "N":
            F("setcmp_" + n, P_, "b", body_ns("set", "x0 %s x1" % op), lambda s, r, x, y: setattr(s, "throw_when", True), "order", strict=False, raw=True, nan_arg=False)
        elif b == "I" or k not in ("le", "ge"):
            F("setcmp_" + n, P_, "b", body_ns("set", "x0 %s x1" % op), (lambda k: lambda s, r, x, y: s.claim("val", "the answer is the one of the set relation", Iff(r, SETREL[k](x, y))))(k),
              "order", strict=False, raw=True)
    for a, b in (("I", "I"), ("I", "N"), ("N", "I"), ("I", "J")):
        F("f_cer%s_%s%s" % (k, a, b), "%s %s" % (a, b), "b", "cer%s(x0, x1)" % k, sp_cert(k), "cert", strict=False, empties=False, nan_arg=False)
        F("f_pos%s_%s%s" % (k, a, b), "%s %s" % (a, b), "b", "pos%s(x0, x1)" % k, sp_cert(k, True), "cert", strict=False, empties=False, nan_arg=False)


def sp_one_of(s, r, *ops):
    if any(some_empty(o, o) for o in ops):
        s.throw_when = True
        return
    s.claim("val", "exactly one of <, ==, > holds", Or(eq(r, 1), eq(r, 2), eq(r, 4)))


def sp_true(s, r, *ops):
    if any(some_empty(o, o) for o in ops):
        s.throw_when = True
        return
    s.claim("val", "the order law holds", r)


def sp_true_e(s, r, *ops):
    s.claim("val", "the order law holds", r)


F("lex_trichotomy", "I I", "t", "{ using namespace compare::lexicographic; *(int*)o[0] = (x0 < x1 ? 1 : 0) + (x0 == x1 ? 2 : 0) + (x0 > x1 ? 4 : 0); }",
  sp_one_of, "order", strict=False, raw=True)
F("lex_transitive", "I I I", "b", body_ns("lexicographic", "!(x0 < x1 && x1 < x2) || x0 < x2"), sp_true, "order", strict=False, raw=True, empties=False)
F("lex_le_transitive", "I I I", "b", body_ns("lexicographic", "!(x0 <= x1 && x1 <= x2) || x0 <= x2"), sp_true, "order", strict=False, raw=True, empties=False)
F("set_antisym", "I I", "b", body_ns("set", "!(x0 <= x1 && x1 <= x0) || x0 == x1"), sp_true_e, "order", strict=False, raw=True)
F("set_asym", "I I", "b", body_ns("set", "!(x0 < x1 && x1 < x0)"), sp_true_e, "order", strict=False, raw=True)
F("set_transitive", "I I I", "b", body_ns("set", "!(x0 < x1 && x1 < x2) || x0 < x2"), sp_true_e, "order", strict=False, raw=True)


# ---------------------------------------------------------------- numeric queries
def is_nan_claim(s, r):
    s.claim("val", "NaN for an empty interval", r.nan)


def sp_width(s, r, x):
    if x.empty:
        s.claim("val", "zero for an empty interval", f_eq(r, FP.num(s.fmt, 0)))
        return
    s.tight("the difference of the bounds rounded up", r, UP, [e_add(ext_of(x.hi), ext_of(x.lo.neg()))], "val")


def sp_median(s, r, x):
    if x.empty:
        return is_nan_claim(s, r)
    s.claim("val", "lies in the interval", And(f_le(x.lo, r), f_le(r, x.hi)))


def sp_norm(s, r, x):
    if x.empty:
        return is_nan_claim(s, r)
    s.claim("val", "the largest absolute value", f_eq(r, fmax(x.lo.neg(), x.hi)))


def sp_clo(s, r, x):
    if x.empty:
        return is_nan_claim(s, r)
    s.claim("val", "the lower bound", f_eq(r, x.lo))


def sp_chi(s, r, x):
    if x.empty:
        return is_nan_claim(s, r)
    s.claim("val", "the upper bound", f_eq(r, x.hi))


def sp_widen(s, r, x, v):
    for a in s.members(x):
        for b in s.members(IV(v.neg(), v, False)):
            s.claim("incl", "contains every point within the distance", r.contains(add(a, b)))
    s.valid(r)
    s.tight("lower bound is the best one", r.lo, DOWN, [e_add(ext_of(x.lo), ext_of(v.neg()))])
    s.tight("upper bound is the best one", r.hi, UP, [e_add(ext_of(x.hi), ext_of(v))])


def sp_bisect(s, r, x):
    p, q = r
    if x.empty:
        s.claim("empty", "two empty intervals", And(p.empty, q.empty))
        return
    s.valid(p)
    s.valid(q)
    s.claim("val", "the halves share an end point and cover the interval", And(f_eq(p.lo, x.lo), f_eq(q.hi, x.hi), f_eq(p.hi, q.lo)))
    s.claim("val", "the halves are well formed", And(f_le(p.lo, p.hi), f_le(q.lo, q.hi)))


G = "query"
F("width", "I", "N", "width(x0)", sp_width, G, strict=False)
F("median", "I", "N", "median(x0)", sp_median, G, strict=False, pre="finite")
F("norm", "I", "N", "norm(x0)", sp_norm, G, strict=False)
F("lower", "I", "N", "lower(x0)", sp_clo, G, strict=False, empties=False)
F("upper", "I", "N", "upper(x0)", sp_chi, G, strict=False, empties=False)
F("lower_m", "I", "N", "x0.lower()", sp_clo, G, strict=False, empties=False)
F("upper_m", "I", "N", "x0.upper()", sp_chi, G, strict=False, empties=False)
F("checked_lower", "I", "N", "checked_lower(x0)", sp_clo, G, strict=False)
F("checked_upper", "I", "N", "checked_upper(x0)", sp_chi, G, strict=False)
F("widen", "I N", "I", "widen(x0, x1)", sp_widen, G, nan_arg=False, pre=lambda x, v: ge(v.r, Z))
F("bisect", "I", "P", "bisect(x0)", sp_bisect, G, strict=False, pre="finite")


# ---------------------------------------------------------------- algebraic
def sp_abs(s, r, x):
    for a in s.members(x):
        s.claim("incl", "contains every absolute value", r.contains(Ite(ge(a, Z), a, neg(a))))
    s.valid(r)
    zero = FP.num(s.fmt, 0)
    lo = pick(x.contains(Z), zero, fmin(pick(f_le(zero, x.lo), x.lo, x.lo.neg()), pick(f_le(zero, x.hi), x.hi, x.hi.neg())))
    is_iv(s, r, lo, fmax(x.lo.neg(), x.hi))


def sp_max(s, r, x, y):
    x, y = as_iv(x), as_iv(y)
    for a in s.members(x):
        for b in s.members(y):
            s.claim("incl", "contains every maximum", r.contains(Ite(ge(a, b), a, b)))
    s.valid(r)
    is_iv(s, r, fmax(x.lo, y.lo), fmax(x.hi, y.hi))


def sp_min(s, r, x, y):
    x, y = as_iv(x), as_iv(y)
    for a in s.members(x):
        for b in s.members(y):
            s.claim("incl", "contains every minimum", r.contains(Ite(ge(a, b), b, a)))
    s.valid(r)
    is_iv(s, r, fmin(x.lo, y.lo), fmin(x.hi, y.hi))


def sp_square(s, r, x):
    for a in s.members(x):
        s.claim("incl", "contains every square", r.contains(mul(a, a)))
    s.valid(r)
    c = [e_mul(p, p) for p in bounds(x)]
    s.tight("lower bound is the best one", r.lo, DOWN, c + [only(has_zero(x), ext(Z))])
    s.tight("upper bound is the best one", r.hi, UP, c)


def sp_sqrt(s, r, x):
    s.no_result_when(Or(x.hi.ni, And(x.hi.fin(), lt(x.hi.r, Z))))
    for a in s.members(x):
        s.root_claim("incl", "contains every square root", r, a)
    s.valid(r)
    s.tight_sqrt(r.lo, DOWN, x.lo, r, "lower bound is the best one")
    s.tight_sqrt(r.hi, UP, x.hi, r, "upper bound is the best one")


def sp_inv(s, r, x):
    s.no_result_when(only_zero(x))
    one = FP.num(s.fmt, 1)
    for a in s.members(x):
        nz = Not(eq(a, Z))
        if nz is not False:
            s.claim("incl", "contains every inverse", Implies(nz, r.contains(s.quot(ONE, a))))
    s.valid(r)
    s.tight_iv(r, api.div_corners(s, IV(one, one, False), x))


G = "alg"
F("abs", "I", "I", "abs(x0)", sp_abs, G)
for n, sp in (("max", sp_max), ("min", sp_min)):
    F(n + "_II", "I I", "I", "%s(x0, x1)" % n, sp, G)
    F(n + "_IN", "I N", "I", "%s(x0, x1)" % n, sp, G)
    F(n + "_NI", "N I", "I", "%s(x0, x1)" % n, sp, G)
F("square", "I", "I", "square(x0)", sp_square, G)
F("sqrt", "I", "I", "sqrt(x0)", sp_sqrt, G)
F("inverse", "I", "I", "multiplicative_inverse(x0)", sp_inv, G)


# ---------------------------------------------------------------- powers
def sp_pow(s, r, x, n):
    s.no_result_when(And(only_zero(x), le(n, 0)))
    for a in s.members(x):
        if not s.sym and abs(n) > 300 and a not in (0, 1, -1):
            continue
        if s.sym or n >= 0:
            s.claim("incl", "contains every power", Implies(ge(n, 0), r.contains(s.ipow(a, n))))
        if s.sym or (n < 0 and a != 0):
            s.claim("incl", "contains every inverse power", Implies(And(lt(n, 0), Not(eq(a, Z))), r.contains(s.quot(ONE, s.ipow(a, -n)))))
    s.valid(r)


def prep_pow(ex, inst):
    ex.loop_rules.append(loops.Houdini(loops.pow_grammar))


G = "pow"
F("pow", "I i", "I", "pow(x0, x1)", sp_pow, G, pre=lambda x, n: gt(n, -2**31), prepare=prep_pow, exact=True, small_int=True, cost=20.0)


# ---------------------------------------------------------------- roots
def sp_root(s, r, x, k):
    even = eq(k % 2, 0)
    s.no_result_when(And(even, Or(x.hi.ni, And(x.hi.fin(), lt(x.hi.r, Z)))))
    for a in s.members(x):
        s.nroot_claims(r, a, k)
    s.valid(r)


def prep_root(ex, inst):
    ex.loop_rules.append(loops.Houdini(loops.root_grammar))


G = "root"
F("nth_root", "I i", "I", "nth_root(x0, x1)", sp_root, G, pre=lambda x, k: ge(k, 1), prepare=prep_root, intpre=1, small_int=True, exact=True, cost=10.0)


# ---------------------------------------------------------------- two-part division
def sp_div2(s, r, x, y, nob):
    p, q, b = r
    s.no_result_when(only_zero(y))
    for a in s.members(x):
        for c in s.members(y):
            nz = Not(eq(c, Z))
            if nz is False:
                continue
            t = s.quot(a, c)
            s.claim("incl", "the parts cover every quotient", Implies(nz, Or(p.contains(t), And(b, q.contains(t)))))
    s.claim("val", "a second part only for a divisor with zero in its interior", Implies(b, And(has_neg(y), has_pos(y))))
    s.valid(p, name="the first part is a well-formed interval")
    s.claim("valid", "the second part is a well-formed interval", Implies(b, And(Not(q.lo.pi), Not(q.hi.ni), f_le(q.lo, q.hi))))
    s.claim("val", "the first part is not above the second", Implies(b, f_le(p.hi, q.lo)))
    if nob:
        s.claim("empty", "no second part is the empty interval", Implies(Not(b), q.empty))
    # tightness
    z = has_zero(x)
    inner = And(has_neg(y), has_pos(y))
    cs = api.div_corners(s, x, y)
    old = s.cond
    s.cond = And(old, Not(b))
    s.tight_iv(p, cs)
    s.cond = And(old, b)
    s.claim("tight", "two parts are unbounded outwards", And(p.lo.ni, q.hi.pi))
    inner_c = [s.e_div(u, v) for u in bounds(x) for v in bounds(y)] + [only(z, ext(Z))]
    s.tight("first part ends at the best bound", p.hi, UP, inner_c)
    s.tight("second part starts at the best bound", q.lo, DOWN, inner_c)
    s.cond = old


G = "div2"


F("division", "I I", "D", "{ bool b; I r = division_part1(x0, x1, b); *(int*)o[2] = b ? 1 : 0; ::new (o[0]) I(r); ::new (o[1]) I(b ? division_part2(x0, x1, b) : r); }",
  lambda s, r, x, y: sp_div2(s, r, x, y, False), G, raw=True)
F("division_nob", "I I", "D", "{ bool b; I r = division_part1(x0, x1, b); *(int*)o[2] = b ? 1 : 0; ::new (o[0]) I(r); ::new (o[1]) I(division_part2(x0, x1, b)); }",
  lambda s, r, x, y: sp_div2(s, r, x, y, True), G, raw=True, insts=lambda i: i.empty != "throw")


# ---------------------------------------------------------------- elementary functions
NO_ELEMENT = {"log": lambda x: Not(has_pos(x)),
              "asin": lambda x: Or(f_lt(x.hi, ext(-ONE)), f_lt(ext(ONE), x.lo)),
              "acos": lambda x: Or(f_lt(x.hi, ext(-ONE)), f_lt(ext(ONE), x.lo)),
              "acosh": lambda x: f_lt(x.hi, ext(ONE)),
              "atanh": lambda x: Or(f_le(x.hi, ext(-ONE)), f_le(ext(ONE), x.lo))}


def sp_mono(f):
    def sp(s, r, x):
        if f in NO_ELEMENT:
            s.no_result_when(NO_ELEMENT[f](x))
        for a in s.members_of(f, x):
            s.claim("incl", "contains the value at every element of the domain", Implies(s.dom(f, a), r.contains(s.fval(f, a)) if s.sym or s.dom(f, a) else True))
        s.valid(r)
        if f == "log":
            s.claim("incl", "unbounded at the open end of the domain", Implies(Not(And(x.lo.fin(), gt(x.lo.r, Z))), r.lo.ni))
        if f == "atanh":
            s.claim("incl", "unbounded at the open ends of the domain", And(Implies(Not(And(x.lo.fin(), gt(x.lo.r, -ONE))), r.lo.ni),
                                                                     Implies(Not(And(x.hi.fin(), lt(x.hi.r, ONE))), r.hi.pi)))
    return sp


G = "transc"
for f in "exp log asin acos atan sinh cosh tanh asinh acosh atanh".split():
    F(f, "I", "I", "%s(x0)" % f, sp_mono(f), G, transc=True, exact=True)


def sp_trig(f):
    def sp(s, r, x):
        for a in s.members_of(f, x):
            s.claim("incl", "contains the value at every element", r.contains(s.pval(f, a)))
        s.valid(r)
        if f != "tan":
            s.claim("incl", "lies within [-1,1]", And(f_le(ext(-ONE), r.lo), f_le(r.hi, ext(ONE))))
    return sp


def sp_fmod(s, r, x, y):
    x, y = as_iv(x), as_iv(y)
    s.reduced_by(r, x, y)
    s.valid(r)


def one_sign(v):
    return Or(f_lt(ext(Z), v.lo), f_lt(v.hi, ext(Z))) if isinstance(v, IV) else Not(eq(v.r, Z))


def not_zero_divisor(*ops):
    d = ops[-1]
    if isinstance(d, IV):
        return True if d.empty is True else one_sign(d)
    return one_sign(d) if d.nan is False else True


G = "periodic"
for f in "cos sin tan".split():
    F(f, "I", "I", "%s(x0)" % f, sp_trig(f), G, transc=True, exact=True, cost=3, elements=True)
F("fmod_II", "I I", "I", "fmod(x0, x1)", sp_fmod, G, exact=True, pre=not_zero_divisor, cost=3)
F("fmod_IN", "I N", "I", "fmod(x0, x1)", sp_fmod, G, exact=True, pre=not_zero_divisor, cost=2)
F("fmod_NI", "N I", "I", "fmod(x0, x1)", sp_fmod, G, exact=True, pre=not_zero_divisor, cost=2)


def sp_pi(k, adjacent=True):
    def sp(s, r):
        s.claim("incl", "contains the real number", r.contains(s.pi_times(k)))
        s.valid(r)
        if adjacent and s.fmt is not F80:
            s.claim("tight", "the bounds are adjacent numbers", And(r.lo.fin(), r.hi.fin(), f_eq(FP.num(s.fmt, s.fmt.up(r.lo.r)) if is_num(r.lo.r) else INF, r.hi)))
    return sp


G = "const"
for n, k in (("pi", ONE), ("pi_half", Fraction(1, 2)), ("pi_twice", Fraction(2))):
    F(n, "", "I", "boost::numeric::interval_lib::%s<I>()" % n, sp_pi(k), G)
for n, k in (("pi", ONE), ("pi_half", Fraction(1, 2)), ("pi_twice", Fraction(2))):
    F(n + "_int", "", "P", "{ typedef interval<int, policies<rounded_math<int>, checking_base<int> > > J; J j = boost::numeric::interval_lib::%s<J>(); "
      "::new (o[0]) I(j.lower()); ::new (o[1]) I(j.upper()); }" % n,
      (lambda k: lambda s, r: s.claim("incl", "the constant of a type without its own one contains the real number",
                                      And(f_le(r[0].hi, ext(s.pi_times(k))), f_le(ext(s.pi_times(k)), r[1].lo))))(k), G, raw=True)


# ---------------------------------------------------------------- relational
def sp_same(s, r, *ops):
    p, q = r
    s.claim("same", "both forms give the same interval", Or(And(p.empty, q.empty), And(f_eq(p.lo, q.lo), f_eq(p.hi, q.hi))))


def same_of(nm):
    def sp(s, r, *ops):
        if nm == "div":
            s.no_result_when(only_zero(as_iv(ops[-1])))
        sp_same(s, r, *ops)
    return sp


def iso_of(nm):
    def sp(s, r, *ops):
        if nm == "div_l":
            s.no_result_when(only_zero(as_iv(ops[2])))
        if nm in ("div_r", "inverse"):
            s.may_throw = only_zero(ops[0])
        if nm == "sqrt":
            s.may_throw = Or(ops[0].hi.ni, And(ops[0].hi.fin(), lt(ops[0].hi.r, Z)))
        sp_iso(s, r, *ops)
    return sp


def sp_iso(s, r, *ops):
    p, q = r
    s.claim("iso", "the result on the smaller operand is contained in the other", Or(p.empty, And(f_le(q.lo, p.lo), f_le(p.hi, q.hi))))


G = "mixed"
for nm, op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("div", "/")):
    F("mix_%s_IN" % nm, "I N", "P", "std::pair<I, I>(x0 %s x1, x0 %s I(x1))" % (op, op), same_of(nm), G)
    F("mix_%s_NI" % nm, "N I", "P", "std::pair<I, I>(x0 %s x1, I(x0) %s x1)" % (op, op), same_of(nm), G)
    F("mix_%seq_I" % nm, "I I", "P", "{ I a(x0); a %s= x1; I b = x0 %s x1; ::new (o[0]) I(a); ::new (o[1]) I(b); }" % (op, op), same_of(nm), G, raw=True)
    F("mix_%seq_N" % nm, "I N", "P", "{ I a(x0); a %s= x1; I b = x0 %s x1; ::new (o[0]) I(a); ::new (o[1]) I(b); }" % (op, op), same_of(nm), G, raw=True)
    F("mix_%s_NN" % nm, "N N", "P", "std::pair<I, I>(boost::numeric::interval_lib::%s<I>(x0, x1), I(x0) %s I(x1))" % (nm, op), same_of(nm), G)
    if nm in ("add", "mul"):
        F("comm_" + nm, "I I", "P", "std::pair<I, I>(x0 %s x1, x1 %s x0)" % (op, op), sp_same, G)
for nm in ("min", "max", "hull"):
    st = nm != "hull"
    F("mix_%s_IN" % nm, "I N", "P", "std::pair<I, I>(%s(x0, x1), %s(x0, I(x1)))" % (nm, nm), sp_same, G, nan_arg=False, strict=st)
    F("mix_%s_NI" % nm, "N I", "P", "std::pair<I, I>(%s(x0, x1), %s(I(x0), x1))" % (nm, nm), sp_same, G, nan_arg=False, strict=st)
    F("comm_" + nm, "I I", "P", "std::pair<I, I>(%s(x0, x1), %s(x1, x0))" % (nm, nm), sp_same, G, strict=st)
F("comm_intersect", "I I", "P", "std::pair<I, I>(intersect(x0, x1), intersect(x1, x0))", sp_same, G, insts=lambda i: i.empty != "throw")
F("mix_in", "N I", "b", "in(x0, x1) == subset(I(x0), x1)", sp_true_e, G, strict=False, nan_arg=False)


def cmp_same(expr1, expr2, ns):
    u = "using namespace compare::%s; " % ns if ns else ""
    return ("{ %sint r1, r2; try { r1 = (%s) ? 1 : 0; } catch (comparison_error&) { r1 = 2; } "
            "try { r2 = (%s) ? 1 : 0; } catch (comparison_error&) { r2 = 2; } *(int*)o[0] = r1 == r2 ? 1 : 0; }" % (u, expr1, expr2))


for k, op in SYM.items():
    for ns in ("", "certain", "possible", "lexicographic"):
        F("mix_%s_%s" % (ns or "default", k), "I N", "b", cmp_same("x0 %s x1" % op, "x0 %s I(x1)" % op, ns), sp_true_e, G, strict=False, raw=True, nan_arg=False)
    for c in ("cer", "pos"):
        F("mix_f_%s%s_IN" % (c, k), "I N", "b", "%s%s(x0, x1) == %s%s(x0, I(x1))" % (c, k, c, k), sp_true_e, G, strict=False, nan_arg=False, empties=False)
        F("mix_f_%s%s_NI" % (c, k), "N I", "b", "%s%s(x0, x1) == %s%s(I(x0), x1)" % (c, k, c, k), sp_true_e, G, strict=False, nan_arg=False, empties=False)

G = "iso"
nested = lambda *ops: sub_of(ops[0], ops[1])
ISO = dict(pre=nested, empties=False, exact=True, nan_arg=False)
no_throw = lambda i: i.empty != "throw"
for nm, op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("div", "/")):
    F("iso_%s_l" % nm, "I I I", "P", "std::pair<I, I>(x0 %s x2, x1 %s x2)" % (op, op), iso_of(nm + "_l"), G, **ISO)
    F("iso_%s_r" % nm, "I I I", "P", "std::pair<I, I>(x2 %s x0, x2 %s x1)" % (op, op), iso_of(nm + "_r"), G, **ISO)
    F("iso_%s_IN" % nm, "I I N", "P", "std::pair<I, I>(x0 %s x2, x1 %s x2)" % (op, op), iso_of(nm + "_l"), G, **ISO)
    F("iso_%s_NI" % nm, "I I N", "P", "std::pair<I, I>(x2 %s x0, x2 %s x1)" % (op, op), iso_of(nm + "_r"), G, **ISO)
for nm in ("min", "max", "hull", "intersect"):
    lim = {"insts": no_throw} if nm == "intersect" else {}
    F("iso_%s_l" % nm, "I I I", "P", "std::pair<I, I>(%s(x0, x2), %s(x1, x2))" % (nm, nm), iso_of(nm), G, **ISO, **lim)
    F("iso_%s_r" % nm, "I I I", "P", "std::pair<I, I>(%s(x2, x0), %s(x2, x1))" % (nm, nm), iso_of(nm), G, **ISO, **lim)
for nm, ex in (("neg", "-%s"), ("abs", "abs(%s)"), ("square", "square(%s)"), ("sqrt", "sqrt(%s)"), ("inverse", "multiplicative_inverse(%s)")):
    F("iso_" + nm, "I I", "P", "std::pair<I, I>(%s, %s)" % (ex % "x0", ex % "x1"), iso_of(nm), G, **ISO)

# ---------------------------------------------------------------- rounding policies
G = "policy"
NOT_MED = {"add": 2, "sub": 2, "mul": 2, "div": 2, "sqrt": 1, "int": 1}


def sp_rnd(op, mode, w=64):
    def sp(s, r, *a):
        e = s.rnd_op(op, mode, a, w)
        s.claim("val", "correctly rounded", f_same(r, e))
    return sp


RB = "{ typename_R rnd; *(T*)o[0] = rnd.%s; }"
one_inst = lambda i: i.name[1:] in ("b", "s", "u", "v")
for op, n in NOT_MED.items():
    for d, m in (("down", DOWN), ("up", UP)):
        F("rnd_%s_%s" % (op, d), " ".join(["N"] * n), "N", "{ typedef I::traits_type::rounding R; R rnd; *(T*)o[0] = rnd.%s_%s(%s); }" % (op, d, ", ".join("x%d" % k for k in range(n))),
          sp_rnd(op, m), G, raw=True, inf_arg=True, strict=False, insts=one_inst, exact=True,
          pre={"div": lambda x, y: Not(And(y.fin(), eq(y.r, Z)))}.get(op))
for c in "iuqQdfe":
    for d, m in (("down", DOWN), ("up", UP)):
        F("rnd_conv_%s_%s" % (c, d), c, "N", "{ typedef I::traits_type::rounding R; R rnd; *(T*)o[0] = rnd.conv_%s(x0); }" % d,
          sp_rnd("conv", m, 64 if c in "qQ" else 32), G, raw=True, strict=False, insts=one_inst, exact=True)
F("rnd_median", "N N", "N", "{ typedef I::traits_type::rounding R; R rnd; *(T*)o[0] = rnd.median(x0, x1); }",
  lambda s, r, x, y: s.claim("val", "lies between its arguments", And(f_le(x, r), f_le(r, y))), G, raw=True, nan_arg=False, strict=False, insts=one_inst, exact=True,
  pre=lambda x, y: le(x.r, y.r))

# the policy for exact base types: no rounding direction is set; a representable result is returned as it is
def sp_rnd_exact(op, w=64):
    def sp(s, r, *a):
        d, u = s.rnd_op(op, DOWN, a, w), s.rnd_op(op, UP, a, w)
        s.claim("val", "a result that needs no rounding is returned exactly", Implies(f_same(d, u), f_same(r, d)))
        if d.nan is False:
            s.claim("val", "between the two neighbours of the result", And(f_le(d, r), f_le(r, u)))
    return sp


EXR = "{ rounded_arith_exact<T> rnd; *(T*)o[0] = rnd.%s; }"
exact_inst = lambda i: i.name[1:] == "b"
for op, n in NOT_MED.items():
    for d in ("down", "up"):
        if op == "int":
            sp = sp_rnd(op, DOWN if d == "down" else UP)
        else:
            sp = sp_rnd_exact(op)
        F("rnde_%s_%s" % (op, d), " ".join(["N"] * n), "N", EXR % ("%s_%s(%s)" % (op, d, ", ".join("x%d" % k for k in range(n)))),
          sp, G, raw=True, inf_arg=True, strict=False, insts=exact_inst, exact=True,
          pre={"div": lambda x, y: Not(And(y.fin(), eq(y.r, Z)))}.get(op))
for d in ("down", "up"):
    F("rnde_conv_%s" % d, "i", "N", EXR % ("conv_%s(x0)" % d), sp_rnd_exact("conv", 32), G, raw=True, strict=False, insts=exact_inst, exact=True)
def small_sum(x, y):
    m = x.fmt.MAX if is_num(x.r) and is_num(y.r) else x.fmt.sMAX
    return And(le(x.r, y.r), le(add(y.r, y.r), m), le(neg(m), add(x.r, x.r)))


F("rnde_median", "N N", "N", EXR % "median(x0, x1)",
  lambda s, r, x, y: s.claim("val", "lies between its arguments", And(f_le(x, r), f_le(r, y))), G, raw=True, nan_arg=False, strict=False,
  insts=exact_inst, exact=True, pre=small_sum, prepare=lambda ex, inst: setattr(ex.ctx, "dbl_lemmas", True))


# ---------------------------------------------------------------- numeric_limits of the interval types
def sp_limit(v):
    def sp(s, r):
        e = v(s.fmt)
        s.claim("val", "is the interval that holds exactly the limit of the base type", And(f_eq(r.lo, FP.num(s.fmt, e)), f_eq(r.hi, FP.num(s.fmt, e))))
    return sp


G = "limits"
NL = "std::numeric_limits<I>::%s"
F("lim_min", "", "I", NL % "min()", sp_limit(lambda f: Fraction(2) ** f.emin), G)
F("lim_max", "", "I", NL % "max()", sp_limit(lambda f: f.MAX), G)
F("lim_epsilon", "", "I", NL % "epsilon()", sp_limit(lambda f: Fraction(2) ** (1 - f.p)), G)
F("lim_denorm_min", "", "I", NL % "denorm_min()", sp_limit(lambda f: f.ETA), G)
F("lim_infinity", "", "I", NL % "infinity()", lambda s, r: s.claim("val", "is the whole line", And(r.lo.ni, r.hi.pi)), G)
F("lim_quiet_NaN", "", "I", NL % "quiet_NaN()", lambda s, r: s.claim("val", "is the empty interval", r.empty), G, insts=lambda i: i.empty != "throw", may_empty=True)
F("lim_traits", "", "b", "(std::numeric_limits<I>::is_specialized && !std::numeric_limits<I>::is_iec559 && std::numeric_limits<I>::round_style == std::round_indeterminate"
  " && !std::numeric_limits<I>::is_integer && std::numeric_limits<I>::digits == std::numeric_limits<T>::digits && std::numeric_limits<I>::is_signed)",
  sp_true, G)

# ---------------------------------------------------------------- text output
def sp_text(s, r, x):
    t = "the text is [lower,upper], or [] for the empty interval, and the stream is returned"
    if not s.sym:
        s.claim("val", t, r)
        return
    same, items = r
    emp = x.empty if x.empty is not None else False
    want = [[c] for c in "[]"], [["["], [x.lo], [","], [x.hi], ["]"]]

    def eq1(a, b):
        if isinstance(a, FP) and isinstance(b, FP):
            return f_same(a, b)
        return isinstance(a, str) and a == b

    def matches(w):
        return len(w) == len(items) and And(*[eq1(i, k[0]) for (i, _), k in zip(items, w)])
    e = Not(f_le(x.lo, x.hi))
    s.claim("val", t, And(same, Or(And(e, matches(want[0])), And(Not(e), matches(want[1])))))


OUT_NATIVE = """{ std::basic_ostringstream<%(c)s> s, q; s.precision(19); q.precision(19);
  std::basic_ostream<%(c)s>& r = (s << x0);
  if (x0.lower() <= x0.upper()) q << '[' << x0.lower() << ',' << x0.upper() << ']'; else q << "[]";
  *(int*)o[0] = (&r == &s) && s.str() == q.str(); }"""
for c, nm in (("char", ""), ("wchar_t", "w")):
    F("print" + nm, "I", "w", "{ std::basic_ostream<%s>* s = vc_%sstream(); std::basic_ostream<%s>& r = (*s << x0); *(int*)o[0] = (&r == s); }" % (c, nm, c),
      sp_text, "text", raw=True, strict=False, native_body=OUT_NATIVE % {"c": c})
