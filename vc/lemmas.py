"""The facts about real numbers and binary formats that obligations may use.

Every fact the verifier instantiates is built by a function of this file.  CATALOG evaluates the same functions at
generic arguments; `lean_source` prints the resulting formulas as Lean statements, and lean/Proofs.lean holds a proof of
each (vc/leancheck.py runs Lean on them).  So what is instantiated is what is proved."""
from fractions import Fraction
import z3
from logic import *

I, A, O, N = z3.Implies, z3.And, z3.Or, z3.Not
ZERO, ONE = z3.RealVal(0), z3.RealVal(1)
PI_LO, PI_HI = Fraction(314159265358979323846, 10**20), Fraction(314159265358979323847, 10**20)


def Q(f):
    f = Fraction(f)
    return z3.Q(f.numerator, f.denominator)


# ---------------------------------------------------------------- rounding
def fmt_facts(M, B):
    """M the largest number, B half a unit in its last place"""
    return [M > z3.RealVal(10**30), B > 0, 8 * B < M]


def fmt_order(a, b, c):
    return [a < b, b < c]


def rep_range(M, r):
    """r a number of the format"""
    return [r <= M, -M <= r]


def rd_def(M, t, d):
    """d = t rounded downward (M the largest number)"""
    return [d <= M, -M <= d, I(-M <= t, d <= t)]


def rd_rep(t, d, r):
    """r a number of the format (or narrower)"""
    return [I(r <= t, r <= d), I(-r <= t, -r <= d)]


def rd_const(t, d):
    return [I(c <= t, c <= d) for c in (ZERO, ONE, -ONE)]


def rd_max(t, d, M):
    return [I(M <= t, M <= d)]


def floor_def(t, d):
    return [d <= t, t < d + 1]


def int_apart(r, c):
    """r, c integers (as reals)"""
    out = []
    for q in (c, -c):
        out += [O(r <= q, r >= q + 1), O(r >= q, r <= q - 1)]
    return out


def rn_def(M, t, n):
    return [n <= M, -M <= n]


def rn_over(M, B, t, bp, bn):
    """bp, bn: rounding t to nearest overflows to +, - infinity"""
    return [I(bp, t >= M + B), I(bn, t <= -M - B)]


def rn_rep(t, n, r):
    out = []
    for q in (r, -r):
        out += [I(q <= t, A(q <= n, n - t <= t - q)), I(q >= t, A(q >= n, t - n <= q - t))]
    return out


def rn_sign(t, n):
    return [I(t >= 0, n >= 0), I(t <= 0, n <= 0)]


def rn_double(M, t, n, r):
    """doubling a number is exact up to the largest number"""
    out = []
    for q in (2 * r, -2 * r):
        out += [I(A(q <= t, -M <= q, q <= M), q <= n), I(A(t <= q, -M <= q, q <= M), n <= q)]
    return out


def rd_double(M, t, d, r):
    """doubling a number is exact up to the largest number"""
    return [I(A(q <= t, -M <= q, q <= M), q <= d) for q in (2 * r, -2 * r)]


def rn_half(B, t, n, r):
    """t = r/2: halving is exact for numbers that are not small"""
    return [I(O(r >= B, r <= -B), n == t)]


def rint_def(x, n):
    return [n - x <= z3.Q(1, 2), x - n <= z3.Q(1, 2)]


def int_exact(B, t, v):
    """t an integer, v its rounding, B = 2^p"""
    return [I(A(-B <= t, t <= B), v == t)]


# ---------------------------------------------------------------- quotients and square roots
def quo_def(a, b, q):
    z = Fraction(0)
    fs = [Implies(Not(eq(b, z)), eq(mul(q, b), a)),
          Implies(And(ge(a, z), gt(b, z)), ge(q, z)), Implies(And(le(a, z), gt(b, z)), le(q, z)),
          Implies(And(ge(a, z), lt(b, z)), le(q, z)), Implies(And(le(a, z), lt(b, z)), ge(q, z))]
    return [f for f in fs if f is not True]


def sqrt_def(a, s):
    return [s >= 0, I(a >= 0, s * s == a)]


# ---------------------------------------------------------------- integer powers
def pow_def(t, n, p):
    """p = t^n"""
    return [I(n == 0, p == 1), I(n == 1, p == t),
            I(A(t >= 0, n >= 0), p >= 0), I(A(t > 0, n >= 0), p > 0),
            I(A(t == 0, n > 0), p == 0), I(A(t == 1, n >= 0), p == 1),
            I(A(n % 2 == 0, n >= 0), p >= 0), I(A(t != 0, n >= 0), p != 0),
            I(A(t >= 1, n >= 1), p >= t), I(A(t >= 0, t <= 1, n >= 1), p <= t)]


def pow_pair(X, Y, first):
    """laws relating P = t^m and Q = s^n"""
    (t, m, P), (s, n, Q) = X, Y
    z = ZERO
    same, base = m.eq(n), t.eq(s)
    out = []
    if not base:
        c = A(m >= 0, m == n)
        out.append(I(A(c, z <= t, t <= s), P <= Q))
        if first:
            out.append(I(A(c, t == -s), P == z3.If(m % 2 == 0, Q, -Q)))
            if not same:
                out.append(I(A(c, t == s), P == Q))
    elif first:
        out.append(I(m == n, P == Q))
    if same:
        return out
    if base:
        out.append(I(A(m >= 0, n == m + 1), Q == s * P))
        out.append(I(A(m >= 0, n == m + m), Q == P * P))
        return out
    pos = A(m >= 0, z <= t, z <= s)
    lo, hi = A(pos, t <= s * s), A(pos, t >= s * s)
    for d, e, f in ((lo, A(pos, t <= s), lambda a, b: a <= b), (hi, A(pos, t >= s), lambda a, b: a >= b)):
        out.append(I(d, A(I(n == 2 * m, f(P, Q)), I(n == 2 * m + 2, f(t * P, Q)), I(n == 2 * m + 1, f(s * P, Q)))))
        out.append(I(A(e, n == m + 1), f(s * P, Q)))
    return out


def pow_parity(n, p, q):
    """p = a^n, q = (-a)^n"""
    return [I(A(n >= 0, n % 2 == 0), p == q), I(A(n >= 0, n % 2 == 1), p == -q)]


def root_def(v, n, r, p):
    """r the n-th root of v, p = r^n"""
    return [r >= 0, I(A(v >= 0, n >= 1), p == v)]


def root_pair(r, v, s, w):
    """r, s the roots of v, w of one order n >= 1"""
    c = A(v >= 0, w >= 0)
    return [I(c, a == b) for a, b in ((r * s < 1, v * w < 1), (r * s > 1, v * w > 1), (r <= s, v <= w), (r >= s, v >= w))]


def mean_value(b, r, n, x, P, Q, E, Y):
    """P = b^n, Q = r^n (r >= 0), Y = x^(n-1): x is a point between b and r where the slope E of t^n is that of the chord"""
    c = A(b >= 0, n >= 1)
    return [I(c, A(O(A(b <= x, x <= r), A(r <= x, x <= b)), E >= 0, P - Q == E * (b - r))), E == z3.ToReal(n) * Y]


# ---------------------------------------------------------------- elementary functions
ODD = ("sin", "tan", "asin", "atan", "sinh", "tanh", "asinh", "atanh")
EVEN = ("cos", "cosh")
DECR = ("acos",)
FUNS = ("exp", "log", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh")


def pi_def(P):
    return [P > Q(PI_LO), P < Q(PI_HI)]


def pi_mul(n, p):
    """p = n pi"""
    lo, hi = Q(PI_LO), Q(PI_HI)
    return [I(n >= 0, A(lo * n <= p, p <= hi * n)), I(n <= 0, A(hi * n <= p, p <= lo * n))]


def dom(f, t, closed=False):
    """t is in the domain of the real function f (closed: or at a pole)"""
    z, one = Fraction(0), Fraction(1)
    if f == "log":
        return ge(t, z) if closed else gt(t, z)
    if f in ("asin", "acos"):
        return And(le(-one, t), le(t, one))
    if f == "acosh":
        return ge(t, one)
    if f == "atanh":
        return And(le(-one, t), le(t, one)) if closed else And(lt(-one, t), lt(t, one))
    return True


def fn_def(f, T, v, P):
    """v = f(T), P = pi"""
    D = dom(f, T)
    fs = {"exp": [v > 0, I(T >= 0, v >= 1), I(T <= 0, v <= 1)], "cosh": [v >= 1], "cos": [v >= -1, v <= 1], "tanh": [v > -1, v < 1],
          "asin": [Implies(D, A(2 * v >= -P, 2 * v <= P))], "acos": [Implies(D, A(v >= 0, v <= P))],
          "atan": [2 * v > -P, 2 * v < P], "acosh": [Implies(D, v >= 0)],
          "log": [I(T >= 1, v >= 0), I(A(0 < T, T <= 1), v <= 0)]}.get(f, [])
    if f in ("asin", "atan", "sinh", "tanh", "asinh", "atanh"):
        fs = fs + [Implies(And(D, T >= 0), v >= 0), Implies(And(D, T <= 0), v <= 0)]
    if f == "cos":
        fs.append(P > 3)
    if f == "tan":
        fs = [P > 3, I(A(T >= 0, 2 * T < P), v >= 0), I(A(T <= 0, 2 * T > -P), v <= 0)]
    fs = fs + [I(T == (1 if f in ("log", "acos", "acosh") else 0), v == (1 if f in EVEN or f == "exp" else 0))]
    return [x for x in fs if x is not True]


def fn_pair(f, s, a, t, b, P, first):
    """a = f(s), b = f(t)"""
    out = []
    if f == "cos":
        for x in (s, -s):
            for y in (t, -t):
                out.append(I(A(0 <= x, x <= y, y <= P), b <= a))
                out.append(I(A(0 <= x, x <= 2 * P - y, P <= y), b <= a))
        if first:
            out.append(I(s == -t, a == b))
            out.append(I(s == t, a == b))
    elif f == "tan":
        out.append(I(A(-P < 2 * s, s <= t, 2 * t < P), a <= b))
        if first:
            out.append(I(A(-P < 2 * s, s <= -t, -P < 2 * t), a <= -b))
            out.append(I(A(2 * s < P, -t <= s, 2 * t < P), -b <= a))
            out.append(I(s == -t, a == -b))
            out.append(I(s == t, a == b))
    elif f == "cosh":
        out.append(I(A(s <= t, -s <= t), a <= b))
        out.append(I(A(t <= s, t <= -s), a <= b))
    else:
        d = And(dom(f, s), dom(f, t))
        out.append(I(zt(And(d, s <= t)), b <= a if f in DECR else a <= b))
        if f in ODD and first:
            out.append(I(zt(And(d, s == -t)), a == -b))
            out.append(I(zt(And(d, s <= -t)), a <= -b))
            out.append(I(zt(And(d, -t <= s)), -b <= a))
    return out


# ---------------------------------------------------------------- the same facts as Lean statements
LEANF = {"exp": "Real.exp", "log": "Real.log", "cos": "Real.cos", "tan": "Real.tan", "asin": "Real.arcsin", "acos": "Real.arccos",
         "atan": "Real.arctan", "sinh": "Real.sinh", "cosh": "Real.cosh", "tanh": "Real.tanh", "asinh": "Real.arsinh",
         "acosh": "Real.arcosh", "atanh": "Real.artanh"}
LF = {"log": "(0 < %s)", "asin": "", "acos": ""}


def catalog():
    """(name, Lean binders, {constant: Lean term}, formulas or a Lean text)"""
    r = z3.Real
    t, s, d, n_, M, B, a, b, q, v, w, p, P, x = (r(c) for c in "t s d nn M B a b q v w p P x".split())
    m, n = z3.Int("m"), z3.Int("n")
    bp, bn = z3.Bool("bp"), z3.Bool("bn")
    F = {"M": "F.MAX", "B": "F.BIG", "d": "(rd F t)", "nn": "(rn F t)", "p": "(pw t n)", "q": "q"}
    Ft, Ftr = "(F : Fmt) (t : ℝ)", "(F : Fmt) (t r : ℝ) (hr : r ∈ F.S)"
    rr = r("r")
    L = []

    def lem(name, binders, sub, fs):
        L.append((name, binders, sub, fs))
    lem("fmt_facts32", "", {"M": "F32.MAX", "B": "F32.BIG"}, fmt_facts(M, B))
    lem("fmt_facts64", "", {"M": "F64.MAX", "B": "F64.BIG"}, fmt_facts(M, B))
    lem("fmt_facts80", "", {"M": "F80.MAX", "B": "F80.BIG"}, fmt_facts(M, B))
    lem("fmt_order", "", {"a": "F32.MAX", "b": "F64.MAX", "v": "F80.MAX"}, fmt_order(a, b, v))
    lem("rep_range", "(F : Fmt) (r : ℝ) (hr : r ∈ F.S)", F, rep_range(M, rr))
    lem("rd_def", Ft, F, rd_def(M, t, d))
    lem("rd_rep", Ftr, F, rd_rep(t, d, rr))
    lem("rd_double", Ftr, F, rd_double(M, t, d, rr))
    lem("rd_const", Ft, F, rd_const(t, d))
    lem("rd_max", Ft, F, rd_max(t, d, M))
    lem("floor_def", "(t : ℝ)", {"d": "((⌊t⌋ : ℤ) : ℝ)"}, floor_def(t, d))
    lem("floor_rep", "(t : ℝ) (k : ℤ)", {"d": "((⌊t⌋ : ℤ) : ℝ)", "r": "(k : ℝ)"}, rd_rep(t, d, rr) + rd_const(t, d))
    lem("int_apart", "(k l : ℤ)", {"r": "(k : ℝ)", "s": "(l : ℝ)"}, int_apart(rr, s))
    lem("rn_def", Ft, F, rn_def(M, t, n_))
    lem("rn_over", Ft, {"M": "F.MAX", "B": "F.BIG", "bp": "(F.MAX + F.BIG ≤ t)", "bn": "(t ≤ -(F.MAX + F.BIG))"}, rn_over(M, B, t, bp, bn))
    lem("rn_rep", Ftr, F, rn_rep(t, n_, rr))
    lem("rn_sign", Ft, F, rn_sign(t, n_))
    lem("rn_double", Ftr, F, rn_double(M, t, n_, rr))
    lem("rn_half", Ftr + " (h2 : 2 * t = r)", F, rn_half(B, t, n_, rr))
    lem("rint_def", "(x : ℝ)", {"nn": "((round x : ℤ) : ℝ)"}, rint_def(x, n_))
    lem("int_exact_down", "(F : Fmt) (k : ℤ)", {"t": "(k : ℝ)", "B": "((2:ℝ)^F.p)", "v": "(rd F k)"}, int_exact(B, t, v))
    lem("int_exact_near", "(F : Fmt) (k : ℤ)", {"t": "(k : ℝ)", "B": "((2:ℝ)^F.p)", "v": "(rn F k)"}, int_exact(B, t, v))
    # what is a number of the format ("add_rep")
    for nm, bi, st in (
            ("mem_neg", "(F : Fmt) (x : ℝ) (h : x ∈ F.S)", "-x ∈ F.S"),
            ("mem_widen", "(x : ℝ)", "(x ∈ F32.S → x ∈ F64.S) ∧ (x ∈ F64.S → x ∈ F80.S)"),
            ("mem_rd", "(F : Fmt) (t : ℝ)", "rd F t ∈ F.S"),
            ("mem_rn", "(F : Fmt) (t : ℝ)", "rn F t ∈ F.S"),
            ("mem_int", "(F : Fmt) (k : ℤ) (h : |k| ≤ 2 ^ F.p)", "(k : ℝ) ∈ F.S"),
            ("mem_integer_part", "(F : Fmt) (x : ℝ) (k : ℤ) (h : x ∈ F.S) (hk : |(k : ℝ) - x| < 1)", "(k : ℝ) ∈ F.S"),
            ("int_rd", "(F : Fmt) (k : ℤ)", "∃ j : ℤ, rd F k = j"),
            ("int_rn", "(F : Fmt) (k : ℤ)", "∃ j : ℤ, rn F k = j")):
        lem(nm, bi, {}, st)
    lem("quo_def", "(a b : ℝ)", {"q": "(a / b)"}, quo_def(a, b, q))
    lem("sqrt_def", "(a : ℝ)", {"s": "(Real.sqrt a)"}, sqrt_def(a, s))
    PQ = {"P": "(pw t m)", "q": "(pw s n)"}
    lem("pow_def", "(t : ℝ) (n : ℤ)", F, pow_def(t, n, p))
    for first in (True, False):
        k = "1" if first else "2"
        lem("pow_pair_general" + k, "(t s : ℝ) (m n : ℤ)", PQ, pow_pair((t, m, P), (s, n, q), first))
        lem("pow_pair_same_exponent" + k, "(t s : ℝ) (m : ℤ)", {"P": "(pw t m)", "q": "(pw s m)"}, pow_pair((t, m, P), (s, m, q), first))
        lem("pow_pair_same_base" + k, "(t : ℝ) (m n : ℤ)", {"P": "(pw t m)", "q": "(pw t n)"}, pow_pair((t, m, P), (t, n, q), first))
    lem("pow_parity", "(a : ℝ) (n : ℤ)", {"p": "(pw a n)", "q": "(pw (-a) n)"}, pow_parity(n, p, q))
    lem("pow_code", "(t : ℝ)", {}, "pw t 0 = 1 ∧ pw t 1 = t ∧ (∀ n : ℕ, pw t n = t ^ n)")
    lem("root_def", "(v : ℝ) (n : ℤ)", {"r": "(rt v n)", "p": "(pw (rt v n) n)"}, root_def(v, n, rr, p))
    lem("root_pair", "(v w : ℝ) (n : ℤ) (hn : 1 ≤ n)", {"r": "(rt v n)", "s": "(rt w n)"}, root_pair(rr, v, s, w))
    E, Y = r("E"), r("Y")
    lem("mean_value", "(b r : ℝ) (n : ℤ) (hr : 0 ≤ r)", {"P": "(pw b n)", "q": "(pw r n)", "Y": "(pw x (n - 1))", "@": "∃ x E : ℝ, "},
        mean_value(b, rr, n, x, P, q, E, Y))
    pi = {"P": "Real.pi", "p": "((k : ℝ) * Real.pi)"}
    lem("pi_def", "", pi, pi_def(P))
    lem("pi_mul", "(n : ℝ)", {"p": "(n * Real.pi)", "n": "n"}, pi_mul(r("n"), p))
    for f in FUNS:
        sub = {"P": "Real.pi", "v": "(%s t)" % LEANF[f], "a": "(%s s)" % LEANF[f], "b": "(%s t)" % LEANF[f]}
        lem("def_" + f, "(t : ℝ)", sub, fn_def(f, t, v, P))
        lem("pair_" + f, "(s t : ℝ)", sub, fn_pair(f, s, a, t, b, P, True))
        if f in ODD:
            lem("odd_" + f, "(t : ℝ)", {}, "%s (-t) = -%s t" % (LEANF[f], LEANF[f]))
        if f in EVEN:
            lem("even_" + f, "(t : ℝ)", {}, "%s (-t) = %s t" % (LEANF[f], LEANF[f]))
    lem("sin_cos", "(t : ℝ)", {}, "Real.sin t = Real.cos (t - Real.pi / 2)")
    lem("period_cos", "(t : ℝ) (k : ℤ)", {}, "Real.cos t = Real.cos (t - 2 * (k * Real.pi)) ∧ Real.cos t = -Real.cos (t - 2 * (k * Real.pi) - Real.pi)")
    lem("period_tan", "(t : ℝ) (k : ℤ)", {}, "Real.tan t = Real.tan (t - k * Real.pi) ∧ Real.tan t = Real.tan (t - k * Real.pi + -Real.pi)")
    return L


def to_lean(e, sub):
    def num(v, real):
        if v.denominator == 1:
            return "(%d:%s)" % (v.numerator, "ℝ" if real else "ℤ")
        return "((%d:ℝ)/%d)" % (v.numerator, v.denominator)

    def go(e):
        if isinstance(e, bool):
            return "True" if e else "False"
        k = e.decl().kind()
        ch = e.children()
        if z3.is_rational_value(e) or z3.is_int_value(e):
            return num(Fraction(e.as_fraction()) if z3.is_rational_value(e) else Fraction(e.as_long()), e.sort() == z3.RealSort())
        if z3.is_true(e):
            return "True"
        if z3.is_const(e):
            return sub.get(e.decl().name(), e.decl().name())
        c = [go(y) for y in ch]
        inf = {z3.Z3_OP_ADD: "+", z3.Z3_OP_MUL: "*", z3.Z3_OP_SUB: "-", z3.Z3_OP_LE: "≤", z3.Z3_OP_LT: "<", z3.Z3_OP_GE: "≥",
               z3.Z3_OP_GT: ">", z3.Z3_OP_AND: "∧", z3.Z3_OP_OR: "∨", z3.Z3_OP_IMPLIES: "→", z3.Z3_OP_MOD: "%"}
        if k == z3.Z3_OP_EQ:
            return "(%s %s %s)" % (c[0], "↔" if ch[0].sort() == z3.BoolSort() else "=", c[1])
        if k in inf:
            return "(" + (" %s " % inf[k]).join(c) + ")"
        if k == z3.Z3_OP_DISTINCT:
            return "(%s ≠ %s)" % tuple(c)
        if k == z3.Z3_OP_NOT:
            return "(¬ %s)" % c[0]
        if k == z3.Z3_OP_UMINUS:
            return "(-%s)" % c[0]
        if k == z3.Z3_OP_ITE:
            return "(if %s then %s else %s)" % tuple(c)
        if k == z3.Z3_OP_TO_REAL:
            return "((%s : ℤ) : ℝ)" % c[0]
        raise ValueError("no Lean form: %s" % e)
    return go(e)


def statements():
    out = []
    for name, binders, sub, fs in catalog():
        if isinstance(fs, str):
            out.append((name, binders, fs))
            continue
        st = " ∧\n    ".join(to_lean(f, sub) for f in fs)
        out.append((name, binders, sub.get("@", "") + st))
    return out
