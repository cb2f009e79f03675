"""Real functions used in specifications (uninterpreted over the reals, with the
stated facts instantiated at the terms of the obligation)."""
from fractions import Fraction
import z3
from logic import *
from fpv import *
from theory import DOWN, UP, NEAR, TZ, vars_of
import lemmas as L
from lemmas import ODD, EVEN, dom

R = z3.RealSort()
UF = {f: z3.Function("f_" + f, R, R) for f in
      "exp log sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh".split()}
PI = z3.Real("pi")


# ---------------------------------------------------------------- integer powers
def ipow(ctx, t, n):
    """t^n for an integer n >= 0 (t^0 = 1)"""
    if is_num(n) and n == 0:
        return Fraction(1)
    if is_num(n) and n == 1:
        return t
    if is_num(t) and is_num(n):
        return Fraction(t) ** n
    ts = t if is_num(t) else z3.simplify(t, som=True)
    ns = n if is_num(n) else z3.simplify(n)
    if not is_num(ns) and z3.is_int_value(ns):
        return ipow(ctx, t, ns.as_long())
    if not is_num(ts) and z3.is_rational_value(ts):
        ts = ts.as_fraction()
    if is_num(ts) and ts in (0, 1) and is_num(ns):
        return Fraction(ts) if ns > 0 else Fraction(1)
    k = (ts if is_num(ts) else ts.get_id(), ns if is_num(ns) else ns.get_id())
    reg = ctx.__dict__.setdefault("pows", {})
    if k not in reg:
        p = ctx.fresh("pw")
        reg[k] = (zt(ts), zt(ns), p)
        ctx.keep += [zt(ts), zt(ns)]
        if pow_lemmas not in ctx.lemma_cb:
            ctx.lemma_cb.append(pow_lemmas)
        t, n = zt(ts), zt(ns)
        ctx.define(p, *L.pow_def(t, n, p))
    return reg[k][2]


def pow_lemmas(ctx, seen):
    act = [e for e in ctx.pows.values() if e[2].decl().name() in seen]
    cache = ctx.__dict__.setdefault("powcache", {})
    out = []
    for a in range(len(act)):
        for b in range(len(act)):
            if a == b:
                continue
            k = (act[a][2].get_id(), act[b][2].get_id())
            if k not in cache:
                vs = frozenset().union(*(vars_of(act[i][j]) for i in (a, b) for j in (0, 1)))
                cache[k] = (vs, L.pow_pair(act[a], act[b], a < b))
            vs, fs = cache[k]
            if vs <= seen:
                out += fs
    return out


def nth_root(ctx, v, n):
    """the non-negative real r with r^n = v (v >= 0, n >= 1)"""
    reg = ctx.__dict__.setdefault("roots", {})
    k = (v if is_num(v) else v.get_id(), n if is_num(n) else n.get_id())
    if k not in reg:
        r = ctx.fresh("root")
        reg[k] = (r, v, n)
        ctx.keep += [zt(v), zt(n)]
        ctx.define(r, *L.root_def(zt(v), zt(n), r, zt(ipow(ctx, r, n))))
        if root_lemmas not in ctx.lemma_cb:
            ctx.lemma_cb.append(root_lemmas)
        for b in ctx.__dict__.get("mvpts", []):
            mean_value1(ctx, b, n, reg[k])
    return reg[k][0]


def root_lemmas(ctx, seen):
    """products of roots of the same order"""
    act = [e for e in ctx.roots.values() if e[0].decl().name() in seen and vars_of(zt(e[1])) <= seen]
    out = []
    for i in range(len(act)):
        for j in range(i):
            (r, v, n), (s, w, m) = act[i], act[j]
            if not (n == m if is_num(n) and is_num(m) else not is_num(n) and not is_num(m) and n.eq(m)):
                continue
            out += L.root_pair(r, zt(v), s, zt(w))
    return out


def mean_value(ctx, b, n):
    """mean value theorem for t^n between b and every n-th root in use"""
    pts = ctx.__dict__.setdefault("mvpts", [])
    b = zt(b)
    if any(p.eq(b) for p in pts):
        return
    pts.append(b)
    for e in list(ctx.__dict__.get("roots", {}).values()):
        mean_value1(ctx, b, n, e)


def mean_value1(ctx, b, n, e):
    import ivc
    r, v, m = e
    if is_num(m) != is_num(n) or (is_num(m) and m != n) or (not is_num(m) and not m.eq(n)):
        return
    x = ctx.fresh("xi")
    P, Q = ipow(ctx, b, n), ipow(ctx, r, n)
    m1 = n - 1 if is_num(n) else z3.simplify(n - 1)
    E = ctx.fresh("slope")
    at, slope = L.mean_value(b, r, zt(n), x, zt(P), zt(Q), E, zt(ipow(ctx, x, m1)))
    ctx.define(x, at)
    ctx.define(E, slope)
    ctx.define(P, *ctx.defs[x.decl().name()])
    ivc.add_point(ctx, x, b)


# ---------------------------------------------------------------- elementary functions
def pi(ctx):
    ctx.define(PI, *L.pi_def(PI))
    return PI


def pi_mul(ctx, n):
    """n * pi for a number n, described by linear facts"""
    if is_num(n):
        return mul(Fraction(n), pi(ctx))
    reg = ctx.__dict__.setdefault("pimul", {})
    n = z3.simplify(n)
    k = n.get_id()
    if k not in reg:
        m = neg(n)
        m = z3.simplify(m)
        if m.get_id() in reg:
            return neg(reg[m.get_id()][0])
        p = ctx.fresh("npi")
        ctx.define(p, *L.pi_mul(n, p))
        ctx.keep.append(n)
        reg[k] = (p, n)
    return reg[k][0]


def norm(t):
    """(sign, term): t or its opposite in a canonical form"""
    if is_num(t):
        return (-1, -Fraction(t)) if t < 0 else (1, Fraction(t))
    t = z3.simplify(t, som=True)
    if z3.is_rational_value(t):
        return norm(t.as_fraction())
    m = z3.simplify(-t, som=True)
    if len(m.sexpr()) < len(t.sexpr()):
        return -1, m
    return 1, t


def fapp(ctx, f, t):
    """the real number f(t)"""
    if f == "sin":
        return fapp(ctx, "cos", add(t, mul(Fraction(-1, 2), pi(ctx))))
    if f in ODD or f in EVEN:
        sg, t = norm(t)
        if is_num(t) and t == 0:
            return Fraction(0) if f in ODD else Fraction(1)
        if sg < 0 and f in ODD:
            return neg(fapp1(ctx, f, t))
        return fapp1(ctx, f, t)
    if not is_num(t):
        t = z3.simplify(t, som=True)
        if z3.is_rational_value(t):
            t = t.as_fraction()
    if is_num(t) and t == {"exp": 0, "log": 1, "acos": 1, "acosh": 1}[f]:
        return Fraction(1 if f == "exp" else 0)
    return fapp1(ctx, f, t)


def fapp1(ctx, f, t):
    reg = ctx.__dict__.setdefault("fns", {})
    k = (f, t if is_num(t) else t.get_id())
    if k not in reg:
        v = ctx.fresh(f)
        T = zt(t)
        reg[k] = (f, T, v)
        ctx.keep.append(T)
        if fn_lemmas not in ctx.lemma_cb:
            ctx.lemma_cb.append(fn_lemmas)
        ctx.define(v, *L.fn_def(f, T, v, pi(ctx)))
    return reg[k][2]


def fn_lemmas(ctx, seen):
    act = {}
    for f, t, v in ctx.fns.values():
        if v.decl().name() in seen and vars_of(t) <= seen:
            act.setdefault(f, []).append((t, v))
    out = []
    for f, l in act.items():
        for i, (s, a) in enumerate(l):
            for j, (t, b) in enumerate(l):
                if i != j:
                    out += L.fn_pair(f, s, a, t, b, PI, i < j)
    if act:
        pi(ctx)
    return out


def periodic(ctx, f, t):
    """f(t) for f = cos, sin, tan, related to its values at the arguments reduced by the integers in use"""
    if f == "sin":
        t = add(t, mul(Fraction(-1, 2), pi(ctx)))
        f = "cos"
    v = fapp(ctx, f, t)
    for n in list(ctx.reps.get("Z", {}).values()):
        for w, sg in reduced(ctx, f, t, n):
            u = fapp(ctx, f, w)
            e = zt(v) == (zt(u) if sg > 0 else -zt(u))
            for x in (v, u):
                x = zt(x)
                if z3.is_app_of(x, z3.Z3_OP_UMINUS):
                    x = x.arg(0)
                if not z3.is_rational_value(x):
                    ctx.define(x, e)
    return v


def reduced(ctx, f, t, n):
    """arguments with the same (1) or the opposite (-1) value"""
    p = pi_mul(ctx, n)
    if f == "cos":
        u = add(t, mul(Fraction(-2), p))
        return [(u, 1), (add(u, neg(pi(ctx))), -1)]
    u = add(t, neg(p))
    return [(u, 1), (add(u, neg(pi(ctx))), 1)]


# ---------------------------------------------------------------- the C library's functions (assumed contract)
def in_domain(ctx, f, x):
    """x is finite in the domain, at a pole, or at an infinity where f has a limit"""
    inf = {"exp": (1, 1), "log": (0, 1), "atan": (1, 1), "sinh": (1, 1), "cosh": (1, 1), "tanh": (1, 1), "asinh": (1, 1), "acosh": (0, 1)}.get(f, (0, 0))
    return Or(And(x.fin(), dom(f, x.r, True)), And(x.ni, bool(inf[0])), And(x.pi, bool(inf[1])))


def libm_ok(ctx, f, x, mode, r):
    """what a math library honouring the rounding direction may return for f(x): a number on the right side of the real value,
    in the range of the function, the limits at infinities and poles; anything outside the domain"""
    z = Fraction(0)
    num = lambda v: And(Not(r.nan), r.fin(), eq(r.r, Fraction(v)))
    out = []

    def sided(cond, v, lo=None, hi=None):
        """r is v rounded in the given direction (v real), within the representable range bounds lo, hi"""
        dn = And(Not(r.nan), Not(r.pi), Or(r.ni, le(r.r, v)))
        up = And(Not(r.nan), Not(r.ni), Or(r.pi, ge(r.r, v)))
        base = [Not(r.nan)]
        if lo is not None:
            base += [Not(r.ni), Or(r.pi, ge(r.r, Fraction(lo)))]
        if hi is not None:
            base += [Not(r.pi), Or(r.ni, le(r.r, Fraction(hi)))]
        out.append(Implies(cond, And(*base)))
        if isinstance(mode, int):
            out.append(Implies(cond, dn if mode == DOWN else up if mode == UP else True))
        else:
            out.append(Implies(And(cond, mode == DOWN), dn))
            out.append(Implies(And(cond, mode == UP), up))
    lo, hi = {"exp": (0, None), "cos": (-1, 1), "sin": (-1, 1), "cosh": (1, None), "tanh": (-1, 1), "acosh": (0, None), "acos": (0, 4),
              "asin": (-2, 2), "atan": (-2, 2)}.get(f, (None, None))
    if x.fin() is not False:
        d = dom(f, x.r)
        if d is not False:
            sided(And(x.fin(), d), fapp(ctx, f, x.r), lo, hi)
        if f == "log":
            out.append(Implies(And(x.fin(), eq(x.r, z)), And(Not(r.nan), r.ni)))
        if f == "atanh":
            out.append(Implies(And(x.fin(), eq(x.r, Fraction(1))), And(Not(r.nan), r.pi)))
            out.append(Implies(And(x.fin(), eq(x.r, Fraction(-1))), And(Not(r.nan), r.ni)))
    if x.pi is not False:
        if f in ("exp", "log", "sinh", "cosh", "asinh", "acosh"):
            out.append(Implies(x.pi, And(Not(r.nan), r.pi)))
        elif f == "tanh":
            out.append(Implies(x.pi, num(1)))
        elif f == "atan":
            sided(x.pi, mul(Fraction(1, 2), pi(ctx)), lo, hi)
    if x.ni is not False:
        if f in ("sinh", "asinh"):
            out.append(Implies(x.ni, And(Not(r.nan), r.ni)))
        elif f == "cosh":
            out.append(Implies(x.ni, And(Not(r.nan), r.pi)))
        elif f == "exp":
            out.append(Implies(x.ni, num(0)))
        elif f == "tanh":
            out.append(Implies(x.ni, num(-1)))
        elif f == "atan":
            sided(x.ni, mul(Fraction(-1, 2), pi(ctx)), lo, hi)
    return And(*out)


def libm_value(ctx, f, x, rm):
    """a number of x's format satisfying libm_ok"""
    ctx.n += 1
    r0 = ctx.fp_var("lm!%d" % ctx.n, x.fmt, "fin").r
    r = FP(x.fmt, ctx.fresh("lmn", "b"), ctx.fresh("lmp", "b"), ctx.fresh("lmm", "b"), r0)
    ok = libm_ok(ctx, f, x, rm, r)
    one = And(Not(And(r.nan, Or(r.pi, r.ni))), Not(And(r.pi, r.ni)))
    for v in (r0, r.nan, r.pi, r.ni):
        ctx.define(v, *[q for q in (ok, one) if q is not True])
    return r
