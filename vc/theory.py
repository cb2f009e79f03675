"""Context of one verification job: fresh names, the rounding/quotient/... facts
attached to fresh names, floating-point operations, solving."""
import time, os
import z3
from logic import *
from fpv import *
import lemmas as L


class ExecLimit(Exception):
    pass


DEADLINE = [None]       # wall-clock time after which no more queries are made: what is left is reported as not reached

NEAR, DOWN, UP, TZ = 0, 0x400, 0x800, 0xC00
MODES = {NEAR: "to-nearest", DOWN: "downward", UP: "upward", TZ: "toward-zero"}


def vars_of(e, cache={}):
    i = e.get_id()
    c = cache.get(i)
    if c is not None and c[0] is e:
        return c[1]
    # iterative post-order
    stack = [e]
    while stack:
        x = stack[-1]
        xi = x.get_id()
        if xi in cache and cache[xi][0].eq(x):
            stack.pop()
            continue
        ch = x.children()
        todo = [y for y in ch if not (y.get_id() in cache)]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            cache[xi] = (x, frozenset([x.decl().name()]))
        else:
            s = frozenset()
            for y in ch:
                s = s | cache[y.get_id()][1]
            cache[xi] = (x, s)
    return cache[i][1]


class Ob:
    """a proof obligation"""
    __slots__ = ("name", "tag", "pc", "goal", "info")

    def __init__(s, name, tag, pc, goal, info=None):
        s.name, s.tag, s.pc, s.goal, s.info = name, tag, pc, goal, info


class Ctx:
    def __init__(self, exact=True):
        self.exact = exact      # use the full (correct rounding) contracts?
        self.n = 0
        self.rd = {}            # (fmt,id(t)) -> (t,d)
        self.rds = []           # (fmtname,t,d)   d = RD_fmt(t)
        self.rns = []           # (fmtname,t,n)
        self.reps = {}          # fmtname -> {name: term}
        self.defs = {}          # var name -> [facts]   (facts defining the fresh var)
        self.keep = []
        self.quo = {}
        self.sq = {}
        self.ints = {}          # rounding to integers shares the machinery, fmt "Z"
        self.stats = {"z3": 0, "cvc5": 0, "solver_s": 0.0, "queries": 0}
        self.lemma_cb = []      # callbacks producing extra lemma instances
        self.assumed = set()    # names of axioms/trusted contracts used
        self.hyps = []          # global hypotheses
        self.use_lemmas = False
        for f in (F32, F64, F80):
            a, b, c = L.fmt_facts(f.sMAX, f.sBIG)
            self.defs[f.sMAX.decl().name()] = [a]
            self.defs[f.sBIG.decl().name()] = [b, c]
        self.dbl_lemmas = False

    # -- fresh names
    def fresh(self, base, sort="r"):
        self.n += 1
        nm = "%s!%d" % (base, self.n)
        v = {"r": z3.Real, "b": z3.Bool, "i": z3.Int}[sort](nm)
        return v

    def fresh_rm(self):
        m = self.fresh("rm", "i")
        self.define(m, z3.Or(m == NEAR, m == DOWN, m == UP, m == TZ))
        return m

    def define(self, v, *facts):
        fs = [f for f in facts if f is not True]
        self.defs.setdefault(v.decl().name(), []).extend(fs)

    def add_rep(self, fmt, term):
        if is_num(term):
            return
        if z3.is_app_of(term, z3.Z3_OP_UMINUS):
            term = term.arg(0)
        nm = fmt if isinstance(fmt, str) else fmt.name
        self.reps.setdefault(nm, {})[term.get_id()] = term
        self.keep.append(term)

    # -- rounding
    def _norm(self, t):
        return z3.simplify(t, som=True, sort_sums=True) if not is_num(t) else t

    def RD(self, fmt, t):
        """fresh real d = largest representable number <= t (when one exists)"""
        t = self._norm(t)
        key = (fmt.name, t.get_id())
        if key in self.rd:
            return self.rd[key][1]
        # -RU(-t) and RD(t): canonical by construction (callers negate)
        if z3.is_rational_value(t):
            raise AssertionError
        d = self.fresh("rd")
        self.rd[key] = (t, d)
        self.rds.append((fmt.name, t, d))
        self.add_rep(fmt, d)
        M = fmt.sMAX
        self.define(d, *L.rd_def(M, t, d))
        return d

    def RZ(self, t):
        """fresh real d = floor(t)"""
        t = self._norm(t)
        if z3.is_rational_value(t):
            return Fraction(t.as_fraction().__floor__())
        key = ("Z", t.get_id())
        if key in self.rd:
            return self.rd[key][1]
        d = self.fresh("fl")
        self.rd[key] = (t, d)
        self.rds.append(("Z", t, d))
        self.add_rep("Z", d)
        self.define(d, *L.floor_def(t, d))
        return d

    def known_rep(self, fmt, t):
        t = z3.simplify(t)
        if z3.is_rational_value(t):
            return False
        b = t
        # -t is  (* -1 t) after simplification
        if z3.is_app_of(b, z3.Z3_OP_MUL) and b.num_args() == 2 and z3.is_rational_value(b.arg(0)) and b.arg(0).as_fraction() == -1:
            b = b.arg(1)
        if z3.is_app_of(b, z3.Z3_OP_UMINUS):
            b = b.arg(0)
        for nm, o in ORDER.items():
            if o <= ORDER[fmt.name] and b.get_id() in self.reps.get(nm, {}):
                return True
        return False

    def round(self, fmt, t, rm):
        if not is_num(t):
            ts = z3.simplify(t)
            if z3.is_rational_value(ts):
                t = ts.as_fraction()
        if is_num(t):
            t = Fraction(t)
            if fmt.rep(t):
                return FP.num(fmt, t)
        elif self.known_rep(fmt, t):
            return FP(fmt, False, False, False, t)
        if not isinstance(rm, int):
            opts = [(m, self.round(fmt, t, m)) for m in (NEAR, DOWN, UP, TZ)]
            res = opts[0][1]
            for m, v in opts[1:]:
                c = rm == m
                res = FP(fmt, False, Ite(c, v.pi, res.pi), Ite(c, v.ni, res.ni), Ite(c, v.r, res.r))
            if not is_num(res.r):
                self.add_rep(fmt, res.r)
            return res
        if is_num(t):
            return {NEAR: fmt.rn, DOWN: fmt.rd, UP: fmt.ru,
                    TZ: (fmt.rd if t > 0 else fmt.ru)}[rm](t)
        M = fmt.sMAX
        if rm == DOWN:
            d = self.RD(fmt, t)
            return FP(fmt, False, False, lt(t, -M), d)
        if rm == UP:
            d = self.RD(fmt, neg(t))
            return FP(fmt, False, gt(t, M), False, -d)
        if rm == TZ:
            a, b = self.round(fmt, t, DOWN), self.round(fmt, t, UP)
            c = ge(t, Fraction(0))
            r = Ite(c, a.r, b.r)
            self.add_rep(fmt, r)
            return FP(fmt, False, False, False, r)
        tn = self._norm(t)
        key = (fmt.name, "n", tn.get_id())
        if key not in self.rd:
            n, bp, bn = self.fresh("rn"), self.fresh("ovp", "b"), self.fresh("ovn", "b")
            self.rns.append((fmt.name, tn, n))
            self.add_rep(fmt, n)
            self.define(n, *L.rn_def(M, t, n))
            op, on = L.rn_over(M, fmt.sBIG, t, bp, bn)
            self.define(bp, op)
            self.define(bn, on)
            self.rd[key] = (tn, (n, bp, bn))
        n, bp, bn = self.rd[key][1]
        return FP(fmt, False, bp, bn, n)

    # -- IEEE operations
    def mkres(self, fmt, nan, pi, ni, fin, t, rm):
        """fin: condition under which the result is round(t)"""
        if fin is False:
            return FP(fmt, nan, pi, ni, Fraction(0))
        R = self.round(fmt, t, rm)
        return FP(fmt, nan, Or(pi, And(fin, R.pi)), Or(ni, And(fin, R.ni)), R.r)

    def fadd(self, x, y, rm):
        nan = Or(x.nan, y.nan, And(x.pi, y.ni), And(x.ni, y.pi))
        return self.mkres(x.fmt, nan, And(Not(nan), Or(x.pi, y.pi)), And(Not(nan), Or(x.ni, y.ni)),
                          And(x.fin(), y.fin()), add(x.r, y.r), rm)

    def fsub(self, x, y, rm):
        return self.fadd(x, y.neg(), rm)

    def pos(self, x):
        return Or(x.pi, And(x.fin(), gt(x.r, Fraction(0))))

    def negv(self, x):
        return Or(x.ni, And(x.fin(), lt(x.r, Fraction(0))))

    def zero(self, x):
        return And(x.fin(), eq(x.r, Fraction(0)))

    def fmul(self, x, y, rm):
        inf = Or(x.is_inf(), y.is_inf())
        nan = Or(x.nan, y.nan, And(x.is_inf(), self.zero(y)), And(y.is_inf(), self.zero(x)))
        if inf is False:
            pi = ni = False
        else:
            same_ = Or(And(self.pos(x), self.pos(y)), And(self.negv(x), self.negv(y)))
            diff = Or(And(self.pos(x), self.negv(y)), And(self.negv(x), self.pos(y)))
            pi, ni = And(Not(nan), inf, same_), And(Not(nan), inf, diff)
        return self.mkres(x.fmt, nan, pi, ni, And(x.fin(), y.fin()), mul(x.r, y.r), rm)

    def quotient(self, a, b):
        """exact a/b (meaningful when b != 0)"""
        if is_num(b) and b == 0:
            return Fraction(0)
        if is_num(a) and is_num(b):
            return Fraction(a) / b
        if is_num(b):
            return mul(a, 1 / Fraction(b))
        if is_num(a) and a == 0:
            return Fraction(0)
        s = False
        if not is_num(a) and z3.is_app_of(a, z3.Z3_OP_UMINUS):
            a, s = a.arg(0), not s
        if is_num(a) and a < 0:
            a, s = -a, not s
        if z3.is_app_of(b, z3.Z3_OP_UMINUS):
            b, s = b.arg(0), not s
        if is_num(a):
            key = (a, b.get_id())
        else:
            key = (a.get_id(), b.get_id())
        if key not in self.quo:
            q = self.fresh("q")
            self.define(q, *L.quo_def(a, b, q))
            self.quo[key] = (q, a, b)
            self.keep += [zt(a), zt(b)]
        q = self.quo[key][0]
        return neg(q) if s else q

    def fdiv(self, x, y, rm):
        yz = self.zero(y)
        nan = Or(x.nan, y.nan, And(x.is_inf(), y.is_inf()), And(yz, self.zero(x)))
        bz = And(yz, Not(nan))
        inf = Or(And(x.is_inf(), Not(y.nan), Not(y.is_inf())), bz)
        if inf is False:
            pi = ni = False
        else:
            sgn = self.fresh("sgn0", "b") if yz is not False else False
            same_ = Or(And(self.pos(x), self.pos(y)), And(self.negv(x), self.negv(y)), And(yz, sgn))
            diff = Or(And(self.pos(x), self.negv(y)), And(self.negv(x), self.pos(y)), And(yz, Not(sgn)))
            pi, ni = And(Not(nan), inf, same_), And(Not(nan), inf, diff)
        finres = And(x.fin(), y.fin(), Not(yz))
        yinf = y.is_inf()
        if finres is False:
            return FP(x.fmt, nan, pi, ni, Fraction(0))
        R = self.round(x.fmt, self.quotient(x.r, y.r), rm)
        r = Ite(yinf, Fraction(0), R.r)
        if not is_num(r) and r is not R.r:
            self.add_rep(x.fmt, r)
        return FP(x.fmt, nan, Or(pi, And(finres, R.pi)), Or(ni, And(finres, R.ni)), r)

    def sqrt_real(self, a):
        a = zt(a)
        k = a.get_id()
        if k not in self.sq:
            s = self.fresh("sq")
            self.define(s, *L.sqrt_def(a, s))
            self.sq[k] = (s, a)
        return self.sq[k][0]

    def fsqrt(self, x, rm):
        nan = Or(x.nan, self.negv(x))
        if x.fin() is False:
            return FP(x.fmt, nan, And(x.pi, Not(nan)), False, Fraction(0))
        if is_num(x.r) and x.r >= 0:
            import math
            p, q = x.r.numerator, x.r.denominator
            if math.isqrt(p) ** 2 == p and math.isqrt(q) ** 2 == q:
                return FP(x.fmt, nan, x.pi, False, Fraction(math.isqrt(p), math.isqrt(q)))
        R = self.round(x.fmt, self.sqrt_real(x.r), rm)
        return FP(x.fmt, nan, Or(x.pi, And(x.fin(), Not(nan), R.pi)), False, R.r)

    def frint(self, x, rm):
        if x.fin() is False:
            return FP(x.fmt, x.nan, x.pi, x.ni, Fraction(0))
        if not isinstance(rm, int):
            opts = [(m, self.frint(x, m)) for m in (NEAR, DOWN, UP, TZ)]
            r = opts[0][1].r
            for m, v in opts[1:]:
                r = Ite(rm == m, v.r, r)
        elif is_num(x.r):
            import math
            r = {DOWN: math.floor, UP: math.ceil, NEAR: round, TZ: math.trunc}[rm](x.r)
            r = Fraction(r)
        elif rm == DOWN:
            r = self.RZ(x.r)
        elif rm == UP:
            r = neg(self.RZ(neg(x.r)))
        elif rm == TZ:
            r = Ite(x.r >= 0, self.RZ(x.r), neg(self.RZ(neg(x.r))))
        else:
            n = self.fresh("rint")
            self.add_rep("Z", n)
            self.define(n, *L.rint_def(x.r, n))
            r = n
        if not is_num(r):
            # the integer part of a number of a narrower format has that format
            f = x.fmt
            for g in (F32, F64, F80):
                if ORDER[g.name] < ORDER[f.name] and self.known_rep(g, x.r):
                    f = g
                    break
            self.add_rep(f, r)
            self.add_rep("Z", r)
        return FP(x.fmt, x.nan, x.pi, x.ni, r)

    def convert(self, x, fmt, rm):
        if x.fmt is fmt:
            return x
        if ORDER[fmt.name] >= ORDER[x.fmt.name]:
            if not is_num(x.r):
                self.add_rep(x.fmt, x.r)
            return FP(fmt, x.nan, x.pi, x.ni, x.r)
        R = self.round(fmt, x.r, rm)
        fin = x.fin()
        return FP(fmt, x.nan, Or(x.pi, And(fin, R.pi)), Or(x.ni, And(fin, R.ni)), R.r)

    def from_int(self, i, fmt, rm, w=64):
        """i: the integer value, w: its width in bits"""
        t = real(i)
        if not is_num(t) and (w <= fmt.p or self.__dict__.get("small_int", {}).get(i.get_id(), 99) <= fmt.p):
            self.add_rep(fmt, t)         # every w-bit integer is representable
            self.add_rep("Z", t)
            return FP(fmt, False, False, False, t)
        R = self.round(fmt, t, rm)
        if not is_num(t) and not is_num(R.r):
            B = z3.RealVal(2 ** fmt.p)
            for v in vars_of(R.r):
                if v.startswith(("rd!", "rn!")):
                    self.defs[v] += L.int_exact(B, t, R.r)
                    break
        if not is_num(R.r):
            self.add_rep("Z", R.r)
        return R

    # -- symbolic inputs
    def fp_var(self, name, fmt, kind="fin"):
        """kind: fin | pinf | ninf | nan | any"""
        if kind == "pinf":
            return FP.pinf(fmt)
        if kind == "ninf":
            return FP.ninf(fmt)
        if kind == "nan":
            return FP.NaN(fmt)
        r = z3.Real(name)
        self.add_rep(fmt, r)
        M = fmt.sMAX
        self.define(r, *L.rep_range(M, r))
        if kind == "fin":
            return FP(fmt, False, False, False, r)
        k = z3.Int(name + ".cls")    # 0 finite 1 +inf 2 -inf 3 nan
        return FP(fmt, k == 3, k == 1, k == 2, r)

    # ---------------------------------------------------------------- solving
    def gather(self, fs, lemmas=True):
        """facts relevant to the formulas fs"""
        fs = [zt(f) for f in fs if f is not True]
        seen, facts, fset = set(), [], set()
        work = set()
        for f in fs + self.hyps:
            work |= vars_of(f)
        while True:
            new = work - seen
            if not new:
                break
            for v in sorted(new):
                for f in self.defs.get(v, ()):
                    if f.get_id() not in fset:
                        fset.add(f.get_id())
                        facts.append(f)
                        work |= vars_of(f)
            seen |= new
        if lemmas:
            for cb in self.lemma_cb:
                facts += cb(self, seen)
            ml = []
            if any(("MAX_" + f) in seen for f in ORDER):
                a, b, c = F32.sMAX, F64.sMAX, F80.sMAX
                ml += L.fmt_order(a, b, c)
            for fmt, t, d in self.rds:
                if d.decl().name() not in seen:
                    continue
                rs = []
                for nm, dd in self.reps.items():
                    if fmt == "Z":
                        if nm != "Z":
                            continue
                    elif nm == "Z" or ORDER[nm] > ORDER[fmt]:
                        continue
                    for r in dd.values():
                        if vars_of(r) <= seen and not r.eq(d):
                            rs.append(r)
                for r in rs:
                    ml += L.rd_rep(t, d, r)
                if self.dbl_lemmas and fmt != "Z":
                    for r in self.reps.get(fmt, {}).values():
                        if vars_of(r) <= seen and not r.eq(d):
                            ml += L.rd_double({"F32": F32, "F64": F64, "F80": F80}[fmt].sMAX, t, d, r)
                ml += L.rd_const(t, d)
                if fmt != "Z":
                    ml += L.rd_max(t, d, {"F32": F32, "F64": F64, "F80": F80}[fmt].sMAX)
                ml.append(z3.Implies(t == d, t == d))
            zs = [r for r in self.reps.get("Z", {}).values() if vars_of(r) <= seen]
            for i, r in enumerate(zs):
                for c in [L.ZERO] + zs[:i]:
                    ml += L.int_apart(r, c)
            for fmt, t, n in self.rns:
                if n.decl().name() not in seen:
                    continue
                for nm, dd in self.reps.items():
                    if nm == "Z" or ORDER[nm] > ORDER[fmt]:
                        continue
                    for r in dd.values():
                        if vars_of(r) <= seen and not r.eq(n):
                            ml += L.rn_rep(t, n, r)
                if self.dbl_lemmas:
                    F = {"F32": F32, "F64": F64, "F80": F80}[fmt]
                    M = F.sMAX
                    for r in self.reps.get(fmt, {}).values():
                        if vars_of(r) <= seen and not r.eq(n):
                            ml += L.rn_double(M, t, n, r)
                            if z3.is_true(z3.simplify(2 * t == r)):
                                ml += L.rn_half(F.sBIG, t, n, r)
                ml += L.rn_sign(t, n)
            facts += ml
        return facts

    def check(self, fs, timeout_ms, lemmas=True, want_model=False):
        """satisfiability of the conjunction: 'sat' / 'unsat' / 'unknown'"""
        fs = [f for f in fs if f is not True]
        if any(f is False for f in fs):
            return "unsat", None
        t0 = time.time()
        if DEADLINE[0] is not None and t0 > DEADLINE[0]:
            raise ExecLimit("the time budget is used up")
        facts = self.gather(fs, lemmas) + self.hyps
        s = z3.Solver()
        # a limit on z3's own step count, so that the answer does not depend on the load of the machine
        s.set("rlimit", int(timeout_ms * 15000))
        s.set("timeout", int(timeout_ms * 4))
        for f in fs + facts:
            s.add(f)
        r = s.check()
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t0
        r = str(r)
        m = s.model() if (r == "sat" and want_model) else None
        return r, m
