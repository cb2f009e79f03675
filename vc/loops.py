"""Inductive loop invariants, inferred from a fixed grammar of candidates
(Houdini: the largest subset that holds on entry and is preserved) and then
emitted as proof obligations.  The grammar only decides what can be proved;
an invariant that is not inductive is never used."""
import z3
from logic import *
from fpv import *
from theory import *

Z = Fraction(0)
BITS = 32


STAT = None
TERM = True      # emit termination obligations
CACHE = {}      # loop -> names of the candidates that survived before (a search hint only)


class Drop(Exception):
    pass


def changed(a, b):
    if a is b:
        return False
    if isinstance(a, FP) and isinstance(b, FP):
        return any(changed(x, y) for x, y in ((a.nan, b.nan), (a.pi, b.pi), (a.ni, b.ni), (a.r, b.r)))
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return not a.eq(b)
    if type(a) is type(b) and not isinstance(a, z3.ExprRef):
        try:
            return not bool(a == b)
        except Exception:
            return True
    return True


class Houdini:
    """grammar(ctx, entry_cells, args, cells) -> [(name, formula-over-cells function)]"""

    def __init__(s, grammar, names=None, ms=8000):
        s.grammar, s.names, s.ms = grammar, names, ms

    def __call__(s, ex, fn, h, body, env, st, prev):
        return Rule(s, h, body)


class Rule:
    def __init__(s, spec, h, body):
        s.spec, s.h, s.body = spec, h, body

    # -- probing
    def probe(s, ex, fn, env, st):
        """states at the back edges of one symbolic iteration started in st"""
        n0, b0 = len(ex.obs), len(ex.bounded)
        got = []
        info = {"mode": "probe", "got": got, "body": s.body, "rule": s}
        old, ex.wlog = ex.wlog, set()
        try:
            ex.run(fn, [], st.fork(), start=s.h, env0=env, loopinfo={s.h: info})
        finally:
            s.written = ex.wlog
            ex.wlog = None if old is None else old | ex.wlog
        del ex.obs[n0:], ex.bounded[b0:]
        return got

    def cells(s, ex, fn, env, st):
        """memory cells (of blocks existing at entry) that an iteration may change"""
        mod, rm = {}, False
        cur = st
        for _ in range(8):
            got = s.probe(ex, fn, env, cur)
            new = False
            for g in got:
                for k, v in st.mem.items():
                    if k in mod:
                        continue
                    if k in g.mem and (k in s.written or changed(cur.mem[k], g.mem[k])):
                        mod[k] = v
                        new = True
                if not rm and changed(cur.rm, g.rm):
                    rm = new = True
            if not new:
                return mod, rm
            cur, _ = s.havoc(ex, st, mod, rm, "any")
        raise ExecLimitLoop()

    def havoc(s, ex, st, mod, rm, kind):
        ctx = ex.ctx
        n = st.fork()
        cells = {}
        for k, v in mod.items():
            ctx.n += 1
            nm = "hv!%d" % ctx.n
            if isinstance(v, FP):
                kk = kind if isinstance(kind, str) else kind.get(k, "any")
                x = ctx.fp_var(nm, v.fmt, "fin" if kk == "fin" else "any")
                if kk == "any":
                    c = z3.Int(nm + ".cls")
                    ctx.define(c, c >= 0, c <= 3)
                if kk == "nonan":
                    c = z3.Int(nm + ".cls")
                    ctx.define(c, c >= 0, c <= 2)
                    x = FP(v.fmt, False, c == 1, c == 2, x.r)
            elif isb(v) or (isinstance(v, z3.ExprRef) and v.sort().kind() == z3.Z3_BOOL_SORT):
                x = z3.Bool(nm)
            elif is_num(v) or (isinstance(v, z3.ExprRef) and v.sort().kind() == z3.Z3_INT_SORT):
                x = z3.Int(nm)
                ctx.define(x, x >= -(1 << 63), x < (1 << 63))
            else:
                raise Drop("a loop changes a value of unknown kind")
            n.mem[k] = x
            cells[k] = x
        if rm:
            m = ctx.fresh("rm", "i")
            ctx.define(m, z3.Or(m == NEAR, m == DOWN, m == UP, m == TZ))
            n.rm = m
        return n, cells

    # -- the rule
    def enter(s, ex, fn, env, st):
        ctx = ex.ctx
        mod, rm = s.cells(ex, fn, env, st)
        entry = {k: st.mem[k] for k in mod}
        entry["rm"] = st.rm
        order = {k: "%s%d" % ("x" if isinstance(v, FP) else "n", j) for j, (k, v) in enumerate(mod.items())}
        s.label = order
        cand = s.spec.grammar(ex, fn, entry, dict(env), st, order)
        if rm:
            cand.append(("the rounding direction is the one on entry", lambda c: c["rm"] == entry["rm"]))
        cand = [("%s is finite" % order[k], (lambda k: lambda c: c[k].fin())(k)) for k in mod
                if isinstance(mod[k], FP) and mod[k].fin() is not False] + cand
        sig, ids = [], {}
        for v in mod.values():
            if isinstance(v, FP):
                sig.append((repr(v.nan), repr(v.pi), repr(v.ni)) if isb(v.pi) and isb(v.ni) and isb(v.nan) else "any")
                v = v.r
            sig.append(v if is_num(v) or isb(v) else ids.setdefault(v.get_id(), len(ids)))
        key = (fn.name, s.h, ctx.exact, tuple(sig), tuple(nm for nm, _ in cand))
        if key in CACHE:
            cand = [(nm, f) for nm, f in cand if nm in CACHE[key]]
        # which candidates hold on entry
        ent = []
        for nm, f in cand:
            g = f(entry)
            if g is not None and s.holds(ex, st, g):
                ent.append((nm, f))
        cand = ent
        while True:
            # greatest set of candidates preserved by an iteration
            names = {nm for nm, _ in cand}
            kind = {k: "fin" if "%s is finite" % order[k] in names else "any" for k in mod if isinstance(mod[k], FP)}
            hst, cells = s.havoc(ex, st, mod, rm, kind)
            pre = hst.fork()
            hc = dict(cells, rm=pre.rm)
            for nm, f in cand:
                pre.assume(f(hc))
            got = s.probe(ex, fn, env, pre)
            keep = [(nm, f) for nm, f in cand if all(s.holds(ex, g, f(s.view(g, mod))) for g in got)]
            if len(keep) == len(cand):
                break
            cand = keep
        CACHE[key] = {nm for nm, _ in cand}
        for nm, f in cand:
            ex.oblig(st, "loop invariant on entry: " + nm, f(entry), "loop")
        hst = pre
        vnm, var = s.variant(ex, hc, got, mod, order) if TERM else (None, None)
        ex.inv.append((ex.dem(fn.name)[:100], [nm for nm, _ in cand]))
        return hst, {"cand": cand, "mod": mod, "rule": s, "variant": vnm, "decreases": var}

    def variant(s, ex, head, got, mod, order):
        """a measure that every iteration decreases: an integer that goes down and stays non-negative (or goes up to an
        unchanged bound), or numbers of a floating-point format (finitely many of them) that each move in one direction
        only, at least one of them strictly"""
        views = [s.view(g, mod) for g in got]
        ok = lambda f: all(s.holds(ex, g, f(c)) for g, c in zip(got, views))
        fp, it = kinds({k: head[k] for k in mod})
        for k in it:
            for nm, f in (("%s decreases and is not negative" % order[k], (lambda k: lambda c: And(ge(c[k], 0), lt(c[k], head[k])))(k)),):
                if ok(f):
                    return nm, f
        dirs = []
        for k in fp:
            for w, rel in (("up", lambda a, b: (a, b)), ("down", lambda a, b: (b, a))):
                f = (lambda k, rel: lambda c: f_le(*rel(head[k], c[k])))(k, rel)
                if ok(f):
                    dirs.append((k, w, rel))
                    break
        if dirs:
            def g(c):
                return And(*([f_le(*rel(head[k], c[k])) for k, _, rel in dirs] + [Or(*[f_lt(*rel(head[k], c[k])) for k, _, rel in dirs])]))
            if ok(g):
                return "one of %s moves on, none moves back" % ", ".join("%s (%s)" % (order[k], w) for k, w, _ in dirs), g
        return None, None

    def view(s, g, mod):
        c = {k: g.mem[k] for k in mod}
        c["rm"] = g.rm
        return c

    def holds(s, ex, st, f):
        if f is True:
            return True
        if f is None:
            return False
        if f is False:
            return ex.ctx.check(list(st.pc), s.spec.ms)[0] == "unsat"
        fs = list(st.pc) + [Not(f)]
        r, _ = ex.ctx.check(fs, 400, lemmas=False)
        if r == "unsat":
            return True
        r, _ = ex.ctx.check(fs, s.spec.ms)
        if r == "unknown":
            if STAT is not None:
                STAT.append(str(f)[:200])
            facts = [zt(x) for x in fs if x is not True] + ex.ctx.gather(fs, True) + ex.ctx.hyps
            import solve
            r = solve.nlsat(facts, 2 * s.spec.ms)
        return r == "unsat"

    def preserve(s, ex, fn, env, st, info):
        c = s.view(st, info["mod"])
        for nm, f in info["cand"]:
            ex.oblig(st, "loop invariant preserved: " + nm, f(c), "loop")
        if not TERM:
            return
        if info["variant"]:
            ex.oblig(st, "loop variant: " + info["variant"], info["decreases"](c), "term")
        else:
            ex.oblig(st, "loop variant: none found", False, "term")


class ExecLimitLoop(Exception):
    pass


# ---------------------------------------------------------------- grammars
def kinds(cells):
    fp = [k for k, v in cells.items() if isinstance(v, FP)]
    it = [k for k, v in cells.items() if k != "rm" and not isinstance(v, FP) and not isb(v)
          and (is_num(v) or (isinstance(v, z3.ExprRef) and v.sort().kind() == z3.Z3_INT_SORT))]
    return fp, it


def pow_grammar(ex, fn, entry, env, st, nm):
    import funcs
    ctx = ex.ctx
    fp, it = kinds(entry)
    out = []
    for k in fp:
        out.append(("%s not NaN and non-negative" % nm[k], (lambda k: lambda c: And(Not(c[k].nan), Not(c[k].ni), Or(c[k].pi, ge(c[k].r, Z))))(k)))
    for k in it:
        out.append(("%s >= 0" % nm[k], (lambda k: lambda c: ge(c[k], 0))(k)))
    pos = lambda x: Or(x.pi, gt(x.r, Z))
    for x in fp:
        for y in fp:
            if x != y:
                out.append(("%s zero and %s finite, or both positive" % (nm[x], nm[y]), (lambda x, y: lambda c: Or(And(c[x].fin(), eq(c[x].r, Z), c[y].fin()), And(Not(c[x].nan), Not(c[y].nan), pos(c[x]), pos(c[y]))))(x, y)))
    # relational: y * x^(c p) against A^N
    A = []
    seenA = set()
    for k in fp:
        v = entry[k]
        if is_num(v.r) or v.pi is True:
            key = repr(v)
        else:
            key = v.r.get_id()
        if key not in seenA and v.pi is not True and v.ni is not True and not (is_num(v.r) and v.r == 1):
            seenA.add(key)
            A.append(v)
    N, seenN = [], set()
    for v in list(env.values()) + [entry[k] for k in it]:
        if isb(v) or isinstance(v, FP):
            continue
        if is_num(v) or (isinstance(v, z3.ExprRef) and v.sort().kind() == z3.Z3_INT_SORT):
            key = v if is_num(v) else v.get_id()
            if key not in seenN and not (is_num(v) and v < 0):
                seenN.add(key)
                N.append(v)
    for k in fp:
        for ai, a in enumerate(A):
            out.append(("%s at least one if initial value %d is" % (nm[k], ai), (lambda k, a: lambda c: Implies(ge(a.r, Fraction(1)), And(Not(c[k].nan), Not(c[k].ni), Or(c[k].pi, ge(c[k].r, Fraction(1))))))(k, a)))
    # only loops that count an exponent down
    if not it or len(fp) > 4:
        return out

    def rel(x, y, p, e, a, n, up):
        def f(C):
            X, Y, m = C[x], C[y], e(C[p])
            P = funcs.ipow(ctx, X.r, m)
            Q = funcs.ipow(ctx, a.r, n)
            if up:
                return Or(Y.pi, And(X.pi, gt(m, 0)), And(X.fin(), Y.fin(), ge(mul(Y.r, P), Q)))
            return And(X.fin(), Y.fin(), le(mul(Y.r, P), Q))
        return f

    def infinite(x, y, p, e):
        return lambda C: Or(C[y].pi, And(C[x].pi, gt(e(C[p]), 0)))
    # what is left of the exponent when control is at the head of the loop
    left = (("2 %s", lambda p: 2 * p), ("%s", lambda p: p), ("%s rounded down to even", lambda p: p - p % 2))
    zero = lambda v: And(v.fin(), eq(v.r, Z))
    for x in fp:
        for y in fp:
            if x == y:
                continue
            for p in it:
                for en, e in left[1:]:
                    for ai, a in enumerate(A):
                        out.append(("initial value %d zero: %s zero or %s zero while %s" % (ai, nm[y], nm[x], en % nm[p]),
                                    (lambda x, y, p, a, e: lambda c: Implies(zero(a), Or(zero(c[y]), And(zero(c[x]), c[y].fin(), gt(e(c[p]), 0)))))(x, y, p, a, e)))
                    out.append(("%s or %s infinite while %s" % (nm[y], nm[x], en % nm[p]), infinite(x, y, p, e)))
                for en, e in left:
                    for ai, a in enumerate(A):
                        for ni, n in enumerate(N):
                            for up in (False, True):
                                out.append(("%s * %s^(%s) %s (initial value %d)^(initial exponent %d)" % (nm[y], nm[x], en % nm[p], ">=" if up else "<=", ai, ni), rel(x, y, p, e, a, n, up)))
    return out


def root_grammar(ex, fn, entry, env, st, nm):
    """bounds of the changing numbers by each other's initial values, by one and by a root of an initial value"""
    import funcs
    ctx = ex.ctx
    fp, it = kinds(entry)
    out = []
    consts = [("1", FP.num(None, 1))]
    for k in fp:
        v = entry[k]
        if is_num(v.r) or v.pi is True or v.ni is True:
            continue
        consts.append(("the initial %s" % nm[k], v))
        seenN = set()
        for en, N in env.items():
            if isb(N) or isinstance(N, FP) or isinstance(N, dict) or not isinstance(N, z3.ExprRef) or N.sort().kind() != z3.Z3_INT_SORT:
                continue
            if N.get_id() in seenN:
                continue
            seenN.add(N.get_id())
            if v.fin() is True and s_pos(ex, st, v, N):
                r = funcs.nth_root(ctx, v.r, N)
                consts.append(("the root of order %s of the initial %s" % (en, nm[k]), FP(None, False, False, False, r)))
    for k in fp:
        out.append(("%s not NaN" % nm[k], (lambda k: lambda c: Not(c[k].nan))(k)))
        for cn, v in consts:
            out.append(("%s >= %s" % (nm[k], cn), (lambda k, v: lambda c: f_le(v, c[k]))(k, v)))
            out.append(("%s <= %s" % (nm[k], cn), (lambda k, v: lambda c: f_le(c[k], v))(k, v)))
    return out


def s_pos(ex, st, v, N):
    return ex.holds_quick(st, And(ge(v.r, Fraction(0)), ge(N, 1)))
