"""Forward symbolic executor over the LLVM IR of the real code, with contracts
at calls and invariants at loops."""
import re, subprocess
import z3
from logic import *
from fpv import *
from theory import *
from irparse import Unsupported, FP_KINDS, dec_double
import irparse, loops


class Ptr:
    __slots__ = ("b", "o")

    def __init__(s, b, o):
        s.b, s.o = b, o

    def __repr__(s):
        return "&%s+%s" % (s.b, s.o)


NULL = Ptr("null", 0)
UNDEF = "undef"


class State:
    __slots__ = ("rm", "mem", "pc", "ghost", "trace", "calls")

    def __init__(s, rm):
        s.rm = rm
        s.mem = {}
        s.pc = []
        s.ghost = {}
        s.trace = ()
        s.calls = 0

    def fork(s):
        t = State(s.rm)
        t.mem = dict(s.mem)
        t.pc = list(s.pc)
        t.ghost = dict(s.ghost)
        t.trace = s.trace
        return t

    def assume(s, *fs):
        for f in fs:
            if f is not True:
                s.pc.append(f)

    def dead(s):
        return any(f is False for f in s.pc)


class Outcome:
    __slots__ = ("kind", "val", "st")

    def __init__(s, kind, val, st):
        s.kind, s.val, s.st = kind, val, st    # kind: ret | throw | abort


RX_PUT = re.compile(r"^(?:.*&\s)?std::operator<< ?<.*>\(std::basic_ostream<.*>&, (char|char const\*|wchar_t|wchar_t const\*)\)$|"
                    r"^std::(?:basic_)?w?ostream(?:<.*>)?::operator<<\((float|double|long double)\)$")
_dem = {}


def demangle_all(names):
    todo = [n for n in names if n not in _dem]
    if todo:
        out = subprocess.run(["c++filt", "-i"], input="\n".join(todo), capture_output=True, text=True).stdout.split("\n")
        for n, d in zip(todo, out):
            _dem[n] = d


# typeinfo: direct and indirect bases among the standard exceptions
EXN_BASES = {"_ZTISt13runtime_error": ["_ZTISt9exception"],
             "_ZTISt16invalid_argument": ["_ZTISt11logic_error", "_ZTISt9exception"],
             "_ZTIN5boost7numeric12interval_lib16comparison_errorE": ["_ZTISt13runtime_error", "_ZTISt9exception"]}
_tid = {}


def exn_matches(exn, clause):
    if exn == clause or clause in EXN_BASES.get(exn, ()):
        return True
    if exn not in EXN_BASES:
        raise Unsupported("catch clause for an unknown exception type")
    return False


def typeid_of(n):
    return _tid.setdefault(n, len(_tid) + 2)


LIBM = "exp log sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh".split()


class Exec:
    def __init__(self, mod, ctx, contracts=(), opts=None):
        self.mod, self.ctx = mod, ctx
        self.contracts = contracts         # list of objects with .match(demangled) -> contract instance or None
        self.blk = 0
        self.obs = []                      # obligations collected on the way
        self.used = {}                     # contract instances used: name -> contract
        self.inlined = set()
        self.body_of = None                # mangled name of the function being verified
        self.depth = 0
        self.wrapper = False               # is the outermost function a wrapper around the one under test?
        self.steps = 0
        self.max_steps = 400000
        self.loop_rules = []               # callables(exec, fn, header, loopblocks, env, st) -> rule or None
        self.bounded = []                  # loops that were unrolled with a stated bound
        self.unroll = 80
        self.wlog = None                   # cells written (while probing a loop)
        self.inv = []                      # (function, invariants used)
        self.trusted = set()
        self._cm = {}
        self._loops = {}
        demangle_all(list(mod.funcs) + list(mod.decls))
        self.feas_ms = 300

    # ------------------------------------------------------------ helpers
    def dem(self, n):
        if n not in _dem:
            demangle_all([n])
        return _dem[n]

    def contract_for(self, name):
        if name not in self._cm:
            d = self.dem(name)
            c = None
            for m in self.contracts:
                c = m(d, name)
                if c:
                    break
            self._cm[name] = c
        return self._cm[name]

    def new_block(self, tag="a"):
        self.blk += 1
        return "%s%d" % (tag, self.blk)

    def oblig(self, st, name, goal, tag="side"):
        if goal is True:
            self.obs.append(Ob(name, tag, list(st.pc), True))
            return
        self.obs.append(Ob(name, tag, list(st.pc), goal))

    def feasible(self, st, cond):
        """could cond hold?  (linear facts only, so 'sat'/'unknown' keep the path)"""
        if cond is False:
            return False
        if cond is True:
            return True
        fs = st.pc + [cond]
        r, _ = self.ctx.check(fs, self.feas_ms, lemmas=False)
        return r != "unsat"

    def branch(self, st, cond):
        """list of (bool, state)"""
        if isb(cond):
            return [(cond, st)]
        c = z3.simplify(cond)
        if z3.is_true(c):
            return [(True, st)]
        if z3.is_false(c):
            return [(False, st)]
        nc = Not(cond)
        # syntactic decision
        ids = {p.get_id() for p in st.pc if not isb(p)}
        if cond.get_id() in ids:
            return [(True, st)]
        if nc.get_id() in ids:
            return [(False, st)]
        out = []
        f1 = self.feasible(st, cond)
        f2 = self.feasible(st, nc) if f1 else True
        if f1 and f2:
            s2 = st.fork()
            st.assume(cond)
            s2.assume(nc)
            return [(True, st), (False, s2)]
        if f1:
            st.assume(cond)
            return [(True, st)]
        st.assume(nc)
        return [(False, st)]

    # ------------------------------------------------------------ memory
    def store(self, st, p, v, t=None):
        if not isinstance(p, Ptr):
            raise Unsupported("store through a non-constant pointer")
        if p.b == "null":
            self.oblig(st, "no null dereference", False)
            return
        if isinstance(v, dict) and "agg" in v:
            raise Unsupported("aggregate store")
        if self.wlog is not None:
            self.wlog.add((p.b, p.o))
        st.mem[(p.b, p.o)] = v

    def load(self, st, p, t):
        if not isinstance(p, Ptr):
            raise Unsupported("load through a non-constant pointer")
        k = (p.b, p.o)
        if k in st.mem:
            v = st.mem[k]
            if isinstance(v, FP) and t.k in FP_KINDS and v.fmt.name != FP_KINDS[t.k]:
                raise Unsupported("type-punned load")
            return v
        if isinstance(p.b, tuple) and p.b[0] == "g":
            return self.load_global(p, t)
        return UNDEF

    def load_global(self, p, t):
        g = self.mod.globals.get(p.b[1], "")
        m = re.match(r"^(?:.*?)\b(?:constant|global)\b (.*?)(?:, align \d+.*|, comdat.*)?$", g)
        if not m or "constant" not in g:
            raise Unsupported("load of non-constant global " + p.b[1])
        ty, i = self.mod.tp.parse(m.group(1))
        if p.o == 0 and ty.k == t.k and t.k in ("double", "float", "x86_fp80", "int"):
            return self.const(self.mod.operand(ty, m.group(1)[i:].split(",")[0].strip()))
        if ty.k == "array" or ty.k == "struct" or ty.k == "named":
            return self.const_agg(ty, m.group(1)[i:].strip(), p.o, t)
        raise Unsupported("load of global " + p.b[1])

    def const_agg(self, ty, txt, off, t):
        tp = self.mod.tp
        ty = tp.resolve(ty)
        if txt.startswith("zeroinitializer"):
            return self.const(("zero", None, t))
        if ty.k == "struct":
            inner = txt[txt.index("{") + 1:txt.rindex("}")]
        elif ty.k == "array" and txt.startswith("["):
            inner = txt[txt.index("[") + 1:txt.rindex("]")]
        else:
            raise Unsupported("constant aggregate")
        for j, e in enumerate(irparse.split_top(inner)):
            fo, fty = tp.field_offset(ty, j)
            sz, _ = tp.size_align(fty)
            if fo <= off < fo + sz:
                et, i = tp.parse(e)
                if tp.resolve(et).k in ("struct", "array"):
                    return self.const_agg(et, e[i:].strip(), off - fo, t)
                return self.const(self.mod.operand(et, e[i:].strip()))
        raise Unsupported("constant aggregate offset")

    # ------------------------------------------------------------ values
    def const(self, o):
        k, v, t = o
        if k == "c":
            if t.k in FP_KINDS:
                fmt = FMTS[t.k]
                if v == "nan":
                    return FP.NaN(fmt)
                if v == "inf":
                    return FP.pinf(fmt)
                if v == "-inf":
                    return FP.ninf(fmt)
                return FP.num(fmt, v)
            return v
        if k == "g":
            n = o[1]
            return Ptr(("g", self.mod.aliases.get(n, n)), 0)
        if k == "null":
            return NULL
        if k == "undef":
            return UNDEF
        if k == "zero":
            if t.k in FP_KINDS:
                return FP.num(FMTS[t.k], 0)
            if t.k == "int":
                return 0 if t.w > 1 else False
            if t.k == "ptr":
                return NULL
            return UNDEF
        if k == "cgep":
            bt, base, idx = v
            return self.gep(bt, self.const(base), [self.const(i) for i in idx])
        raise Unsupported("constant " + str(k))

    def val(self, env, o):
        if o[0] == "reg":
            if o[1] not in env:
                raise Unsupported("undefined register " + o[1])
            return env[o[1]]
        return self.const(o)

    def gep(self, bt, p, idx):
        if not isinstance(p, Ptr):
            raise Unsupported("gep on a symbolic pointer")
        if any(not isinstance(i, int) for i in idx):
            raise Unsupported("gep with a symbolic index")
        tp = self.mod.tp
        off = p.o + idx[0] * tp.size_align(bt)[0]
        t = bt
        for i in idx[1:]:
            o, t = tp.field_offset(t, i)
            off += o
        return Ptr(p.b, off)

    def wrap(self, v, w):
        if is_num(v):
            v &= (1 << w) - 1
            return v - (1 << w) if v >> (w - 1) else v
        h = 1 << (w - 1)
        return z3.simplify((v + h) % (1 << w) - h) if False else (v + h) % (1 << w) - h

    def as_int(self, v, w):
        """i1 values are booleans"""
        if w == 1:
            return v
        if isb(v):
            return int(v)
        return v

    def ibin(self, st, op, fl, a, b, w):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if w == 1:
            if op == "and":
                return And(a, b)
            if op == "or":
                return Or(a, b)
            if op == "xor":
                return Xor(a, b)
            raise Unsupported("i1 " + op)
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        bool_of = self.bool_of
        if op in ("and", "or", "xor"):
            ba, bb = bool_of(a), bool_of(b)
            if ba is not None and bb is not None:
                r = {"and": And, "or": Or, "xor": Xor}[op](ba, bb)
                return self.int_of_bool(r)
            if op == "and" and is_num(b) and b == 1:
                return a & 1 if is_num(a) else a % 2
            if op == "and" and is_num(b) and b > 0 and (b & (b + 1)) == 0:
                return a & b if is_num(a) else a % (b + 1)
            if is_num(a) and is_num(b):
                return self.wrap({"and": a & b, "or": a | b, "xor": a ^ b}[op], w)
            if op == "xor" and is_num(b) and b == -1:
                return -1 - a
            raise Unsupported("bitwise operation on symbolic integers")
        if op == "add":
            r = a + b
        elif op == "sub":
            r = a - b
        elif op == "mul":
            r = a * b
        elif op == "ashr":
            if not is_num(b):
                raise Unsupported("symbolic shift")
            return a >> b if is_num(a) else a / (1 << b)   # z3 Int division by a positive constant floors
        elif op == "lshr":
            if not is_num(b):
                raise Unsupported("symbolic shift")
            ua = a & ((1 << w) - 1) if is_num(a) else z3.If(a < 0, a + (1 << w), a)
            return self.wrap(ua >> b, w) if is_num(a) else ua / (1 << b)
        elif op == "shl":
            if not is_num(b):
                raise Unsupported("symbolic shift")
            r = a * (1 << b)
        elif op in ("sdiv", "srem"):
            self.oblig(st, "integer division by zero", Not(eq(b, 0)), "ub")
            if is_num(a) and is_num(b) and b:
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if op == "sdiv" else a - q * b
            az, bz = zt(a), zt(b)
            ab = z3.If(bz < 0, -bz, bz)
            q = z3.If(az >= 0, az / ab, -((-az) / ab))
            q = z3.If(bz < 0, -q, q)
            return q if op == "sdiv" else az - q * bz
        else:
            raise Unsupported("integer " + op)
        if "nsw" in fl:
            if is_num(r):
                if not lo <= r <= hi:
                    self.oblig(st, "signed integer overflow", False, "ub")
                return r
            self.oblig(st, "signed integer overflow", And(le(lo, r), le(r, hi)), "ub")
            return r
        if is_num(r):
            return self.wrap(r, w)
        return self.wrap(r, w)

    def int_of_bool(self, b):
        if isb(b):
            return int(b)
        return z3.If(b, z3.IntVal(1), z3.IntVal(0))

    def bool_of(self, v):
        if isb(v):
            return v
        if is_num(v):
            return bool(v) if v in (0, 1) else None
        if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)) \
                and v.arg(1).as_long() == 1 and v.arg(2).as_long() == 0:
            return v.arg(0)
        return None

    def unsigned(self, v, w):
        if is_num(v):
            return v & ((1 << w) - 1)
        return z3.If(v < 0, v + (1 << w), v)

    def icmp(self, pr, a, b, w):
        if a is UNDEF or b is UNDEF:
            raise Unsupported("comparison of an undefined value")
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                raise Unsupported("pointer comparison")
            e = (a.b == b.b and a.o == b.o)
            if pr == "eq":
                return e
            if pr == "ne":
                return not e
            raise Unsupported("pointer ordering")
        if w == 1:
            return Iff(a, b) if pr == "eq" else Xor(a, b)
        ba, bb = self.bool_of(a), self.bool_of(b)
        if ba is not None and bb is not None and pr in ("eq", "ne"):
            return Iff(ba, bb) if pr == "eq" else Xor(ba, bb)
        if pr[0] == "u":
            a, b = self.unsigned(a, w), self.unsigned(b, w)
            pr = "s" + pr[1:]
        return {"eq": eq, "slt": lt, "sle": le, "sgt": gt, "sge": ge,
                "ne": lambda x, y: Not(eq(x, y))}[pr](a, b)

    def fcmp(self, pr, x, y):
        o = And(Not(x.nan), Not(y.nan))
        base = {"eq": f_eq(x, y), "lt": f_lt(x, y), "le": f_le(x, y), "gt": f_lt(y, x), "ge": f_le(y, x)}
        if pr == "ord":
            return o
        if pr == "uno":
            return Not(o)
        if pr == "one":
            return And(o, Not(base["eq"]))
        if pr == "une":
            return Or(Not(o), Not(base["eq"]))
        if pr[0] == "o":
            return base[pr[1:]]
        if pr == "ueq":
            return Or(Not(o), base["eq"])
        return Or(Not(o), base[pr[1:]])

    # ------------------------------------------------------------ loops
    def loops_of(self, fn):
        if fn.name in self._loops:
            return self._loops[fn.name]
        # DFS back edges + natural loops (reducible CFG as produced by clang -O0)
        order, onst, seen = [], set(), set()
        back = []

        def dfs(b):
            stack = [(b, iter(fn.succs(b)))]
            seen.add(b)
            onst.add(b)
            while stack:
                x, it = stack[-1]
                for s in it:
                    if s in onst:
                        back.append((x, s))
                    elif s not in seen:
                        seen.add(s)
                        onst.add(s)
                        stack.append((s, iter(fn.succs(s))))
                        break
                else:
                    stack.pop()
                    onst.discard(x)
        dfs(fn.entry)
        preds = {}
        for b in seen:
            for s in fn.succs(b):
                preds.setdefault(s, []).append(b)
        loops = {}
        for t, h in back:
            body = loops.setdefault(h, {h})
            work = [t]
            while work:
                x = work.pop()
                if x not in body:
                    body.add(x)
                    work += preds.get(x, [])
        self._loops[fn.name] = loops
        return loops

    # ------------------------------------------------------------ functions
    def holds_quick(self, st, g):
        if isb(g):
            return g
        return self.ctx.check(list(st.pc) + [Not(g)], 2000, lemmas=False)[0] == "unsat" or \
            self.ctx.check(list(st.pc) + [Not(g)], 3000, lemmas=True)[0] == "unsat"

    def inline(self, name, args, st):
        self.inlined.add(name)
        if self.depth > 60:
            raise ExecLimit("inlining depth at " + self.dem(name))
        self.depth += 1
        try:
            return self.run(self.mod.funcs[name], args, st)
        finally:
            self.depth -= 1

    def call(self, name, args, st, top=False):
        """-> [Outcome]"""
        name = self.mod.aliases.get(name, name)
        if not top:
            c = self.contract_for(name)
            if c is not None and not (self.wrapper and self.depth == 0 and getattr(c, "not_from_wrapper", False)):
                self.used[name] = c
                return c.apply(self, name, args, st)
        if name in self.mod.funcs:
            if not top:
                self.inlined.add(name)
            if self.depth > 60:
                raise ExecLimit("inlining depth (recursion without a contract) at " + self.dem(name))
            self.depth += 1
            try:
                return self.run(self.mod.funcs[name], args, st)
            finally:
                self.depth -= 1
        return self.external(name, args, st)

    def run(self, fn, args, st, start=None, env0=None, loopinfo=None):
        env = dict(env0) if env0 is not None else {}
        if env0 is None:
            for (t, n), a in zip(fn.params, args):
                env[n] = a
        outs = []
        work = [(start or fn.entry, 0, env, st, None, loopinfo or {})]
        loops = self.loops_of(fn)
        while work:
            b, i, env, st, prev, li = work.pop()
            if i == 0 and li and any(v["mode"] == "probe" and b not in v["body"] for v in li.values()):
                continue
            if i == 0 and b in loops:
                r = self.at_header(fn, b, loops[b], env, st, prev, li)
                if r is None:
                    continue
                env, st, li = r
            elif i == 0 and li:
                # leaving a loop drops its bookkeeping
                li = {h: v for h, v in li.items() if b in loops.get(h, ()) or h not in loops}
            block = fn.blocks[b]
            n = len(block)
            while i < n:
                ins = block[i]
                self.steps += 1
                if self.steps > self.max_steps:
                    raise ExecLimit("symbolic execution step limit")
                op = ins.op
                if op in ("call", "invoke"):
                    res = self.do_call(fn, ins, env, st)
                    nxt = []
                    for o in res:
                        if o.kind == "ret":
                            nxt.append(o)
                        elif o.kind == "throw" and op == "invoke":
                            lp = next(x for x in fn.blocks[ins.a["unwind"]] if x.op == "landingpad")
                            if not lp.a["cleanup"] and not any(c == "null" or exn_matches(o.val, c) for c in lp.a["catch"]):
                                outs.append(o)
                                continue
                            e2 = dict(env)
                            e2["__exn"] = o.val
                            work.append((ins.a["unwind"], 0, e2, o.st, b, li))
                        else:
                            outs.append(o)
                    if not nxt:
                        break
                    if op == "invoke":
                        for k, o in enumerate(nxt):
                            e2 = dict(env)
                            if ins.res:
                                e2[ins.res] = o.val
                            work.append((ins.a["normal"], 0, e2, o.st, b, li))
                        break
                    for o in nxt[1:]:
                        e2 = dict(env)
                        if ins.res:
                            e2[ins.res] = o.val
                        work.append((b, i + 1, e2, o.st, prev, li))
                    st = nxt[0].st
                    if ins.res:
                        env[ins.res] = nxt[0].val
                    i += 1
                    continue
                if op == "br":
                    if ins.a[0] is None:
                        work.append((ins.a[1], 0, env, st, b, li))
                        break
                    c = self.val(env, ins.a[0])
                    if c is UNDEF:
                        self.oblig(st, "no branch on an uninitialised value", False, "ub")
                        break
                    if not isb(c) and c.sort().kind() != z3.Z3_BOOL_SORT:
                        c = (c != 0)
                    br = self.branch(st, c)
                    for val, s2 in br:
                        work.append((ins.a[1] if val else ins.a[2], 0, env if len(br) == 1 else dict(env), s2, b, li))
                    break
                if op == "switch":
                    v = self.val(env, ins.a[0])
                    rest = st
                    taken = False
                    for cv, lab in ins.a[2]:
                        c = eq(v, cv)
                        br = self.branch(rest, c)
                        rest = None
                        for val, s2 in br:
                            if val:
                                work.append((lab, 0, dict(env), s2, b, li))
                            else:
                                rest = s2
                        if rest is None:
                            break
                    if rest is not None:
                        work.append((ins.a[1], 0, dict(env), rest, b, li))
                    break
                if op == "ret":
                    outs.append(Outcome("ret", None if ins.a is None else self.val(env, ins.a), st))
                    break
                if op == "resume":
                    v = self.val(env, ins.a)
                    outs.append(Outcome("throw", env.get("__exn"), st))
                    break
                if op == "unreachable":
                    # reached only through a noreturn call that has already produced its outcome
                    self.oblig(st, "unreachable code", False, "ub")
                    break
                self.step(fn, ins, env, st, prev)
                i += 1
        return outs

    def at_header(self, fn, h, body, env, st, prev, li):
        """returns (env, st, li) to continue with, or None when the path ends here"""
        info = li.get(h)
        if info is not None and info["mode"] == "probe":
            if prev is None:
                return env, st, li
            info["got"].append(st)
            return None
        if info is not None and prev in body:
            if info["mode"] == "inv":
                info["rule"].preserve(self, fn, env, st, info)
                return None
            k = info["n"] + 1
            if k > self.unroll:
                self.bounded.append("%s: loop unrolled %d times" % (self.dem(fn.name)[:80], self.unroll))
                self.oblig(st, "loop bound exceeded (no invariant found)", False, "loop")
                return None
            return env, st, dict(li, **{h: {"mode": "unroll", "n": k}})
        for mk in self.loop_rules:
            rule = mk(self, fn, h, body, env, st, prev)
            if rule is not None:
                try:
                    st, info = rule.enter(self, fn, env, st)
                except loops.Drop:
                    continue
                info["mode"] = "inv"
                info["rule"] = rule
                return dict(env), st, dict(li, **{h: info})
        return env, st, dict(li, **{h: {"mode": "unroll", "n": 0}})

    # ------------------------------------------------------------ instructions
    def step(self, fn, ins, env, st, prev):
        op, a = ins.op, ins.a
        if op == "alloca":
            env[ins.res] = Ptr(self.new_block("s"), 0)
        elif op == "load":
            env[ins.res] = self.load(st, self.val(env, a[1]), a[0])
        elif op == "store":
            self.store(st, self.val(env, a[1]), self.val(env, a[0]))
        elif op == "gep":
            env[ins.res] = self.gep(a[0], self.val(env, a[1]), [self.val(env, x) for x in a[2]])
        elif op == "fneg":
            x = self.val(env, a)
            env[ins.res] = x.neg()
        elif op == "freeze":
            env[ins.res] = self.val(env, a)
        elif op == "ibin":
            o, fl, x, y = a
            env[ins.res] = self.ibin(st, o, fl, self.val(env, x), self.val(env, y), x[2].w)
        elif op == "icmp":
            pr, x, y = a
            env[ins.res] = self.icmp(pr, self.val(env, x), self.val(env, y), x[2].w)
        elif op in ("zext", "sext", "trunc"):
            x, t = a
            v = self.val(env, x)
            w0, w1 = x[2].w, t.w
            if v is UNDEF:
                r = UNDEF
            elif op == "zext":
                if w0 == 1:
                    r = self.int_of_bool(v)
                else:
                    r = self.unsigned(v, w0)
            elif op == "sext":
                r = v if w0 > 1 else (-int(v) if isb(v) else z3.If(v, z3.IntVal(-1), z3.IntVal(0)))
            else:
                if w1 == 1:
                    bo = self.bool_of(v)
                    r = bo if bo is not None else ((v & 1) == 1 if is_num(v) else v % 2 == 1)
                else:
                    r = self.wrap(v, w1)
            env[ins.res] = r
        elif op in ("fpext", "bitcast"):
            v = self.val(env, a[0])
            if op == "fpext":
                v = self.ctx.convert(v, FMTS[a[1].k], st.rm)
            env[ins.res] = v
        elif op == "fptrunc":
            raise Unsupported("non-constrained fptrunc")
        elif op == "phi":
            for o, lab in a[1]:
                if lab == prev:
                    env[ins.res] = self.val(env, o)
                    break
            else:
                raise Unsupported("phi")
        elif op == "select":
            c, x, y = [self.val(env, k) for k in a]
            if isb(c):
                env[ins.res] = x if c else y
            elif isinstance(x, FP):
                r = Ite(c, x.r, y.r)
                v = FP(x.fmt, Ite(c, x.nan, y.nan), Ite(c, x.pi, y.pi), Ite(c, x.ni, y.ni), r)
                if not is_num(r):
                    self.ctx.add_rep(x.fmt, r)
                env[ins.res] = v
            elif isinstance(x, Ptr):
                raise Unsupported("select on pointers")
            else:
                env[ins.res] = Ite(c, x, y)
        elif op == "landingpad":
            exn = env.get("__exn")
            st.ghost["exn"] = exn
            sel = 0
            for c in a["catch"]:
                if c == "null" or exn_matches(exn, c):
                    sel = 1 if c == "null" else typeid_of(c)
                    break
            env[ins.res] = {"agg": [Ptr("exn", 0), sel]}
        elif op == "extractvalue":
            v = self.val(env, a[0])
            for i in a[1]:
                v = v["agg"][i] if isinstance(v, dict) else UNDEF
            env[ins.res] = v
        elif op == "insertvalue":
            v, x, idx = self.val(env, a[0]), self.val(env, a[1]), a[2]
            if len(idx) != 1:
                raise Unsupported("nested insertvalue")
            l = list(v["agg"]) if isinstance(v, dict) else [UNDEF] * 8
            l[idx[0]] = x
            env[ins.res] = {"agg": l}
        else:
            raise Unsupported("instruction " + ins.text[:100])

    def do_call(self, fn, ins, env, st):
        a = ins.a
        name = a["callee"]
        if name is None:
            v = env.get(a["indirect"])
            if isinstance(v, Ptr) and isinstance(v.b, tuple):
                name = v.b[1]
            else:
                raise Unsupported("indirect call")
        if name.startswith("llvm."):
            v = self.intrinsic(name, a, env, st)
            return [Outcome("ret", v, st)]
        args = [self.val(env, x) for x in a["args"]]
        return self.call(name, args, st)

    def intrinsic(self, name, a, env, st):
        A = a["args"]
        g = lambda i: self.val(env, A[i])
        ctx = self.ctx
        if name.startswith("llvm.experimental.constrained."):
            op = name.split(".")[3]
            meta = [x[1] for x in A if x[0] == "meta"]
            rm = st.rm
            for m in meta:
                if m.startswith("round.") and m != "round.dynamic":
                    rm = {"round.tonearest": NEAR, "round.downward": DOWN, "round.upward": UP,
                          "round.towardzero": TZ}[m]
            if op in ("fadd", "fsub", "fmul", "fdiv"):
                return getattr(ctx, op)(g(0), g(1), rm)
            if op in ("fcmp", "fcmps"):
                return self.fcmp(meta[0], g(0), g(1))
            if op in ("sitofp", "uitofp"):
                v = g(0)
                w = A[0][2].w
                v = self.as_int(self.int_of_bool(v) if w == 1 else v, 32)
                if op == "uitofp":
                    v = self.unsigned(v, max(w, 2))
                return ctx.from_int(v, FMTS[a["ret"].k], rm, w)
            if op in ("fptrunc", "fpext"):
                return ctx.convert(g(0), FMTS[a["ret"].k], rm)
            if op == "sqrt":
                return ctx.fsqrt(g(0), rm)
            if op in ("rint", "nearbyint"):
                return ctx.frint(g(0), rm)
            if op in ("floor", "ceil", "trunc"):
                return ctx.frint(g(0), {"floor": DOWN, "ceil": UP, "trunc": TZ}[op])
            if op in ("maxnum", "minnum"):
                return self.fminmax(op[:3], g(0), g(1))
            if op in ("fptosi", "fptoui"):
                x = g(0)
                w = a["ret"].w
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op == "fptosi" else (0, (1 << w) - 1)
                t = ctx.frint(x, TZ)
                self.oblig(st, "float-to-integer conversion in range",
                           And(x.fin(), le(Fraction(lo), t.r), le(t.r, Fraction(hi))), "ub")
                if is_num(t.r):
                    return self.wrap(int(t.r), w)
                i = ctx.fresh("toint", "i")
                ctx.define(i, z3.ToReal(i) == t.r)
                return i
            if op in LIBM:
                return self.libm(op, g(0), rm)
            raise Unsupported("intrinsic " + name)
        if name.startswith("llvm.fabs"):
            return self.fabs(g(0))
        if name.startswith("llvm.is.fpclass"):
            x, m = g(0), g(1)
            c = []
            z = Fraction(0)
            if m & 3:
                c.append(x.nan)
            if m & 4:
                c.append(x.ni)
            if m & 512:
                c.append(x.pi)
            fin = x.fin()
            if (m & 8) and (m & 16):
                c.append(And(fin, lt(x.r, z)))
            elif m & 24:
                raise Unsupported("fpclass subnormal test")
            if (m & 128) and (m & 256):
                c.append(And(fin, gt(x.r, z)))
            elif m & 384:
                raise Unsupported("fpclass subnormal test")
            if (m & 32) and (m & 64):
                c.append(And(fin, eq(x.r, z)))
            elif m & 96:
                raise Unsupported("fpclass signed-zero test")
            return Or(*c)
        if name.startswith("llvm.maxnum") or name.startswith("llvm.minnum"):
            return self.fminmax(name[5:8], g(0), g(1))
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            d, s, n = g(0), g(1), g(2)
            if not is_num(n) or not isinstance(d, Ptr) or not isinstance(s, Ptr):
                raise Unsupported("memcpy")
            cells = [(k, v) for k, v in st.mem.items() if k[0] == s.b and s.o <= k[1] < s.o + n]
            for k, v in cells:
                if self.wlog is not None:
                    self.wlog.add((d.b, d.o + k[1] - s.o))
                st.mem[(d.b, d.o + k[1] - s.o)] = v
            if isinstance(s.b, tuple):
                raise Unsupported("memcpy from a global")
            return None
        if name.startswith("llvm.eh.typeid.for"):
            return typeid_of(g(0).b[1])
        if name.startswith("llvm.lifetime") or name.startswith("llvm.dbg") or name.startswith("llvm.assume"):
            return None
        if name.startswith("llvm.trap"):
            self.oblig(st, "no trap", False, "ub")
            return None
        if name.startswith("llvm.expect"):
            return g(0)
        if name.startswith(("llvm.smax", "llvm.smin")):
            x, y = g(0), g(1)
            return Ite(lt(x, y), y, x) if "smax" in name else Ite(lt(x, y), x, y)
        if name.startswith("llvm.abs"):
            x = g(0)
            return Ite(lt(x, 0), -x, x)
        raise Unsupported("intrinsic " + name)

    def fabs(self, x):
        r = Ite(ge(x.r, Fraction(0)), x.r, neg(x.r))
        if not is_num(r):
            self.ctx.add_rep(x.fmt, r)
        return FP(x.fmt, x.nan, x.is_inf(), False, r)

    def fminmax(self, op, x, y):
        c = f_lt(y, x) if op == "max" else f_lt(x, y)
        c = Ite(y.nan, True, Ite(x.nan, False, c))
        r = Ite(c, x.r, y.r)
        if not is_num(r):
            self.ctx.add_rep(x.fmt, r)
        return FP(x.fmt, And(x.nan, y.nan), Ite(c, x.pi, y.pi), Ite(c, x.ni, y.ni), r)

    def libm(self, f, x, rm):
        import funcs, contracts
        self.trusted.add(contracts.LIBM_ASSUMED)
        return funcs.libm_value(self.ctx, f, x, rm)

    def stream_write(self, ty, args, st):
        """contract of the standard stream insertion operators: the item is appended to what the stream has
        received, in the rounding direction in force, and the stream is returned"""
        self.trusted.add("standard stream insertion of characters, strings and numbers writes just them and returns the stream")
        if (args[0].b, args[0].o) != ("stream", 0):
            raise Unsupported("output to an unknown stream")
        v = args[1]
        if ty in ("char", "wchar_t"):
            if not is_num(v):
                raise Unsupported("output of a computed character")
            items = (chr(int(v)),)
        elif ty.endswith("*"):
            items = self.c_string(v)
        else:
            if not isinstance(v, FP):
                raise Unsupported("output of an undefined number")
            items = (v,)
        st.ghost["out"] = st.ghost.get("out", ()) + tuple((i, st.rm) for i in items)
        return [Outcome("ret", args[0], st)]

    def c_string(self, p):
        g = self.mod.globals.get(p.b[1], "") if isinstance(p.b, tuple) and p.b[0] == "g" else ""
        m = re.search(r'constant \[\d+ x i8\] c"((?:[^"\\]|\\[0-9A-Fa-f]{2})*)"', g)
        if m:
            t = re.sub(r"\\([0-9A-Fa-f]{2})", lambda k: chr(int(k.group(1), 16)), m.group(1))
        else:
            m = re.search(r"constant \[\d+ x i32\] \[(.*?)\]", g)
            if not m:
                raise Unsupported("output of a computed string")
            t = "".join(chr(int(k.split()[-1])) for k in m.group(1).split(","))
        return tuple(t[p.o:].split("\0")[0]) if p.o < len(t) else ()

    # ------------------------------------------------------------ externals
    def external(self, name, args, st):
        ret = lambda v: [Outcome("ret", v, st)]
        if name == "fegetround":
            return ret(st.rm)
        if name == "fesetround":
            m = args[0]
            if is_num(m) and m not in MODES:
                self.oblig(st, "valid rounding direction", False, "rm")
            st.rm = m
            return ret(0)
        if name in ("vc_stream", "vc_wstream"):
            return ret(Ptr("stream", 0))
        m = RX_PUT.search(self.dem(name)) if "ostream" in self.dem(name) else None
        if m:
            return self.stream_write(m.group(1) or m.group(2), args, st)
        if name == "__cxa_allocate_exception":
            return ret(Ptr(self.new_block("x"), 0))
        if name == "__cxa_free_exception":
            return ret(None)
        if name == "__cxa_throw":
            return [Outcome("throw", args[1].b[1] if isinstance(args[1].b, tuple) else "?", st)]
        if name == "__cxa_rethrow":
            return [Outcome("throw", st.ghost.get("exn"), st)]
        if name in ("__cxa_begin_catch", "__cxa_end_catch"):
            return ret(Ptr("exn", 0))
        if name == "__assert_fail":
            return [Outcome("abort", "assert", st)]
        if name in ("abort", "_ZSt9terminatev", "__clang_call_terminate"):
            return [Outcome("abort", name, st)]
        if re.match(r"_ZNSt\d+(runtime_error|invalid_argument|logic_error|domain_error|out_of_range|range_error|overflow_error)[CD]\d", name) \
                or re.match(r"_ZNSt9exception[CD]\d", name) or name in ("_ZdlPv", "_ZdlPvm"):
            return ret(None)
        d = name
        base, fmt = d, None
        if d.endswith("l") and d[:-1] in LIBM + ["sqrt", "rint", "floor", "ceil", "trunc", "nearbyint", "fabs", "fmax", "fmin"]:
            base = d[:-1]
        elif d.endswith("f") and d[:-1] in LIBM + ["sqrt", "rint", "floor", "ceil", "trunc", "nearbyint", "fabs", "fmax", "fmin"]:
            base = d[:-1]
        if base == "sqrt":
            self.trusted.add("libm: sqrt is correctly rounded in the current direction (IEEE 754)")
            return ret(self.ctx.fsqrt(args[0], st.rm))
        if base in ("rint", "nearbyint"):
            return ret(self.ctx.frint(args[0], st.rm))
        if base in ("floor", "ceil", "trunc"):
            return ret(self.ctx.frint(args[0], {"floor": DOWN, "ceil": UP, "trunc": TZ}[base]))
        if base == "fabs":
            return ret(self.fabs(args[0]))
        if base in ("fmax", "fmin"):
            return ret(self.fminmax(base[1:], args[0], args[1]))
        if base in LIBM:
            return ret(self.libm(base, args[0], st.rm))
        raise Unsupported("call to external function " + self.dem(name))
