"""Turning (function, instantiation) pairs into obligations."""
import itertools, os, subprocess, hashlib, time, sys
import z3
from logic import *
from fpv import *
from theory import *
from sexec import *
from spec import *
import api, contracts, irparse

HDR = """#include <boost/numeric/interval.hpp>
#include <boost/numeric/interval/compare.hpp>
#include <boost/numeric/interval/compare/tribool.hpp>
#include <boost/numeric/interval/ext/integer.hpp>
#include <boost/numeric/interval/io.hpp>
#include <boost/numeric/interval/limits.hpp>
#include <sstream>
#include <utility>
#include <new>
extern "C" std::ostream* vc_stream();
extern "C" std::wostream* vc_wstream();
using namespace boost::numeric;
using namespace boost::numeric::interval_lib;
"""
CT = {"i": "int", "u": "unsigned", "q": "long long", "d": "double", "f": "float", "e": "long double", "Q": "unsigned long long"}
PF = {"d": F64, "f": F32, "e": F80}


def wrapper(inst, fn, name=None, native=False):
    name = name or "%s__%s" % (inst.name, fn.id)
    lines = ["extern \"C\" void %s(void** o, void** a) {" % name,
             "  typedef %s T; typedef %s I; (void)o;" % (inst.T, inst.ctype)]
    for k, p in enumerate(fn.params):
        if p == "I":
            c = "" if fn.inplace and k == 0 else "const "
            lines.append("  %sI& x%d = *(%sI*)a[%d];" % (c, k, c, k))
        elif p in api.IPARAMS:
            lines.append("  typedef %s %s%d; const %s%d& x%d = *(const %s%d*)a[%d];" % (inst.inst_of(p).ctype, p, k, p, k, k, p, k, k))
        elif p == "N":
            lines.append("  const T& x%d = *(const T*)a[%d];" % (k, k))
        else:
            lines.append("  const %s& x%d = *(const %s*)a[%d];" % (CT[p], k, CT[p], k))
        lines.append("  (void)x%d;" % k)
    b = fn.native_body if native and fn.native_body else fn.body
    if fn.raw:
        lines.append("  " + b)
    elif fn.out == "I":
        lines.append("  ::new (o[0]) I(%s);" % b)
    elif fn.out == "N":
        lines.append("  *(T*)o[0] = %s;" % b)
    elif fn.out == "b":
        lines.append("  *(int*)o[0] = (%s) ? 1 : 0;" % b)
    elif fn.out == "S":
        lines.append("  %s;" % b)
    elif fn.out == "P":
        lines.append("  std::pair<I,I> p = %s; ::new (o[0]) I(p.first); ::new (o[1]) I(p.second);" % b)
    lines.append("}")
    return name, "\n".join(lines)


def tu(pairs, native=False):
    out = [HDR]
    for inst, fn in pairs:
        out.append(wrapper(inst, fn, native=native)[1])
    return "\n".join(out)


CLANG = ["clang++", "-std=c++17", "-O0", "-frounding-math", "-fno-discard-value-names", "-w", "-S", "-emit-llvm"]


def compile_ir(src, wd, tag, repo=os.environ.get("VC_REPO", "/repo")):
    p = os.path.join(wd, tag + ".cpp")
    open(p, "w").write(src)
    o = os.path.join(wd, tag + ".ll")
    r = subprocess.run(CLANG + ["-I%s/include" % repo, p, "-o", o], capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr
    return irparse.Module(open(o).read()), None


SZ = {"F32": 4, "F64": 8, "F80": 16}
ICASES = {"f": ("fin", "fin"), "r": ("fin", "pinf"), "l": ("ninf", "fin"), "w": ("ninf", "pinf"), "E": ("nan", "nan"), "R": None}


def operand_cases(inst, fn, k, p):
    if fn.target and k == 0:
        return ["f"] + (["E"] if inst.empty == "base" else [])
    if p in api.IPARAMS:
        ins = inst.inst_of(p)
        if fn.pre == "finite":
            cs = ["f"]
        else:
            cs = ["f", "r", "l", "w"]
        if fn.empties and ins.empty == "base":
            cs += ["E", "R"]
        return cs
    if p == "N":
        cs = ["fin"]
        if fn.inf_arg:
            cs += ["pinf", "ninf"]
        if fn.nan_arg and inst.nan != "ignore":
            cs.append("nan")
        return cs
    if p in PF:
        cs = ["fin"]
        if fn.nan_arg and inst.nan != "ignore":
            cs.append("nan")
        return cs
    return list(fn.icases) if fn.icases else ["int"]


def all_cases(inst, fn):
    opts = [operand_cases(inst, fn, k, p) for k, p in enumerate(fn.params)]
    out = []
    for c in itertools.product(*opts):
        bad = [x for x in (c[1:] if fn.target else c) if x in ("E", "R", "nan")]
        # operands outside the domain are paired with one representative of the others
        if bad and any(x not in ("E", "R", "nan", "f", "fin", "int") for x in c):
            continue
        out.append(c)
    return out


def setup(ctx, inst, fn, case):
    """initial state and operands"""
    prot = inst.protected
    if inst.rounding == "opp" and not prot:
        rm0 = UP
    else:
        rm0 = z3.Int("rm0")
        ctx.define(rm0, z3.Or(rm0 == NEAR, rm0 == DOWN, rm0 == UP, rm0 == TZ))
    st = State(rm0)
    ops = []
    for k, (p, c) in enumerate(zip(fn.params, case)):
        st.mem[("A", 8 * k)] = Ptr("arg%d" % k, 0)
        b = "arg%d" % k
        if p in api.IPARAMS:
            fmt = inst.operand_fmt(p)
            if c == "R":
                lo, hi = ctx.fp_var("l%d" % k, fmt, "fin"), ctx.fp_var("u%d" % k, fmt, "fin")
                st.assume(gt(lo.r, hi.r))
            else:
                kk = ICASES[c]
                lo, hi = ctx.fp_var("l%d" % k, fmt, kk[0]), ctx.fp_var("u%d" % k, fmt, kk[1])
                if c == "f":
                    st.assume(le(lo.r, hi.r))
            st.mem[(b, 0)] = lo
            st.mem[(b, SZ[fmt.name])] = hi
            ops.append(IV(lo, hi, c in ("E", "R")))
        elif p == "N" or p in PF:
            fmt = inst.fmt if p == "N" else PF[p]
            v = ctx.fp_var("n%d" % k, fmt, c)
            st.mem[(b, 0)] = v
            ops.append(v)
        else:
            v = z3.Int("i%d" % k)
            lo, hi = {"i": (-2**31, 2**31 - 1), "u": (0, 2**32 - 1), "q": (-2**63, 2**63 - 1), "Q": (0, 2**64 - 1)}[p]
            ctx.define(v, v >= lo, v <= hi)
            w = 64 if p in "qQ" else 32
            st.mem[(b, 0)] = v if p in "iq" else z3.If(v >= (1 << (w - 1)), v - (1 << w), v)
            ops.append(v)
    for j in range(3):
        st.mem[("O", 8 * j)] = Ptr("out%d" % j, 0)
    return st, ops


def read_iv(st, b, fmt):
    lo, hi = st.mem.get((b, 0)), st.mem.get((b, SZ[fmt.name]))
    if not isinstance(lo, FP) or not isinstance(hi, FP):
        return None
    return IV(lo, hi)


def boolify(v):
    if is_num(v):
        return v != 0
    if isb(v):
        return v
    if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)):
        a, b = v.arg(1).as_long() != 0, v.arg(2).as_long() != 0
        return Ite(v.arg(0), a, b)
    return v != 0


def result_of(inst, fn, st):
    if fn.out == "I":
        return read_iv(st, "out0", inst.fmt)
    if fn.out == "S":
        return read_iv(st, "arg0", inst.fmt)
    if fn.out == "P":
        a, b = read_iv(st, "out0", inst.fmt), read_iv(st, "out1", inst.fmt)
        return (a, b) if a and b else None
    if fn.out == "N":
        return st.mem.get(("out0", 0))
    if fn.out == "t":
        return st.mem.get(("out0", 0))
    if fn.out == "D":
        p, q, v = read_iv(st, "out0", inst.fmt), read_iv(st, "out1", inst.fmt), st.mem.get(("out2", 0))
        if p is None or q is None or v is None:
            return None
        return p, q, boolify(v)
    if fn.out == "b":
        v = st.mem.get(("out0", 0))
        if v is None:
            return None
        return boolify(v)
    if fn.out == "v":
        return ()
    if fn.out == "w":
        v = st.mem.get(("out0", 0))
        return None if v is None else (boolify(v), st.ghost.get("out", ()))
    if callable(fn.out):
        return fn.out(inst, st)
    raise Unsupported("result")


EXC = api.EXCN


def int_exact(inst, fn, ops):
    B = 2 ** inst.fmt.p
    w = 64 if fn.params[fn.intpre] in "qQ" else 32
    if w <= inst.fmt.p:
        return True
    i = ops[fn.intpre]
    return And(le(-B, i), le(i, B))


def is_bad(c):
    return c in ("E", "R", "nan")


def judge(s, inst, fn, case, ops, kind, val, res, dummy, after=None):
    """all claims for one outcome; s: Spec.  returns list of claims"""
    c = judge0(s, inst, fn, case, ops, kind, val, res, dummy)
    if kind == "throw" and fn.inplace and after is not None:
        s.cond = True
        s.claim("exc", "the target is unchanged when an exception is raised",
                And(f_same(after.lo, ops[0].lo), f_same(after.hi, ops[0].hi)))
    return s.claims


def judge0(s, inst, fn, case, ops, kind, val, res, dummy):
    ccase = case[1:] if fn.target else case
    has_nan = "nan" in ccase
    has_empty = any(c in ("E", "R") for c in ccase)
    # --- NaN numbers under a throwing checking policy
    if kind == "abort":
        s.claim("abort", "no assertion failure or abnormal termination", False)
        return s.claims
    if has_nan and inst.nan == "throw":
        # an empty interval operand may be recognised before the invalid number is looked at
        if kind == "throw":
            s.claim("exc", "an invalid number raises the invalid-number exception", val == EXC["nan"] or (has_empty and val == EXC["cmp"]))
        elif not has_empty:
            s.claim("exc", "an invalid number is rejected with an exception", False)
        return s.claims
    if fn.strict and (has_nan or has_empty):
        if kind == "throw":
            if inst.empty == "throw":
                s.claim("exc", "only the empty-interval exception", val == EXC["empty"])
            else:
                s.claim("exc", "no exception", False)
            return s.claims
        if inst.empty == "throw":
            s.claim("exc", "an empty result is refused with an exception", False)
            return s.claims
        for r in (res if isinstance(res, tuple) else (res,)):
            if fn.out in "Nbt":
                break
            if isinstance(r, IV):
                s.claim("empty", "an empty or invalid operand gives the empty interval", r.empty)
                s.claim("valid", "result is empty or a well-formed interval", Or(r.empty, s.well_formed(r)))
        return s.claims
    if kind == "throw":
        s2 = s
        n0 = len(s.claims)
        fn.spec(s, dummy, *ops)
        del s.claims[n0:]
        s.cond = True
        if val == EXC["empty"] and inst.empty == "throw":
            s.claim("exc", "the empty-interval exception is raised only when there is no result", Or(s.empty_when, s.may_throw))
        elif val == EXC["cmp"]:
            s.claim("exc", "comparison_error is raised only when the comparison is uncertain or invalid", s.throw_when)
        else:
            s.claim("exc", "no unexpected exception (%s)" % val, False)
        return s.claims
    fn.spec(s, res, *ops)
    s.cond = True
    if s.throw_when is not False:
        s.claim("exc", "an uncertain or invalid comparison raises comparison_error", Not(s.throw_when))
    if s.empty_when is not False:
        if inst.empty == "throw":
            s.claim("exc", "no result outside the domain: an exception is raised", Not(s.empty_when))
        else:
            for r0 in (res[:2] if isinstance(res, tuple) else (res,)):
                s.claim("empty", "empty result outside the domain", Implies(s.empty_when, r0.empty))
                s.claim("valid", "result outside the domain is empty or a well-formed interval",
                        Implies(s.empty_when, Or(r0.empty, s.well_formed(r0))))
    return s.claims


def dummy_result(inst, fn):
    n = IV(FP.NaN(inst.fmt), FP.NaN(inst.fmt), True)
    return {"I": n, "S": n, "P": (n, n), "N": FP.NaN(inst.fmt), "b": False, "t": 0, "D": (n, n, False)}.get(fn.out, n)


def fn_obligations(mod, inst, fn, tags, exact, mkexec):
    """yields (case, ex, [Ob]) for every operand class"""
    name = "%s__%s" % (inst.name, fn.id)
    for case in all_cases(inst, fn):
        ex = mkexec(exact)
        ctx = ex.ctx
        st, ops = setup(ctx, inst, fn, case)
        rm0 = st.rm
        label = "%s %s(%s)" % (inst.name, fn.id, ",".join(case))
        obs = []
        if callable(fn.pre):
            st.assume(fn.pre(*ops))
            if st.dead():
                continue
        if fn.intpre is not None:
            st.assume(int_exact(inst, fn, ops))
        if fn.elements:
            ctx.elements = [(ctx.fresh("m"), x) for x in ops if isinstance(x, IV) and x.empty is not True]
        try:
            ex.wrapper = True
            outs = ex.run(mod.funcs[name], [Ptr("O", 0), Ptr("A", 0)], st)
        except (Unsupported, ExecLimit) as e:
            obs.append(Ob(label + ": outside the verifier's reach: %s" % e, "unsupported", [], False))
            yield case, ex, obs, ops
            continue
        for o in outs:
            s = SymSpec(inst, ctx)
            res = None
            if o.kind == "ret":
                res = result_of(inst, fn, o.st)
                if res is None:
                    obs.append(Ob(label + ": result is initialised", "side", o.st.pc, False))
                    continue
            claims = judge(s, inst, fn, case, ops, o.kind, o.val, res, dummy_result(inst, fn),
                           after=read_iv(o.st, "arg0", inst.fmt) if fn.inplace else None)
            for t, n, c in claims:
                if t in tags:
                    obs.append(Ob("%s: %s" % (label, n), t, o.st.pc + s.hyps, c))
            if "rm" in tags and o.kind in ("ret", "throw"):
                if inst.protected:
                    g = (o.st.rm == rm0) if not (isinstance(o.st.rm, int) and isinstance(rm0, int)) else o.st.rm == rm0
                    obs.append(Ob(label + ": rounding direction restored (%s)" % o.kind, "rm", o.st.pc, g))
                elif inst.rounding == "opp":
                    g = o.st.rm == UP
                    obs.append(Ob(label + ": rounding direction still upward (%s)" % o.kind, "rm", o.st.pc, g))
        for q in ex.obs:
            obs.append(Ob("%s: %s" % (label, q.name), q.tag, q.pc, q.goal))
        if not outs:
            obs.append(Ob(label + ": some path returns", "side", [], False))
        yield case, ex, obs, ops
