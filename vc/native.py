"""Native replay: the same wrappers, compiled from /repo and executed, judged by
the same specification evaluated on exact rationals."""
import os, random, struct, subprocess, itertools, time
from fractions import Fraction
from fpv import *
from logic import is_num
from theory import NEAR, DOWN, UP, TZ, MODES
import jobs, spec, api

SLOT = 64
RMS = [NEAR, DOWN, UP, TZ]

DRV = r"""
#include <cstdio>
#include <cstring>
#include <cfenv>
#include <csignal>
#include <unistd.h>
#include <stdexcept>
typedef void (*fn_t)(void**, void**);
static fn_t tab[] = {%s};
alignas(64) static unsigned char A[4][64], O[4][64];
static int hx(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
int main() {
  static char line[4096];
  void* a[4]; void* o[4];
  for (int i = 0; i < 4; ++i) { a[i] = A[i]; o[i] = O[i]; }
  while (fgets(line, sizeof line, stdin)) {
    int f, rm, n = 0;
    if (sscanf(line, "%%d %%d %%n", &f, &rm, &n) < 2) break;
    char* p = line + n;
    for (int k = 0; k < 3; ++k) for (int i = 0; i < 64; ++i) { A[k][i] = hx(p[0]) * 16 + hx(p[1]); p += 2; }
    memset(O, 0xEE, sizeof O);
    alarm(10);
    int kind = 0;
    fesetround(rm);
    try { tab[f](o, a); }
    catch (boost::numeric::interval_lib::comparison_error&) { kind = 3; }
    catch (std::invalid_argument&) { kind = 2; }
    catch (std::runtime_error&) { kind = 1; }
    catch (...) { kind = 4; }
    int rm2 = fegetround();
    fesetround(FE_TONEAREST);
    alarm(0);
    printf("%%d %%d ", kind, rm2);
    for (int k = 0; k < 3; ++k) for (int i = 0; i < 64; ++i) printf("%%02x", O[k][i]);
    putchar(' ');
    for (int k = 0; k < 3; ++k) for (int i = 0; i < 64; ++i) printf("%%02x", A[k][i]);
    putchar('\n');
    fflush(stdout);
  }
}
"""


# ---------------------------------------------------------------- codecs
def enc(x, negzero=False):
    """FP (concrete) -> bytes"""
    f = x.fmt
    p, emax = f.p, f.emax
    if f is F80:
        ebits, mbits = 15, 64
    else:
        ebits, mbits = (8, 23) if f is F32 else (11, 52)
    bias = emax
    if x.nan is True:
        s, e, m = 0, (1 << ebits) - 1, (3 << 62 if f is F80 else 1 << (mbits - 1))
    elif x.pi is True or x.ni is True:
        s, e, m = int(x.ni is True), (1 << ebits) - 1, (1 << 63 if f is F80 else 0)
    else:
        r = x.r
        s = int(r < 0 or (r == 0 and negzero))
        r = abs(r)
        if r == 0:
            e = m = 0
        else:
            k = f.ulp_exp(r)
            q = r / Fraction(2) ** k
            assert q.denominator == 1, "not representable"
            q = int(q)
            if q < (1 << (p - 1)):
                e, m = 0, q
            else:
                e = k + p - 1 + bias
                m = q if f is F80 else q - (1 << (p - 1))
    if f is F80:
        return struct.pack("<QH", m, (s << 15) | e) + b"\0" * 6
    v = (s << (ebits + mbits)) | (e << mbits) | m
    return v.to_bytes(4 if f is F32 else 8, "little")


def dec(b, f):
    if f is F80:
        m, se = struct.unpack("<QH", b[:10])
        s, e = se >> 15, se & 0x7fff
        if e == 0x7fff:
            if m & ((1 << 63) - 1):
                return FP.NaN(f)
            return FP.ninf(f) if s else FP.pinf(f)
        r = Fraction(m) * Fraction(2) ** (max(e, 1) - 16383 - 63)
        return FP.num(f, -r if s else r)
    n, eb, mb = (4, 8, 23) if f is F32 else (8, 11, 52)
    v = int.from_bytes(b[:n], "little")
    s, e, m = v >> (n * 8 - 1), (v >> mb) & ((1 << eb) - 1), v & ((1 << mb) - 1)
    if e == (1 << eb) - 1:
        return FP.NaN(f) if m else (FP.ninf(f) if s else FP.pinf(f))
    if e == 0:
        r = Fraction(m) * Fraction(2) ** (1 - f.emax - mb)
    else:
        r = Fraction(m + (1 << mb)) * Fraction(2) ** (e - f.emax - mb)
    return FP.num(f, -r if s else r)


def fstr(x):
    if not isinstance(x, FP):
        return str(x)
    if x.fin() is True:
        r = x.r
        if r == 0:
            return "0"
        n, d = r.numerator, r.denominator
        # exact hexadecimal rendering
        if d & (d - 1) == 0:
            k = d.bit_length() - 1
            while n % 2 == 0:
                n //= 2
                k -= 1
            return "%s0x%xp%+d" % ("-" if n < 0 else "", abs(n), -k)
        return str(r)
    return repr(x)


# ---------------------------------------------------------------- values
def pool(fmt, rng):
    M, E = fmt.MAX, fmt.ETA
    two = Fraction(2)
    MIN = two ** fmt.emin
    v = [Fraction(0), Fraction(1), Fraction(-1), Fraction(2), Fraction(3), Fraction(-3), Fraction(1, 2), Fraction(-1, 2),
         Fraction(7), Fraction(-10), fmt.rd(Fraction(1, 10)).r, fmt.rd(Fraction(-1, 10)).r, fmt.rd(Fraction(1, 3)).r, fmt.rd(Fraction(-5, 3)).r,
         M, -M, E, -E, MIN, -MIN, fmt.rd(M / 3).r, fmt.rd(-M / 3).r, two ** (fmt.p - 1) - Fraction(1, 2), two ** fmt.p, two ** fmt.p - 1,
         1 + two ** (1 - fmt.p), 1 - two ** (-fmt.p), fmt.rd(Fraction(31415926535897932384626433832795, 10**31)).r,
         -fmt.rd(Fraction(31415926535897932384626433832795, 10**31)).r, fmt.rd(Fraction(314159265358979323846, 2 * 10**20)).r,
         fmt.rd(Fraction(10) ** 7).r, fmt.rd(-Fraction(10) ** 7).r, Fraction(4), Fraction(9), Fraction(-4), Fraction(100)]
    return v


PI60 = Fraction(3141592653589793238462643383279502884197169399375105820974944592307, 10 ** 66)


def rand_val(fmt, rng, scale=None):
    k = rng.random()
    if k < 0.07:
        t = PI60 * rng.randint(1, 8) / 2      # the numbers next to a multiple of half pi
        v = fmt.rd(t).r if rng.random() < 0.5 else -fmt.rd(-t).r
        return v if rng.random() < 0.6 else -v
    if k < 0.35:
        return rng.choice(pool(fmt, rng))
    if k < 0.75:
        e = rng.randint(-6, 6)
    elif k < 0.9:
        e = rng.randint(-60, 60)
    else:
        e = rng.randint(fmt.emin - fmt.p, fmt.emax - 1)
    if rng.random() < 0.3:
        m = Fraction(rng.randint(1, 16))
    else:
        m = Fraction(rng.getrandbits(fmt.p - 1) | 1, 1 << (fmt.p - 1)) + 1
    v = m * Fraction(2) ** e
    if rng.random() < 0.5:
        v = -v
    return fmt.rd(v).r if abs(v) <= fmt.MAX else fmt.MAX


def near_rep(fmt, v, rng):
    if abs(v) > fmt.MAX:
        v = fmt.MAX if v > 0 else -fmt.MAX
    return fmt.rn(Fraction(v)).r


IRANGE = {"i": (-2**31, 2**31 - 1), "u": (0, 2**32 - 1), "q": (-2**63, 2**63 - 1), "Q": (0, 2**64 - 1)}


def rand_int(p, rng, small=False):
    lo, hi = IRANGE[p]
    k = rng.random()
    if small or k < 0.6:
        v = rng.randint(-12, 12)
    elif k < 0.8:
        v = rng.choice([lo, hi, lo + 1, hi - 1, 0, 1, 2**24 + 1, 2**31 - 1, 2**53 + 1, 2**63 - 1])
    else:
        v = rng.randint(lo, hi)
    return min(max(v, lo), hi)


def gen_ops(inst, fn, case, rng, model=None):
    """concrete operands for one case, or None"""
    m = model or {}
    use = model is not None and rng.random() < 0.5
    jit = rng.random() < 0.5

    def val(name, fmt):
        if use and name in m:
            v = near_rep(fmt, m[name], rng)
            return v
        if m and rng.random() < 0.15 and m:
            return near_rep(fmt, rng.choice(list(m.values())), rng)
        return rand_val(fmt, rng)
    ops = []
    for k, (p, c) in enumerate(zip(fn.params, case)):
        if p in api.IPARAMS:
            fmt = inst.operand_fmt(p)
            if c == "E":
                ops.append(spec.IV(FP.NaN(fmt), FP.NaN(fmt), True))
                continue
            a, b = val("l%d" % k, fmt), val("u%d" % k, fmt)
            if rng.random() < 0.15:
                b = a
            if ops and rng.random() < 0.2:
                q = rng.choice(ops)
                src = [x.r for x in ((q.lo, q.hi) if isinstance(q, spec.IV) else (q,)) if isinstance(x, FP) and x.fin() is True and fmt.rep(x.r)]
                if src:
                    s_ = rng.choice(src)
                    if rng.random() < 0.5:
                        a = s_
                    else:
                        b = s_
            if a > b:
                a, b = b, a
            if c == "R":
                if a == b:
                    b = a + 1 if fmt.rep(a + 1) else a
                    if a == b:
                        return None
                a, b = b, a
                ops.append(spec.IV(FP.num(fmt, a), FP.num(fmt, b), True))
                continue
            kk = jobs.ICASES[c]
            lo = FP.num(fmt, a) if kk[0] == "fin" else FP.ninf(fmt)
            hi = FP.num(fmt, b) if kk[1] == "fin" else FP.pinf(fmt)
            ops.append(spec.IV(lo, hi, False))
        elif p == "N" or p in jobs.PF:
            fmt = inst.fmt if p == "N" else jobs.PF[p]
            if c == "fin":
                v = val("n%d" % k, fmt)
                if ops and rng.random() < 0.25 and isinstance(ops[0], spec.IV):
                    src = [x.r for x in (ops[0].lo, ops[0].hi) if x.fin() is True and fmt.rep(x.r)]
                    if src:
                        v = rng.choice(src)
                ops.append(FP.num(fmt, v))
            else:
                ops.append({"pinf": FP.pinf, "ninf": FP.ninf, "nan": FP.NaN}[c](fmt))
        else:
            if use and "i%d" % k in m:
                v = int(m["i%d" % k])
            else:
                v = rand_int(p, rng, fn.small_int)
            lo, hi = IRANGE[p]
            if isinstance(c, tuple):
                v = c[1] if rng.random() < 0.7 else v
            v = min(max(v, lo), hi)
            ops.append(v)
    return ops


def slot_bytes(inst, fn, ops, rng):
    out = []
    for p, x in zip(fn.params, ops):
        nz = rng.random() < 0.4
        if isinstance(x, spec.IV):
            b = enc(x.lo, nz)
            sz = jobs.SZ[x.lo.fmt.name]
            b = b.ljust(sz, b"\0") + enc(x.hi, rng.random() < 0.4)
        elif isinstance(x, FP):
            b = enc(x, nz)
        else:
            w = 8 if p in "qQ" else 4
            b = (x & ((1 << (8 * w)) - 1)).to_bytes(w, "little")
        out.append(b.ljust(SLOT, b"\0"))
    while len(out) < 3:
        out.append(b"\0" * SLOT)
    return out


class Native:
    def __init__(self, pairs, wd, tag, repo=os.environ.get("VC_REPO", "/repo"), libm=False):
        self.pairs = pairs
        self.err = None
        src = jobs.tu(pairs, True) + DRV % ",".join(jobs.wrapper(i, f)[0] for i, f in pairs)
        p = os.path.join(wd, tag + ".cpp")
        self.exe = os.path.join(wd, tag + ".exe")
        open(p, "w").write(src)
        cmd = ["clang++", "-std=c++17", "-O0", "-frounding-math", "-w", "-I%s/include" % repo, p]
        if libm:
            cmd += [os.path.join(os.path.dirname(os.path.abspath(__file__)), "mpfr_libm.cpp"), "-lmpfr", "-lgmp"]
        r = subprocess.run(cmd + ["-o", self.exe], capture_output=True, text=True)
        if r.returncode:
            self.err = r.stderr

    def run(self, inputs):
        """inputs: [(pair index, rm, [slots])] -> [(kind, rm, outs, ins)] ; kind 'abort' when the process died"""
        res = []
        i = 0
        while i < len(inputs):
            txt = "\n".join("%d %d %s" % (f, rm, "".join(s.hex() for s in sl)) for f, rm, sl in inputs[i:]) + "\n"
            try:
                r = subprocess.run([self.exe], input=txt, capture_output=True, text=True, timeout=120)
                out = r.stdout
            except subprocess.TimeoutExpired as e:
                out = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
            lines = [l for l in out.split("\n") if l.strip()]
            for l in lines:
                w = l.split()
                if len(w) != 4:
                    break
                o, a = bytes.fromhex(w[2]), bytes.fromhex(w[3])
                res.append((int(w[0]), int(w[1]), [o[k * 64:k * 64 + 64] for k in range(3)], [a[k * 64:k * 64 + 64] for k in range(3)]))
            i = len(res)
            if i < len(inputs):
                res.append(("abort", None, None, None))
                i += 1
        return res


KINDS = {1: api.EXCN["empty"], 2: api.EXCN["nan"], 3: api.EXCN["cmp"], 4: "?"}


def result(inst, fn, outs, ins):
    fmt = inst.out_fmt(fn)
    sz = jobs.SZ[fmt.name]

    def iv(b):
        return spec.IV(dec(b, fmt), dec(b[sz:], fmt))
    if fn.out == "I":
        return iv(outs[0])
    if fn.out == "S":
        return iv(ins[0])
    if fn.out == "P":
        return iv(outs[0]), iv(outs[1])
    if fn.out == "N":
        return dec(outs[0], fmt)
    if fn.out == "D":
        return iv(outs[0]), iv(outs[1]), int.from_bytes(outs[2][:4], "little") != 0
    if fn.out in ("b", "t", "w"):
        v = int.from_bytes(outs[0][:4], "little")
        return v if fn.out == "t" else v != 0
    return ()


def unprot_rm(inst, rng):
    if inst.rounding == "opp" and not inst.protected:
        return UP
    return rng.choice(RMS)


def evaluate(inst, fn, case, ops, rm0, res, tags, seed=0):
    """list of violated claims (name) for one native run"""
    kind, rm, outs, ins = res
    bad = []
    s = spec.ConcSpec(inst, seed)
    if kind == "abort":
        return [("abort", "abnormal termination")]
    val = None
    if kind == 0:
        r = result(inst, fn, outs, ins)
    else:
        r = None
        val = KINDS[kind]
    claims = jobs.judge(s, inst, fn, case, ops, "ret" if kind == 0 else "throw", val, r, jobs.dummy_result(inst, fn),
                        after=spec.IV(dec(ins[0], inst.fmt), dec(ins[0][jobs.SZ[inst.fmt.name]:], inst.fmt)) if fn.inplace else None)
    for t, n, c in claims:
        if t in tags and not bool(c):
            bad.append((t, n))
    if "rm" in tags:
        want = rm0 if inst.protected else (UP if inst.rounding == "opp" else rm)
        if rm != want:
            bad.append(("rm", "rounding direction on exit is %s instead of %s" % (MODES.get(rm, rm), MODES[want])))
    return bad


def search(nat, idx, inst, fn, cases, tags, seed, n, models=(), skip=None):
    """look for an operand tuple violating one of the claims; returns a report dict or None"""
    rng = random.Random(seed)
    batch, meta = [], []
    for j in range(n):
        case = rng.choice(cases)
        model = rng.choice(models) if models and rng.random() < 0.5 else None
        ops = gen_ops(inst, fn, case, rng, model)
        if ops is None:
            continue
        if callable(fn.pre) and fn.pre(*ops) is not True:
            continue
        if fn.intpre is not None and jobs.int_exact(inst, fn, ops) is not True:
            continue
        rm = unprot_rm(inst, rng)
        batch.append((idx, rm, slot_bytes(inst, fn, ops, rng)))
        meta.append((case, ops, rm))
    if not batch:
        return None, 0
    out = nat.run(batch)
    for (case, ops, rm), b, r in zip(meta, batch, out):
        try:
            bad = evaluate(inst, fn, case, ops, rm, r, tags, seed)
        except ZeroDivisionError:
            continue
        if bad:
            rep = {"function": fn.id, "expression": fn.body, "instance": inst.name, "type": inst.ctype, "case": list(map(str, case)),
                   "entry_rounding": MODES[rm],
                   "operands": [["[%s, %s]" % (fstr(o.lo), fstr(o.hi)) if isinstance(o, spec.IV) else fstr(o)][0] for o in ops],
                   "operand_bytes": [x.hex() for x in b[2][:len(fn.params)]],
                   "observed": ("abnormal termination" if r[0] == "abort" else
                                ("exception " + KINDS[r[0]] if r[0] else str(show(result(inst, fn, r[2], r[3]))))),
                   "violated": [list(x) for x in bad]}
            if skip and skip(rep):
                continue
            return rep, len(batch)
    return None, len(batch)


def show(r):
    if isinstance(r, spec.IV):
        return "[%s, %s]" % (fstr(r.lo), fstr(r.hi))
    if isinstance(r, tuple):
        return "(" + ", ".join(show(x) for x in r) + ")"
    return fstr(r)


# ---------------------------------------------------------------- replay of failed obligations
def as_operands(m):
    """a counterexample to a contract as operands of the functions that use it"""
    return [{k2: v for k, v in m.items() for k2 in ("l0", "u0", "l1", "u1", "n0", "n1")}]


def evidence(u, rs, contract):
    """(operand classes, models) to start a native search from"""
    if contract:
        return [], [x for r in rs if r["model"] for x in as_operands(r["model"])]
    return list({tuple(r["case"]) for r in rs if r.get("case")}), [r["model"] for r in rs if r["model"]]


def worker(a):
    (i, f), cases, models, tags, seed, n, wd, k, libm, deadline = a
    import jobs, api
    inst, fn = api.INSTS[i], api.BYID[f]
    if time.time() > deadline + 60:
        return (i, f), None, 0, "skipped (time)"
    nat = Native([(inst, fn)], wd, "n%s" % k, libm=libm or fn.transc)
    if nat.err:
        return (i, f), None, 0, "does not compile"
    allc = jobs.all_cases(inst, fn)
    runs = 0
    for cs, num in ((cases, n), (allc, n)):
        if not cs:
            continue
        try:
            rep, m = search(nat, 0, inst, fn, [tuple(c) for c in cs], set(tags), seed, num, models)
        except Exception as e:
            return (i, f), None, runs, "replay failed: %r" % e
        runs += m
        if rep:
            return (i, f), rep, runs, None
    return (i, f), None, runs, None
