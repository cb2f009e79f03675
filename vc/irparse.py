"""Parser for the textual LLVM IR that clang -O0 produces (the subset met in
this code base).  Nothing is dropped: an instruction the parser or the executor
does not know raises Unsupported, which fails the obligation it belongs to."""
import re, struct
from fractions import Fraction


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "w", "el", "n")

    def __init__(s, k, w=0, el=None, n=0):
        s.k, s.w, s.el, s.n = k, w, el, n

    def __repr__(s):
        return {"int": "i%d" % s.w}.get(s.k, s.k)


FP_KINDS = {"float": "F32", "double": "F64", "x86_fp80": "F80"}
PTR = Ty("ptr")
VOID = Ty("void")


class TypeParser:
    def __init__(self, named):
        self.named = named

    def parse(self, s, i=0):
        """returns (Ty, next index)"""
        n = len(s)
        while i < n and s[i] == " ":
            i += 1
        if s.startswith("void", i):
            return VOID, i + 4
        if s.startswith("ptr", i):
            return PTR, i + 3
        for k in ("float", "double", "x86_fp80", "metadata", "label"):
            if s.startswith(k, i):
                return Ty(k), i + len(k)
        m = re.compile(r"i(\d+)").match(s, i)
        if m:
            return Ty("int", int(m.group(1))), m.end()
        if s[i] == "%":
            m = re.compile(r'%(?:"([^"]*)"|([-\w.$]+))').match(s, i)
            nm = m.group(1) or m.group(2)
            return Ty("named", el=nm), m.end()
        if s[i] == "{" or s.startswith("<{", i):
            packed = s[i] == "<"
            i += 2 if packed else 1
            els = []
            while True:
                while s[i] == " ":
                    i += 1
                if s[i] == "}":
                    i += 1
                    break
                t, i = self.parse(s, i)
                els.append(t)
                while s[i] == " ":
                    i += 1
                if s[i] == ",":
                    i += 1
            if packed:
                i += 1
            return Ty("struct", el=els, w=1 if packed else 0), i
        if s[i] == "[":
            m = re.compile(r"\[(\d+) x ").match(s, i)
            t, i = self.parse(s, m.end())
            assert s[i] == "]", s[i:]
            return Ty("array", el=t, n=int(m.group(1))), i + 1
        if s[i] == "<":
            m = re.compile(r"<(\d+) x ").match(s, i)
            t, i = self.parse(s, m.end())
            return Ty("vector", el=t, n=int(m.group(1))), i + 1
        raise Unsupported("type " + s[i:i + 40])

    def size_align(self, t):
        k = t.k
        if k == "int":
            b = max(1, (t.w + 7) // 8)
            p = 1
            while p < b:
                p *= 2
            return p, min(p, 16)
        if k == "float":
            return 4, 4
        if k == "double":
            return 8, 8
        if k == "x86_fp80":
            return 16, 16
        if k == "ptr":
            return 8, 8
        if k == "named":
            return self.size_align(self.resolve(t))
        if k == "struct":
            off, al = 0, 1
            for e in t.el:
                s, a = self.size_align(e)
                if t.w:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        if k in ("array", "vector"):
            s, a = self.size_align(t.el)
            return s * t.n, a
        raise Unsupported("sizeof " + k)

    def resolve(self, t):
        while t.k == "named":
            if t.el not in self.named:
                raise Unsupported("opaque type " + t.el)
            t = self.named[t.el]
        return t

    def field_offset(self, t, idx):
        t = self.resolve(t)
        if t.k == "struct":
            off = 0
            for j, e in enumerate(t.el):
                s, a = self.size_align(e)
                if t.w:
                    a = 1
                off = (off + a - 1) // a * a
                if j == idx:
                    return off, e
                off += s
            raise Unsupported("field index")
        if t.k in ("array", "vector"):
            s, _ = self.size_align(t.el)
            return s * idx, t.el
        raise Unsupported("gep into " + t.k)


# ---------------------------------------------------------------- constants
def dec_double(bits):
    s = bits >> 63
    e = (bits >> 52) & 0x7FF
    m = bits & ((1 << 52) - 1)
    if e == 0x7FF:
        return "nan" if m else ("-inf" if s else "inf")
    v = Fraction(m, 1 << 52) * Fraction(2) ** -1022 if e == 0 else \
        (1 + Fraction(m, 1 << 52)) * Fraction(2) ** (e - 1023)
    return -v if s else v


def dec_fp80(bits):
    s = (bits >> 79) & 1
    e = (bits >> 64) & 0x7FFF
    m = bits & ((1 << 64) - 1)
    if e == 0x7FFF:
        return "nan" if (m << 1) & ((1 << 64) - 1) else ("-inf" if s else "inf")
    v = Fraction(m) * Fraction(2) ** (max(e, 1) - 16383 - 63)
    return -v if s else v


class Instr:
    __slots__ = ("res", "op", "a", "text")

    def __init__(s, res, op, a, text):
        s.res, s.op, s.a, s.text = res, op, a, text


class Func:
    def __init__(s, name):
        s.name = name
        s.params = []      # (Ty, name)
        s.blocks = {}      # label -> [Instr]
        s.order = []
        s.entry = None
        s.ret = None
        s.src = []

    def succs(s, b):
        i = s.blocks[b][-1]
        if i.op == "br":
            return i.a[1:] if i.a[0] is not None else [i.a[1]]
        if i.op == "invoke":
            return [i.a["normal"], i.a["unwind"]]
        if i.op == "switch":
            return [i.a[1]] + [l for _, l in i.a[2]]
        return []


GLOBAL_RE = re.compile(r'^@("[^"]*"|[-\w.$]+)\s*=\s*(.*)$')
ATTRS = {"noundef", "nonnull", "dead_on_unwind", "writable", "zeroext", "signext",
         "readonly", "writeonly", "nocapture", "returned", "noalias", "immarg",
         "inreg", "nest", "dead_on_return", "captures(none)", "nofree", "swiftself"}


def split_top(s):
    out, d, cur, q = [], 0, [], False
    for c in s:
        if c == '"':
            q = not q
        if not q:
            if c in "([{<":
                d += 1
            elif c in ")]}>":
                d -= 1
            elif c == "," and d == 0:
                out.append("".join(cur).strip())
                cur = []
                continue
        cur.append(c)
    if "".join(cur).strip():
        out.append("".join(cur).strip())
    return out


def match_paren(s, i):
    d, q = 0, False
    for j in range(i, len(s)):
        c = s[j]
        if c == '"':
            q = not q
        if q:
            continue
        if c == "(":
            d += 1
        elif c == ")":
            d -= 1
            if d == 0:
                return j
    raise Unsupported("paren")


class Module:
    def __init__(self, text):
        self.named = {}
        self.tp = TypeParser(self.named)
        self.funcs = {}
        self.globals = {}
        self.decls = set()
        self.aliases = {}
        self.parse(text)

    def ty(self, s):
        t, i = self.tp.parse(s)
        return t

    def parse(self, text):
        lines = text.split("\n")
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("%") and " = type " in l:
                m = re.match(r'%(?:"([^"]*)"|([-\w.$]+)) = type (.*)$', l)
                nm = m.group(1) or m.group(2)
                if m.group(3).strip() != "opaque":
                    self.named[nm] = self.ty(m.group(3))
            elif l.startswith("@"):
                m = GLOBAL_RE.match(l)
                nm = m.group(1).strip('"')
                rest = m.group(2)
                if re.search(r"\balias\b", rest):
                    self.aliases[nm] = re.findall(r"@([-\w.$]+)", rest)[-1]
                else:
                    self.globals[nm] = rest
            elif l.startswith("declare"):
                m = re.search(r"@([-\w.$]+)\(", l)
                self.decls.add(m.group(1))
            elif l.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self.parse_func(l, lines[i + 1:j])
                i = j
            i += 1

    def parse_func(self, head, body):
        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', head)
        f = Func(m.group(1).strip('"'))
        p0 = m.end() - 1
        p1 = match_paren(head, p0)
        for a in split_top(head[p0 + 1:p1]):
            if a == "...":
                continue
            t, i = self.tp.parse(a)
            nm = re.findall(r'%("[^"]*"|[-\w.$]+)\s*$', a)
            f.params.append((t, nm[0].strip('"') if nm else None))
        hb = head[:m.start()]
        # return type: last type token before @name
        hb2 = re.sub(r"^define\s+", "", hb)
        for w in ("linkonce_odr", "dso_local", "internal", "weak_odr", "hidden", "available_externally",
                  "noundef", "nonnull", "zeroext", "signext", "noalias"):
            hb2 = re.sub(r"\b%s\b" % w, " ", hb2)
        hb2 = re.sub(r"(align|dereferenceable(_or_null)?)\s*\(?\d+\)?", " ", hb2).strip()
        f.ret = self.ty(hb2) if hb2 else VOID
        cur = "entry"
        buf = []
        # join continuation lines (invoke, landingpad, switch)
        k = 0
        n = len(body)
        while k < n:
            l = body[k]
            if not l.strip() or l.lstrip().startswith(";"):
                k += 1
                continue
            m = re.match(r'^("[^"]*"|[-\w.$]+):', l)
            if m:
                cur = m.group(1).strip('"')
                f.blocks[cur] = []
                f.order.append(cur)
                k += 1
                continue
            if not f.order:
                f.blocks[cur] = []
                f.order.append(cur)
            s = l.strip()
            if re.match(r"(%\S+ = )?invoke ", s):
                while " unwind label " not in s:
                    k += 1
                    s += " " + body[k].strip()
            elif re.match(r"%\S+ = landingpad ", s):
                while k + 1 < n and re.match(r"^\s+(cleanup|catch|filter)\b", body[k + 1]):
                    k += 1
                    s += " " + body[k].strip()
            elif s.startswith("switch "):
                while "]" not in s:
                    k += 1
                    s += " " + body[k].strip()
            f.blocks[cur].append(self.parse_instr(s))
            k += 1
        f.entry = f.order[0]
        f.src = body
        self.funcs[f.name] = f

    # operands -----------------------------------------------------------
    def operand(self, t, s):
        """('reg',name) | ('c',python value) | ('g',name) | ('undef',)"""
        s = s.strip()
        if s.startswith("%"):
            return ("reg", s[1:].strip('"'), t)
        if s.startswith("@"):
            return ("g", s[1:].strip('"'), t)
        if s in ("null",):
            return ("null", None, t)
        if s in ("undef", "poison"):
            return ("undef", None, t)
        if s == "true":
            return ("c", True, t)
        if s == "false":
            return ("c", False, t)
        if s == "zeroinitializer":
            return ("zero", None, t)
        if t.k == "int":
            return ("c", int(s), t)
        if t.k in ("double", "float"):
            if s.startswith("0x"):
                return ("c", dec_double(int(s[2:], 16)), t)
            return ("c", Fraction(float(s)), t)     # LLVM writes decimals only where they read back as the same double
        if t.k == "x86_fp80":
            assert s.startswith("0xK"), s
            return ("c", dec_fp80(int(s[3:], 16)), t)
        if s.startswith("getelementptr"):
            m = re.match(r"getelementptr (?:inbounds )?(?:nuw )?\((.*)\)$", s)
            parts = split_top(m.group(1))
            bt = self.ty(parts[0])
            base = self.typed(parts[1])
            idx = [self.typed(p.replace("inrange ", "")) for p in parts[2:]]
            return ("cgep", (bt, base, idx), t)
        raise Unsupported("operand %s of %s" % (s[:60], t))

    def typed(self, s):
        """'double noundef %x' -> operand"""
        t, i = self.tp.parse(s)
        rest = s[i:].strip()
        while True:
            m = re.match(r"(sret|byval|byref|elementtype|inalloca|preallocated)\(", rest)
            if m:
                j = match_paren(rest, m.end() - 1)
                rest = rest[j + 1:].strip()
                continue
            m = re.match(r"(align)\s+\d+|(dereferenceable(_or_null)?|range|align|captures)\([^)]*\)", rest)
            if m:
                rest = rest[m.end():].strip()
                continue
            m = re.match(r"(\w+)(\s|$)", rest)
            if m and m.group(1) in ATTRS:
                rest = rest[m.end():].strip()
                continue
            break
        if t.k == "metadata":
            return ("meta", rest.strip('!"'), t)
        return self.operand(t, rest)

    def label(self, s):
        m = re.search(r'label %("[^"]*"|[-\w.$]+)', s)
        return m.group(1).strip('"')

    def parse_instr(self, s):
        text = s
        s = re.sub(r", !\w+ !\d+", "", s)
        s = re.sub(r"\s+;.*$", "", s) if '"' not in s else s
        res = None
        m = re.match(r'^%("[^"]*"|[-\w.$]+) = ', s)
        if m:
            res = m.group(1).strip('"')
            s = s[m.end():]
        s = re.sub(r"^(tail|musttail|notail) call", "call", s)
        op = s.split(None, 1)[0]
        r = s[len(op):].strip()
        I = lambda o, a: Instr(res, o, a, text)
        if op == "alloca":
            return I("alloca", self.ty(split_top(r)[0]))
        if op == "load":
            r = re.sub(r"^(volatile |atomic )+", "", r)
            p = split_top(r)
            return I("load", (self.ty(p[0]), self.typed(p[1])))
        if op == "store":
            r = re.sub(r"^(volatile |atomic )+", "", r)
            p = split_top(r)
            return I("store", (self.typed(p[0]), self.typed(p[1])))
        if op == "getelementptr":
            r = re.sub(r"^(inbounds |nuw |nusw )+", "", r)
            p = split_top(r)
            return I("gep", (self.ty(p[0]), self.typed(p[1]), [self.typed(x) for x in p[2:]]))
        if op == "br":
            if r.startswith("label"):
                return I("br", [None, self.label(r)])
            p = split_top(r)
            return I("br", [self.typed(p[0]), self.label(p[1]), self.label(p[2])])
        if op == "switch":
            m = re.match(r"(.*?), label %(\S+) \[(.*)\]", r)
            cases = [(int(a), b.strip('"')) for a, b in re.findall(r"i\d+ (-?\d+), label %(\S+)", m.group(3))]
            return I("switch", [self.typed(m.group(1)), m.group(2).strip('"'), cases])
        if op == "ret":
            return I("ret", None if r == "void" else self.typed(r))
        if op in ("call", "invoke"):
            return self.parse_call(I, op, r, s)
        if op == "unreachable":
            return I("unreachable", None)
        if op in ("fneg", "freeze"):
            r = re.sub(r"^((fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )+", "", r)
            return I(op, self.typed(r))
        if op in ("add", "sub", "mul", "and", "or", "xor", "ashr", "lshr", "shl", "sdiv", "udiv", "srem", "urem"):
            fl = set()
            while True:
                m = re.match(r"(nsw|nuw|exact|disjoint) ", r)
                if not m:
                    break
                fl.add(m.group(1))
                r = r[m.end():]
            p = split_top(r)
            a = self.typed(p[0])
            return I("ibin", (op, fl, a, self.operand(a[2], p[1])))
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            raise Unsupported("non-constrained floating-point operation: " + text)
        if op == "icmp":
            pr, r = r.split(None, 1)
            p = split_top(r)
            a = self.typed(p[0])
            return I("icmp", (pr, a, self.operand(a[2], p[1])))
        if op == "fcmp":
            raise Unsupported("non-constrained fcmp: " + text)
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "fpext", "fptrunc", "sitofp", "uitofp"):
            if op == "zext":
                r = re.sub(r"^nneg ", "", r)
            m = re.match(r"(.*) to (.*)$", r)
            return I(op, (self.typed(m.group(1)), self.ty(m.group(2))))
        if op == "select":
            p = split_top(r)
            return I("select", [self.typed(x) for x in p])
        if op == "phi":
            t, i = self.tp.parse(r)
            rx = r"\[ ([^,\]]+), %(\"[^\"]*\"|[-\w.$]+) \]"
            inc = re.findall(rx, r[i:])
            if re.sub(rx, "", r[i:]).strip(" ,"):
                raise Unsupported("phi: " + text)
            return I("phi", (t, [(self.operand(t, a), b.strip('"')) for a, b in inc]))
        if op == "extractvalue":
            p = split_top(r)
            return I("extractvalue", (self.typed(p[0]), [int(x) for x in p[1:]]))
        if op == "insertvalue":
            p = split_top(r)
            return I("insertvalue", (self.typed(p[0]), self.typed(p[1]), [int(x) for x in p[2:]]))
        if op == "landingpad":
            cl = re.findall(r"catch ptr (\S+)", r)
            return I("landingpad", {"cleanup": "cleanup" in r, "catch": [c.lstrip("@").strip('"') for c in cl]})
        if op == "resume":
            return I("resume", self.typed(r))
        raise Unsupported("instruction: " + text)

    def parse_call(self, I, op, r, full):
        unwind = normal = None
        if op == "invoke":
            m = re.search(r" to label %(\S+) unwind label %(\S+)$", r)
            normal, unwind = m.group(1).strip('"'), m.group(2).strip('"')
            r = r[:m.start()]
        r = re.sub(r"^((fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )+", "", r)
        # strip return attributes
        while True:
            m = re.match(r"(noundef|nonnull|zeroext|signext|noalias)\s+|(align)\s+\d+\s+|(dereferenceable(_or_null)?|range)\([^)]*\)\s+", r)
            if not m:
                break
            r = r[m.end():]
        if re.search(r"\basm\b", r):
            raise Unsupported("inline assembly: " + full[:120])
        t, i = self.tp.parse(r)
        rest = r[i:].strip()
        if rest.startswith("("):      # vararg function type
            j = match_paren(rest, 0)
            rest = rest[j + 1:].strip()
        m = re.match(r'(@("[^"]*"|[-\w.$]+)|%("[^"]*"|[-\w.$]+))\(', rest)
        if not m:
            raise Unsupported("call: " + full[:160])
        callee = m.group(1)
        j = match_paren(rest, m.end() - 1)
        args = [self.typed(a) for a in split_top(rest[m.end():j])]
        return I(op, {"callee": callee[1:].strip('"') if callee[0] == "@" else None,
                      "indirect": None if callee[0] == "@" else callee[1:],
                      "args": args, "ret": t, "normal": normal, "unwind": unwind})
