"""Which units and which claim tags decide which property."""
import api


class P:
    def __init__(s, pid, tags, units, exact=False, libm=False, extra=None):
        s.id, s.tags, s.units, s.exact, s.libm, s.extra = pid, set(tags), units, exact, libm, extra


BASE_TAGS = ["abort", "side", "pre", "ub", "loop", "unsupported", "compile"]
QUICK_INSTS = ["d", "db", "ds", "du", "dv", "dc", "de", "dn", "f", "fs", "l", "ls"]
HEAVY_INSTS = ["d", "db", "ds", "du", "de", "f", "l"]
ALL_INSTS = list(api.INSTS)


def sel(groups, insts=None, fns=None, pred=None):
    def units(tier):
        il = insts(tier) if callable(insts) else (insts or (QUICK_INSTS if tier == "quick" else ALL_INSTS))
        out = []
        for i in il:
            I = api.INSTS[i]
            for f in api.FNS:
                if tier == "quick" and f.cost >= 10 and insts is None and i not in HEAVY_INSTS:
                    continue
                if f.group in groups and (fns is None or f.id in fns) and f.applies(I) and (pred is None or pred(I, f)):
                    out.append((i, f.id))
        return out
    return units


PROPS = {}


def prop(*a, **k):
    p = P(*a, **k)
    PROPS[p.id] = p


QI = QUICK_INSTS
ALLG = {"arith", "cons", "set", "query", "alg", "div2", "pow", "root", "transc", "periodic", "const"}
prop("C01", BASE_TAGS + ["incl", "policy"], sel({"arith"}))
prop("C02", BASE_TAGS + ["tight", "policy", "policy-exact"], sel({"arith"}), exact=True)
prop("C03", BASE_TAGS + ["valid", "policy", "callee", "callee-incl"], sel(ALLG))
prop("C04", BASE_TAGS + ["empty", "nonempty", "policy", "callee", "callee-incl"], sel(ALLG | {"cert", "defcmp"}))
prop("C05", BASE_TAGS + ["exc", "policy", "callee", "callee-incl"], sel(ALLG | {"cert", "defcmp", "order"}))
prop("C06", BASE_TAGS + ["rm", "policy-rm", "callee-rm"], sel(ALLG | {"policy"}))
prop("C07", BASE_TAGS + ["val", "rm", "policy", "policy-exact", "policy-rm"], sel({"policy"}, insts=ALL_INSTS), exact=True)
prop("C08", BASE_TAGS + ["iso", "policy", "policy-exact"], sel({"iso"}), exact=True)
prop("C09", BASE_TAGS + ["incl", "tight", "valid", "empty", "policy", "policy-exact"], sel({"cons"}))
prop("C10", BASE_TAGS + ["val", "incl", "tight", "empty", "policy"], sel({"set"}))
prop("C11", BASE_TAGS + ["val", "exc"], sel({"cert"}))
prop("C12", BASE_TAGS + ["val", "exc"], sel({"defcmp"}))
prop("C13", BASE_TAGS + ["val", "exc"], sel({"order"}))
prop("C14", BASE_TAGS + ["incl", "tight", "term", "policy", "policy-exact", "callee", "callee-incl", "callee-rm"], sel({"alg", "pow"}))
prop("C15", BASE_TAGS + ["incl", "term", "policy", "callee", "callee-incl", "callee-rm"], sel({"root"}))
prop("C16", BASE_TAGS + ["incl", "valid", "empty", "policy", "callee", "callee-incl"], sel({"transc"}), libm=True)
prop("C17", BASE_TAGS + ["incl", "valid", "empty", "term", "policy", "policy-exact", "callee", "callee-incl"], sel({"periodic"}), libm=True)
prop("C18", BASE_TAGS + ["incl", "valid", "tight"], sel({"const"}))
prop("C19", BASE_TAGS + ["incl", "tight", "val", "empty", "policy", "policy-exact"], sel({"div2"}))
prop("C20", BASE_TAGS + ["val", "incl", "tight", "empty", "policy", "policy-exact"], sel({"query"}))
prop("C21", BASE_TAGS + ["same", "val", "policy"], sel({"mixed"}))
prop("C22", BASE_TAGS + ["val", "rm", "exc"], sel({"text"}))
prop("C23", BASE_TAGS + ["val", "valid", "empty"], sel({"limits"}, insts=ALL_INSTS))
