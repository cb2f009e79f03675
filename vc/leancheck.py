"""Lean proofs of the facts in lemmas.py: assembles the statements generated from lemmas.py with the proofs of lean/Proofs.lean
and has Lean check every one; reports the lemmas proved and the axioms they rest on."""
import os, re, subprocess, sys, tempfile, time, json
import lemmas

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALLOWED = {"propext", "Classical.choice", "Quot.sound"}


def blocks():
    out, cur = {}, None
    for l in open(os.path.join(HERE, "lean", "Proofs.lean")):
        m = re.match(r"-- @(\w+)\s*$", l)
        if m:
            cur = m.group(1)
            out[cur] = ""
        elif cur:
            out[cur] += l
    return out


def source():
    pr = blocks()
    st = lemmas.statements()
    s = open(os.path.join(HERE, "lean", "Prelude.lean")).read()
    s += "\nset_option linter.all false\nnamespace L\n"
    names, missing = [], []
    for n, b, t in st:
        if n not in pr:
            missing.append(n)
            continue
        body = pr[n].rstrip()
        s += "theorem %s %s :\n    %s :=\n  %s\n\n" % (n, b, t, body.replace("\n", "\n  "))
        names.append(n)
    s += "end L\n" + "".join("#print axioms L.%s\n" % n for n in names)
    return s, names, missing


def run(timeout=600):
    s, names, missing = source()
    t0 = time.time()
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "Facts.lean")
        open(f, "w").write(s)
        try:
            r = subprocess.run(["lean", f], capture_output=True, text=True, timeout=timeout)
            txt = r.stdout + r.stderr
        except (OSError, subprocess.TimeoutExpired) as e:
            return dict(proved=[], unproved=[n for n, _, _ in lemmas.statements()], error=str(e), seconds=time.time() - t0, axioms=[])
    ax, bad = set(), set(missing)
    seen = {}
    for m in re.finditer(r"'L\.(\w+)' (depends on axioms: \[([^\]]*)\]|does not depend on any axioms)", txt):
        seen[m.group(1)] = {a.strip() for a in (m.group(3) or "").split(",") if a.strip()}
    for n in names:
        if n not in seen or not seen[n] <= ALLOWED:
            bad.add(n)
        else:
            ax |= seen[n]
    return dict(proved=[n for n in names if n not in bad], unproved=sorted(bad), error=txt if re.search(r"error", txt) else "",
                seconds=time.time() - t0, axioms=sorted(ax))


def start():
    """run in the background; collect() gives the result"""
    return subprocess.Popen([sys.executable, os.path.abspath(__file__), "--json"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                            start_new_session=True)


def collect(p, timeout):
    try:
        out, _ = p.communicate(timeout=max(timeout, 1))
        return json.loads(out)
    except (ValueError, subprocess.TimeoutExpired):
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
        return dict(proved=[], unproved=[n for n, _, _ in lemmas.statements()], error="no answer from Lean", seconds=0, axioms=[])


if __name__ == "__main__":
    if "--json" in sys.argv:
        print(json.dumps(run()))
        sys.exit(0)
    if "-s" in sys.argv:
        print(source()[0])
    else:
        r = run()
        print(len(r["proved"]), "proved; not proved:", r["unproved"], "axioms", r["axioms"], "%.0fs" % r["seconds"])
        print(r["error"][:6000])
