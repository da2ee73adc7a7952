"""Decide one property on the current source tree of /repo.

usage: python3 -m sa.check PROPERTY [--root DIR]

exit 0: held (undecided obligations are listed in the evidence file)
exit 1: VIOLATION line(s); the details are in the replay file
exit 2: the analysis itself could not be carried out (vanished anchor, ...)
"""
import gc
import json
import os
import sys
import threading
import time
import traceback

sys.setrecursionlimit(1000000)
gc.set_threshold(1000000, 20, 100)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, eng):
        from .evalr import SELF
        self.eng = eng
        self.SELF = SELF
        self._o = {}

    def options(self, fid):
        """Constructor option names of the class a function belongs to."""
        r = self._o.get(fid)
        if r is None:
            r = frozenset()
            mod, q = fid.split(":")
            if "." in q:
                c = self.eng.R.cls(mod + ":" + q.split(".")[0])
                if c is not None:
                    i = self.eng.R.method(c, "__init__")
                    names = set(i.params()) if i else set()
                    for s in self.eng.R.subclasses(c):
                        j = self.eng.R.method(s, "__init__")
                        if j:
                            names |= set(j.params())
                    r = frozenset(names)
            self._o[fid] = r
        return r


def decide(pid, root=None):
    from .engine import Engine
    from . import obligations as ob
    from . import rules
    t0 = time.time()
    eng = Engine(root)
    ctx = Ctx(eng)
    res = eng.check_all()
    nres, extra = eng.resolution()
    per = {}
    for fid, (facets, vs) in res.items():
        per[fid] = (list(facets), list(vs))
    for fid, facet, v in extra:
        per.setdefault(fid, ([], []))[1].append((facet, v))
    if pid == "C22":
        for fid in list(per):
            n, vs = eng.quiet(fid)
            per[fid][0].extend(["quiet"] * n)
            per[fid][1].extend(("quiet", v) for v in vs)
    nobl = 0
    funcs = set()
    samples = []
    viol, und, gone = [], [], []
    for fid, (facets, vs) in sorted(per.items()):
        memo = {}
        for f in facets:
            if f not in memo:
                memo[f] = ob.match(pid, fid, f)
            if memo[f]:
                nobl += 1
                funcs.add(fid)
                if len(samples) < 400:
                    samples.append("%s %s" % (fid, f))
        for facet, v in vs:
            v.fid = fid
            if v.status == "gone":
                if ob.match(pid, fid, "sig") or ob.match(pid, fid, "ret"):
                    gone.append((fid, facet, v))
                continue
            flts = memo.get(facet)
            if flts is None:
                flts = ob.match(pid, fid, facet)
            if not flts:
                continue
            if any(fl is None or fl(v, ctx) for fl in flts):
                (viol if v.status == "violation" else und).append(
                    (fid, facet, v))
    rr = rules.run(pid, eng, ctx)
    return dict(engine=eng, obligations=nobl, functions=sorted(funcs),
                samples=samples, violations=viol, undecided=und, gone=gone,
                rules=rr, wall=time.time() - t0,
                parsed=[m.rel for m in eng.P.modules.values()])


def where(eng, fid, v):
    f = eng.P.func(fid) or eng.R.func(fid)
    if f is None:
        return fid
    return "%s:%s (%s)" % (f.module.rel, v.line or f.node.lineno, f.qual)


def evidence(pid, out, tier, seed, level, viols, known):
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    rr = out["rules"]
    nob = out["obligations"] + sum(r.checked for r in rr)
    und = [{"where": where(out["engine"], f, v), "facet": k,
            "what": v.what, "detail": v.detail[:300]}
           for f, k, v in out["undecided"]]
    n_bad = len(out["violations"]) + sum(len(r.found) for r in rr)
    step = max(1, len(out["samples"]) // 25)
    doc = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "explanation":
                "Static analysis of the current source of /repo (nothing is "
                "executed). obligations = value-flow obligations (one per "
                "function and observable in the scope of the property, whose "
                "normal form must equal the one in the reference dataflow "
                "model) plus instances of the property's structural rules; "
                "discharged = obligations whose normal forms are equal / "
                "rule instances that hold. Undecided obligations are "
                "rewritings the normal form does not reach; they are not "
                "counted as discharged and not reported as violations.",
            "obligations": nob,
            "discharged": nob - n_bad - len(und),
            "undecided": und,
            "functions_analysed": len(out["functions"]),
            "modules_parsed": len(out["parsed"]),
            "samples": out["samples"][::step][:25],
            "rules": [{"rule": r.id, "text": r.text,
                       "instances_checked": r.checked,
                       "violations": len(r.found),
                       "examples": r.examples[:6]} for r in rr],
            "renames_mapped": [list(map(str, x)) for x in
                               out["engine"].al.renames],
        },
        "assumptions": [
            "functions of numpy, pandas, scikit-learn, scipy and OR-Tools "
            "are uninterpreted: equal arguments give equal results",
            "the reference model (spec/reference, reviewed source with the "
            "repaired defects) expresses the intended dataflow",
            "integer and float arithmetic is treated as exact and "
            "commutative/associative",
        ],
        "wall_s": round(out["wall"], 2),
        "violations": len(viols),
    }
    if known:
        doc["coverage"]["known_findings"] = known
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1)


def main(argv):
    pid = argv[0]
    root = None
    if "--root" in argv:
        root = argv[argv.index("--root") + 1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from . import known as kf
    out = decide(pid, root)
    eng = out["engine"]
    lines = []
    knownl = []
    for fid, facet, v in out["violations"]:
        lines.append("value-flow: %s [%s] %s\n    %s" % (
            where(eng, fid, v), facet, v.what, v.detail))
    for r in out["rules"]:
        for f in r.found:
            k = kf.match(pid, r.id, f.key)
            if k:
                knownl.append("%s" % k)
                continue
            lines.append("rule %s: %s: %s" % (r.id, f.where, f.text))
        r.found = [f for f in r.found if not kf.match(pid, r.id, f.key)]
    for k in knownl:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if "--no-evidence" not in argv:
        evidence(pid, out, tier, seed, "other", lines, knownl)
    rdir = os.path.join(HERE, "evidence")
    rep = os.path.join(rdir, pid + ".violations.txt")
    if os.path.exists(rep) and "--no-evidence" not in argv:
        os.remove(rep)
    print("property %s: %d value-flow obligations in %d functions, %d rule "
          "instances, %d undecided, %.1f s" % (
              pid, out["obligations"], len(out["functions"]),
              sum(r.checked for r in out["rules"]), len(out["undecided"]),
              out["wall"]))
    for fid, facet, v in out["undecided"][:20]:
        print("UNDECIDED %s [%s] %s: %s" % (where(eng, fid, v), facet,
                                            v.what[:120], v.detail[:200]))
    for r in out["rules"]:
        if r.error:
            print("UNDECIDED rule %s: %s" % (r.id, r.error))
    if lines:
        if "--no-evidence" not in argv:
            with open(rep, "w") as f:
                f.write("\n".join(lines) + "\n")
        for l in lines[:12]:
            print("  " + l[:600])
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    if out["gone"]:
        for fid, facet, v in out["gone"]:
            print("ANCHOR LOST: %s %s" % (v.what, v.detail))
        return 2
    low = [r for r in out["rules"] if r.checked == 0 < r.floor]
    if low or (out["obligations"] == 0 and not out["rules"]):
        for r in low:
            print("ANCHOR LOST: rule %s matched %d instances, expected at "
                  "least %d" % (r.id, r.checked, r.floor))
        return 2
    return 0


def entry():
    rc = [2]

    def go():
        try:
            rc[0] = main(sys.argv[1:])
        except SystemExit as e:
            rc[0] = e.code or 0
        except BaseException:
            traceback.print_exc()
            rc[0] = 2
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc[0])


if __name__ == "__main__":
    entry()
