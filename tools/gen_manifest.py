"""Write MANIFEST.json from properties.jsonl and the tables below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "N01": "Global optimality depends on the search of an external solver over "
        "run-time data; no static argument over this source bounds it. The "
        "static part (objective and constraints of the model) is C06/C07.",
 "N02": "The rank-error bound is an inductive numeric invariant over the "
        "contents of run-time lists; outside dataflow analysis. The static "
        "part (what is added, merged, compressed) is C16.",
 "N03": "Magnitude of floating-point error depends on run-time values; the "
        "analysis treats arithmetic as exact.",
 "N04": "Wall-clock time of an external solver is a run-time quantity. The "
        "static part (limit passed in the right unit) is C08.",
}
EXTRA = {
 "C04": "weight-sum type lint",
 "C06": "back-end option and discarded-value lints",
 "C11": "completion-flag ordering analysis",
 "C13": "shared-object and option-assignment effect analysis",
 "C14": "loop-carried keyword and shared-object analysis",
 "C09": "option-role lint over all constructor and call sites",
 "C12": "interprocedural may-alias / in-place effect analysis",
 "C20": "nondeterminism-source lint",
 "C21": "writer/reader key agreement",
 "C22": "guarded-output analysis",
 "C27": "call/signature, unpacking and definite-assignment lints",
}


def main():
    checks = []
    for l in open(os.path.join(HERE, "properties.jsonl")):
        d = json.loads(l)
        pid = d["id"]
        if pid in NA:
            continue
        t = "gated value numbering (dataflow normal forms) against a " \
            "reviewed reference dataflow model"
        if pid in EXTRA:
            t += " + " + EXTRA[pid]
        checks.append({
            "property": pid,
            "quick_cmd": "python3 -m sa.check " + pid,
            "technique": t,
            "level": "other",
            "level_note":
                "Every function in the property's scope is reduced to a "
                "normal form per observable (returned value, attribute, "
                "effect, rejection condition) and must equal the reviewed "
                "reference model's; equal forms imply equal behaviour for "
                "every input, given library calls as uninterpreted functions "
                "and exact arithmetic. A deviation that is not provably a "
                "mere rewriting is reported only when every differing "
                "sub-term uses vocabulary the normal form interprets; the "
                "rest is listed as undecided in the evidence, never as "
                "discharged. Trusts: the reviewed reference, the normaliser.",
        })
    doc = {"version": 1,
           "setup_cmd": "python3 -m compileall -q sa tools",
           "checks": checks,
           "not_applicable": [{"property": k, "reason": v}
                              for k, v in NA.items()],
           "notes": "Static analysis only: no check imports or runs "
                    "optbinning. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
