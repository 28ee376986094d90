"""writes MANIFEST.json from properties.jsonl and the property theorems"""
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/gsv")
import props
ps = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = ("Deductive proof for all inputs, over the typed bodies the compiler gives for /repo's current source: each function of the "
        "property's closure is proved against its contract in Lean (callees by contract only) and the property theorem is derived from the contracts "
        "and linked with no open hypothesis. Trusted: rustc's front end, the extractor and translator, the meanings given to std, rayon and arkworks "
        "calls (algebraic laws as fields of a structure shown inhabited), usize as natural numbers, the Lean kernel. A bounded run of the real crate "
        "on concrete inputs accompanies each proof and searches for a failing input when an obligation fails.")
EXTRA = {
 "C03": " Distributional equality is stated as a bijection of the random draws that gives identical transcripts; uniformity of the caller's random source is assumed.",
 "C07": " The hiding key's function is private: its contract is proved, the bounded run cannot reach it.",
 "C11": " Independence of scheduling rests on rayon's documented index-order collection of pure closures (closures are proved free of shared mutable state by the types).",
 "C13": " Affine and field element codecs are assumed canonical and exact; the crate's own composition of them is proved.",
}
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo. Each check is self-contained: it extracts, translates and proves from /repo's current tree in a scratch directory it removes."}
for p in ps:
    i = p["id"]
    m["checks"].append({"property": i, "quick_cmd": f"python3 gsv/check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 gsv/check.py {i}",
                        "evidence_file": f"evidence/{i}.json",
                        "technique": "contract-based deductive verification: per-function contracts on rustc's typed bodies, discharged by Lean 4",
                        "level": "proof", "level_note": NOTE + EXTRA.get(i, ""),
                        "theorems": ["Gsv." + q.name for q in props.PROPS if q.pid == i]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
