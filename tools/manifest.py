"""Writes MANIFEST.json from the list of implemented properties."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C09": "property-based testing: generated lattices and histories of periodic axes against a torus oracle",
    "C10": "property-based testing: generated histories against a minimum-image oracle",
    "C11": "stateful property-based testing: matrices assembled after every step of generated histories",
    "C12": "stateful model-based testing: edit histories against a set-of-sites model",
    "C13": "stateful model-based testing: join histories against a lattice model built at once",
    "C14": "stateful property-based testing: round trips and aliasing checks over generated histories",
    "C15": "stateful model-based testing: configuration histories with injected errors against a model",
    "C19": "stateful model-based testing: generated paths against an interpolation model",
    "C20": "property-based testing: artists of generated plots against the lattice",
    "C21": "stateful model-based testing: atom operation sequences against a dict model",
    "C22": "property-based testing: spectra of generated periodic lattices against Bloch bands",
    "C23": "metamorphic property-based testing: pairs of descriptions of generated lattices",
    "C24": "stateful differential testing: used lattices against new ones over generated histories",
}
NOTE = (
    "Random search with shrinking over the generated domain described in the evidence "
    "file; no violation found is evidence, not proof. Trusts numpy, scipy, Hypothesis "
    "and the reference model in vlib/."
)


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    have = {os.path.basename(p)[:-3].upper() for p in glob.glob(f"{HERE}/props/c[0-9]*.py")}
    checks, missing = [], []
    for p in props:
        pid = p["id"]
        if pid not in have:
            missing.append({"property": pid, "reason": "check not built yet"})
            continue
        checks.append(
            {
                "property": pid,
                "quick_cmd": f"python3 run.py --property {pid} --tier quick",
                "thorough_cmd": f"python3 run.py --property {pid} --tier thorough",
                "technique": TECH.get(
                    pid, "property-based testing: generated cases against a reference model"
                ),
                "level": "exploration",
                "level_note": NOTE,
            }
        )
    data = {
        "version": 1,
        "setup_cmd": "python3 tools/setup.py",
        "checks": checks,
        "not_applicable": missing,
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")


main()
