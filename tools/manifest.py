"""write MANIFEST.json from properties.jsonl and the property modules"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOTES = {
    "C01": "conversions, round trips, in-place histories and edits of arrays "
           "against the physical relations",
}
DEFAULT_NOTE = ("generated cases against an independent oracle; a violation "
                "is a shrunk, replayable case")


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE,
                                                      "properties.jsonl"),
                                         encoding="utf8") if l.strip()]
    checks, missing = [], []
    for prop in props:
        ident = prop["id"]
        path = os.path.join(HERE, "vh", "props", ident.lower() + ".py")
        if not os.path.isfile(path):
            missing.append({"property": ident,
                            "reason": "check not built yet"})
            continue
        stateful = "histories" in prop["quantifier"]["over"]
        technique = ("property-based testing (Hypothesis): generated " +
                     ("operation histories and inputs" if stateful else
                      "inputs") + " against a reference oracle, with "
                     "shrinking")
        checks.append({
            "property": ident,
            "quick_cmd": "bash run.sh {} quick".format(ident),
            "thorough_cmd": "bash run.sh {} thorough".format(ident),
            "evidence_file": "evidence/{}.json".format(ident),
            "technique": technique,
            "level": "exploration",
            "level_note": ("Held on every generated case of a seeded search; "
                           "no proof for cases not generated. Trusts the "
                           "oracle in vh/ (" +
                           NOTES.get(ident, prop["title"]).rstrip(".") +
                           "), numpy/scipy and Hypothesis; domain limits are "
                           "listed under assumptions in the evidence.")})
    manifest = {"version": 1, "setup_cmd": "bash run.sh setup",
                "checks": checks, "not_applicable": missing,
                "notes": "No hooks: every check drives the public API of the "
                         "code in /repo/src. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w",
              encoding="utf8") as fpt:
        json.dump(manifest, fpt, indent=1)
        fpt.write("\n")


if __name__ == "__main__":
    main()
