"""append a repair to known_findings.json: record.py PROP COMMIT TEXT"""
import json
import os
import sys


def main():
    path = os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), "known_findings.json")
    with open(path, encoding="utf8") as fpt:
        data = json.load(fpt)
    data["fixed"].append("fixed: property={} {} {}".format(*sys.argv[1:4]))
    with open(path, "w", encoding="utf8") as fpt:
        json.dump(data, fpt, indent=1, ensure_ascii=False)
    print(len(data["fixed"]))


if __name__ == "__main__":
    main()
