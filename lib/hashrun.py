"""Observations of cases (JSON on stdin) in a process with its own hash seed."""
import json, sys
import harness, impl

if __name__ == "__main__":
    res = []
    for c in json.load(sys.stdin):
        o = harness.guarded(impl.observe, c)
        res.append({"res": o["res"], "msgs": o["msgs"], "crash": o["crash"],
                    "objs": [[x["n"], x["l"], x["t"], x["sec"], repr(x["fld"])] for x in o["objs"] or []],
                    "walk": o["walk"], "types": o["types"]})
    json.dump(res, sys.stdout)
