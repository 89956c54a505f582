"""Writes lib/beginnings.json: which beginnings of sentences (GrammarGen) the specification reads without complaint, so
that a wrong token after them is the first error.  Only a preference of C19; to be run when its places change."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import tlc, impl, props_grammar as g

BAD = {"rsl": ["..", "section", ";"], "trlc": ["..", "=>", ";"]}
rows = [{"id": i, "kind": f.rsplit(".", 1)[1], "text": tlc.codes(first), "alpha": [g.terminal(t) for t in toks.split()], "n": n - 1}
        for i, (f, first, toks, n, _) in enumerate(g.SPOTS)]
outs, _ = tlc.by_id(tlc.run_rows(rows, "GrammarGen"))
cases, what = [], []
for i, (f, first, toks, n, _) in enumerate(g.SPOTS):
    toks = toks.split()
    for o in outs[i]:
        begin = first + " " + " ".join(toks[k - 1] for k in o["w"])
        for bad in BAD[f.rsplit(".", 1)[1]]:
            text = begin + " " + bad
            fs = ([g.MODEL] if f == g.TRLC else []) + [(f, text)]
            cases.append(dict(id=len(cases) + 1, lint=False, rec=False, trlc=True,
                              files=[dict(name=a, text=b, prim=True) for a, b in fs]))
            what.append((i, o["w"], f, text.count("\n") + 1, len(text) - len(bad) - (text.rfind("\n") + 1) + 1))
good = {}
for k in range(0, len(cases), 3000):
    res, _ = tlc.run_cases(cases[k:k + 3000], timeout=3000)
    for c in cases[k:k + 3000]:
        i, w, f, line, col = what[c["id"] - 1]
        e = res[c["id"]][0]
        ms = [m for m in impl.spec_messages(c, e) if m[3] == "error"]
        if ms and ms[0][:3] == (f, line, col):
            good.setdefault(g.SPOTS[i][1] + "|" + g.SPOTS[i][2], {})[json.dumps(w)] = 1
    print(k, sum(map(len, good.values())), flush=True)
with open(os.path.join(HERE, "lib", "beginnings.json"), "w") as out:
    json.dump({s: [json.loads(w) for w in ws] for s, ws in sorted(good.items())}, out)
