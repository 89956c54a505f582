"""C25: requirements in documentation built with Sphinx."""
import json, os, posixpath, random, re, shutil, subprocess, sys, tempfile
from urllib.parse import unquote
import tlc
from impl import REPO, text
from props_rst import quiet

HERE = os.path.dirname(os.path.abspath(__file__))
NAMES = ["P.a", "P.b", "P.A", "Q.a", "P.a_1", "zz", "a", "P.ab", "_x", "9.x", "\u00e4.b", "Zz.Req_1", "Pa"]
DOCS = ["index", "a", "b", "sub/c", "sub/a", "_sources/x/d", "e.rst", "_sources/f", "two words"]
TITLES = ["the title", "x", "P.b", "a  b", "T & U"]


# -------------------------------------------------------------- the documents

def document(r, names, size):
    """Text of a document, and what it has."""
    lines, own = [], []

    def refs(indent, lead="", n=None):
        start = len(lines) + 1
        words = []
        for _ in range(n or r.randint(1, 3)):
            role = r.choice(["upstream-ref", "upstream-ref", "downstream-ref"])
            name, x = r.choice(names), r.random()
            if x < .6:
                words.append(":requirement:%s:`%s`" % (role, name))
                own.append(("ref", name, name, start))
            elif x < .85:
                t = r.choice(TITLES)
                words.append(":requirement:%s:`%s <%s>`" % (role, t, name))
                own.append(("ref", name, t, start))
            else:
                words.append(":requirement:%s:`!%s`" % (role, name))
                own.append(("plain", name, name, start))
            if r.random() < .3:
                words.append(r.choice(["and", "P.a", "*so*", "\n" + indent + " " * len(lead) + "then"]))
        for k, ln in enumerate((" ".join(words)).split("\n")):
            lines.append(indent + lead + ln if k == 0 else ln)
        lines.append("")

    def define(indent, depth):
        k = r.choice([1, 1, 1, 2])
        some = r.sample(names, k)
        lines.append(indent + ".. requirement:definition:: " + some[0])
        for n in some[1:]:
            lines.append(indent + " " * 28 + n)
        lines.append("")
        for n in some:
            own.append(("def", n, n, 0))
        body = indent + "   "
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            x = r.random()
            if x < .2 and depth < 2:
                define(body, depth + 1)
            elif x < .7:
                refs(body)
            else:
                lines.extend([body + r.choice(["Some text.", ":field: value", "* P.a"]), ""])
    if r.random() < .5:
        lines.extend([":orphan:", ""])
    if r.random() < .5:
        lines.extend(["A title", "=======", ""])
    for _ in range(size):
        x = r.random()
        if x < .45:
            define("", 0)
        elif x < .75:
            refs("")
        elif x < .85:
            refs("", "* ")
        else:
            lines.extend([r.choice(["Some text.", "* P.a", ".. note:: P.a", "``P.a``"]), ""])
    if len(own) > 9:
        return document(r, names, max(1, size - 1))
    return "\n".join(lines) + "\n", own


def exported(r):
    """A document exported from a model, with the objects and references in it."""
    import props_rst
    mod, _ = quiet(lambda: __import__("trlc_rst"))
    n = r.randint(1, 4)
    t, own = "package P\n", []
    names = r.sample(["a", "b", "ab", "a_1"], n)
    for k, o in enumerate(names):
        to = [r.choice(names) for _ in range(r.randint(0, 2))]
        t += "R %s {\n  description = \"some %s\"\n}\n" % (o, " and ".join("[[%s]]" % x for x in to))
        own.append(("def", "P." + o, "P." + o, 0))
        own += [("ref", "P." + x, x, 0) for x in to]
    tmp = tempfile.mkdtemp(prefix="vdocs.")
    try:
        for f, c in (("m.rsl", props_rst.MODEL), ("d.trlc", t)):
            with open(os.path.join(tmp, f), "w", encoding="utf-8") as out:
                out.write(c)
        name = os.path.join(tmp, "out.rst")
        quiet(lambda: mod.TRLCRST(tmp).render(name, title="Requirements", fields=["description"]))
        with open(name, encoding="utf-8") as f:
            return f.read(), own
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def changed(r, names, old, export):
    """What becomes of a document."""
    x = r.random()
    if old is None:
        return document(r, names, r.randint(0, 3)) if x < .6 else None
    if x < .5:
        return old
    if x < .62:
        return None
    if x < .7 and export:
        return r.choice(export)
    return document(r, names, r.randint(0, 3))


def a_history(r, k, export):
    docs = ["index"] + r.sample(DOCS[1:], r.choice([1, 2, 2, 3, 6, 7, 8]))
    names = r.sample(NAMES, r.randint(2, 5) if len(docs) < 5 else r.randint(4, 9))
    now = [document(r, names, r.randint(0, 3)) for _ in docs]
    for d in range(1, len(docs)):
        if r.random() < .2:
            now[d] = None
        elif export and r.random() < .15:
            now[d] = r.choice(export)
    rounds = []
    for _ in range(r.randint(2, 5)):
        rounds.append({"files": list(now), "fresh": r.random() < .1, "par": r.random() < .5})
        now = [x if x is now[0] and r.random() < .6 else changed(r, names, x, export) for x in now]
        if now[0] is None:
            now[0] = document(r, names, 1)
        if r.random() < .15 and len(docs) > 2:          # two documents change places
            i, j = r.sample(range(1, len(docs)), 2)
            now[i], now[j] = now[j], now[i]
    return {"id": k, "docs": docs, "rounds": rounds}


def small(k0):
    """One name that comes and goes in two documents, in all ways."""
    kinds = [None, ("Nothing.\n", []),
             (".. requirement:definition:: P.a\n", [("def", "P.a", "P.a", 0)]),
             ("See :requirement:upstream-ref:`P.a`\n", [("ref", "P.a", "P.a", 1)]),
             (".. requirement:definition:: P.a\n\n   :requirement:upstream-ref:`P.a`\n",
              [("def", "P.a", "P.a", 0), ("ref", "P.a", "P.a", 3)])]
    res = []
    for first in kinds:
        for second in kinds:
            for par in (False, True):
                if first is second:
                    continue
                # further documents, so that they are read side by side
                more = [("doc%d" % i, ("See :requirement:upstream-ref:`P.a`\n", [("ref", "P.a", "P.a", 1)])) for i in range(6 * par)]
                rest = [t for _, t in more]
                touched = [(t[0] + "\nMore.\n", t[1]) for t in rest]
                other = kinds[3 if (len(res) // 2) % 2 else 2]
                res.append({"id": k0 + len(res), "docs": ["index", "q"] + [n for n, _ in more],
                            "rounds": [{"files": [other, first] + rest, "fresh": False, "par": par},
                                       {"files": [other, second] + touched, "fresh": False, "par": par},
                                       {"files": [other, first] + rest, "fresh": False, "par": par}]})
    return res


# ----------------------------------------------------------------- both sides

def row(c):
    own = lambda f: [{"k": k, "n": tlc.codes(n), "t": tlc.codes(t), "ln": ln} for k, n, t, ln in f[1]] if f else []
    return {"id": c["id"], "docs": [tlc.codes(d) for d in c["docs"]],
            "rounds": [{"files": [{"there": f is not None, "own": own(f)} for f in rd["files"]], "fresh": rd["fresh"],
                        "par": rd["par"]} for rd in c["rounds"]]}


def run(cases):
    inp = json.dumps([{"docs": c["docs"], "rounds": [dict(rd, files=[f and f[0] for f in rd["files"]]) for rd in c["rounds"]]}
                      for c in cases])
    env = dict(os.environ, PYTHONPATH="", PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-B", os.path.join(HERE, "docsrun.py")], input=inp, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, encoding="utf-8", timeout=700)
    if p.returncode:
        return [[{"crash": p.stderr[-600:]}] for _ in cases]
    return json.loads(p.stdout)


def leads(at, href):
    """Document and place a link leads to."""
    to, _, place = unquote(href).partition("#")
    if to:
        to = posixpath.normpath(posixpath.join(posixpath.dirname(at), to))
        at = to[:-5] if to.endswith(".html") else to
    return [at, place]


def differences(c, e, o):
    """What a build shows other than the specification says."""
    docs, files = c["docs"], c["rounds"][e["round"] - 1]["files"]
    reg = sorted(["requirement." + text(n), text(n), "Requirement", d, "requirement-" + text(n), "0"]
                 for d, ns in zip(docs, e["reg"]) for n in ns)
    if reg != o["data"]:
        return "known requirements: expected %s, got %s" % ([x[1::2][:2] for x in reg], [x[1::2][:2] for x in o["data"]])
    warnings = []
    for d, f, own, name in zip(docs, files, e["docs"], e["names"]):
        if f is None:
            if d in o["pages"]:
                return "%s is built though it is gone" % d
            continue
        want = []
        for x in own:
            n, t = text(x["n"]), text(x["t"])
            if x["k"] == "def":
                want.append(["def", "requirement-" + n, n])
                continue
            want.append(["ref", [docs[x["to"] - 1], "requirement-" + n] if x["to"] else None, " ".join(t.split())])
            if x["k"] == "ref" and not x["to"]:
                warnings.append("WARNING: (%s:%s):  '%s' %s" % (text(name), x["ln"] or "*", n, "is ambiguous (%d targets found)" % x["many"]
                                                            if x["many"] else "not found"))
        got = [x if x[0] == "def" else ["ref", leads(d, x[1]) if x[1] else None, " ".join(x[3].split())] for x in o["pages"].get(d, ["no page"])]
        if want != got:
            i = ([a != b for a, b in zip(want, got)] + [True]).index(True)
            return "%s: expected %s, got %s" % (d, want[i:i + 2], got[i:i + 2])
    got = sorted(o["warnings"])
    any_line = {re.sub(r":\*\):", "", w) for w in warnings if ":*):" in w}
    got = sorted(re.sub(r":\d+\):(.*)$", r":*):\1", w) if re.sub(r":\d+\):", "", w) in any_line and w not in warnings else w for w in got)
    if sorted(warnings) != got:
        a, b = list(got), []
        for w in warnings:
            if w in a:
                a.remove(w)
            else:
                b.append(w)
        return "warnings: missing %s, superfluous %s" % (b[:3], a[:3])
    idx = [[chr(g["of"]), sorted([text(n), docs[d - 1]] for n, d in g["has"])] for g in e["index"]]
    got = [[h, [[n, leads("index", t)] for t, n in es]] for h, es in o["index"] or []]
    for h, es in got:
        for n, (d, place) in es:
            if place != "requirement-" + n:
                return "index: %s leads to %s" % (n, place)
        if [n for n, _ in es] != sorted(n for n, _ in es):
            return "index: %s is not in order" % [n for n, _ in es]
    got = [[h, sorted([n, d] for n, (d, _) in es)] for h, es in got]
    if idx != got:
        return "index: expected %s, got %s" % (idx, got)
    return None


def conform(chk, cases):
    outs, res = tlc.by_id(tlc.run_rows([row(c) for c in cases], "Docs"))
    chk.states += res.distinct
    chk.transitions += res.states
    for c, o in zip(cases, run(cases)):
        exp = {e["round"]: e for e in outs[c["id"]]}
        if len(exp) != len(c["rounds"]):
            raise RuntimeError("history %d is incomplete" % c["id"])
        chk.traces += 1
        for k in sorted(exp):
            x = o[k - 1] if k <= len(o) else {"crash": "nothing was built"}
            d = x["crash"] if "crash" in x else differences(c, exp[k], x)
            chk.count("builds")
            if d:
                chk.violation("build %d of %d: %s" % (k, len(c["rounds"]), d), {"docs": c["docs"], "rounds": c["rounds"][:k]})
                break
        else:
            for s in exp[len(exp)]["docs"]:
                for x in s:
                    chk.count("reference to %s" % ("one" if x["to"] else "several" if x["many"] else "none") if x["k"] == "ref" else
                              "definitions" if x["k"] == "def" else "text that looks like a reference")
            chk.sample({"docs": c["docs"], "last": [f and f[0] for f in c["rounds"][-1]["files"]]})


def C25(chk):
    first = small(1)
    conform(chk, first if chk.thorough else first)
    n = len(first) + 1
    while True:
        r = random.Random(chk.rng.random())
        export = [exported(random.Random(r.random())) for _ in range(6)]
        cases = [a_history(random.Random(chk.rng.random()), n + k, export) for k in range(chk.scale(120, 600))]
        n += len(cases)
        conform(chk, cases)
        if not chk.left():
            break
