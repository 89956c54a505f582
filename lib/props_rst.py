"""C22: the export to reStructuredText."""
import io, itertools, os, random, shutil, sys, traceback
from contextlib import redirect_stderr
from fractions import Fraction
import harness, impl, tlc
from impl import REPO, big, text
from props_misc import words
from tlc import codes

TOOL = os.path.join(REPO, "tools", "trlc_rst")
if TOOL not in sys.path:
    sys.path.insert(0, TOOL)

MODEL = """package P
enum Kind { low high_one }
type R {
  description optional Markup_String
  summary optional String
  more_text optional Markup_String
  n optional Integer
  share_of_1b optional Decimal
  ok optional Boolean
  kind optional Kind
  up optional R
}
type S extends R { freeze summary = "frozen [a](b)" x optional Markup_String }
"""
OTHER = """package Q
import P
type T extends P.R { y optional String }
"""
FIELDS = ["description", "summary", "more_text", "n", "share_of_1b", "ok", "kind", "up", "x", "y", "nothing"]
TITLES = ["a", "b", "a b", "", "P.o0", "a/b", "b  c", "section a", "long title", "root"]


# -------------------------------------------------------------------- running

def quiet(fn):
    """fn() with nothing shown; (value, what went to the error stream)"""
    err = io.StringIO()
    sys.stdout.flush()
    saved, null = os.dup(1), os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    try:
        with redirect_stderr(err):
            try:
                return fn(), err.getvalue()
            finally:
                sys.stdout.flush()
    finally:
        os.dup2(saved, 1)
        os.close(saved)
        os.close(null)


def fields_arg(v):
    """The fields as a caller gives them: labels only if there are any."""
    if not any(f["l"] for f in v["fields"]):
        return [f["n"] for f in v["fields"]]
    return {f["n"]: f["l"] for f in v["fields"]}


LINKS = {"full": lambda fqn, name: fqn, "same": lambda fqn, name: name, "empty": lambda fqn, name: "",
         "role": lambda fqn, name: ":ref:`%s <%s>`" % (name, fqn)}


def show(mod, make, root, v):
    records = {n for n in v["names"]} if v["only"] else None
    r = make()
    if v["v"] == "file":
        name = os.path.join(root, "out.rst")
        if os.path.exists(name):
            os.unlink(name)
        r.render(name, title=v["title"], fields=fields_arg(v), records=records)
        with open(name, encoding="utf-8", newline="") as f:
            return f.read()
    kw = {"fqns": v["order"]} if v["given"] else {}
    if v["v"] == "list":
        return r.render_records_to_string(fields=fields_arg(v), records=records, **kw)
    if v["v"] == "table":
        if v["link"] != "none":
            kw["link_fn"] = LINKS[v["link"]]
        return r.render_table_to_string(fields_arg(v), name_header=v["head"], records=records, **kw)
    return r.field_value_for(v["order"][0], v["fields"][0]["n"], records=records)


def argv(c, v, names):
    """The command line for the view of a document."""
    src, dep = names
    a = ["-o", "out.rst"]
    if c["way"] == "dir":
        a += ["-i", "."] + (["-s", *src] if c["filter"] else [])
    else:
        a += ["-s", *src] + (["-d", *dep] if dep else [])
    if v["title"] != "Requirements":
        a += ["--title", v["title"]]
    if v["fields"]:
        a += ["-f"] + [f["n"] for f in v["fields"]]
    if v["only"]:
        a += ["-r", *v["names"]]
    return a


def observe(c):
    root = os.path.realpath(impl.scratch())
    cwd = os.getcwd()
    obs = {"res": None, "done": [], "crash": None}
    try:
        impl.write_files(root, c["files"])
        os.chdir(root)
        import trlc_rst as mod
        src = [f["name"] for f in c["files"] if f["show"] and (f["name"].endswith(".trlc") or c["way"] == "files")]
        dep = [f["name"] for f in c["files"] if not f["show"]]
        random.Random(c["id"]).shuffle(src)

        def make():
            if c["way"] == "dir":
                return mod.TRLCRST(root if c["id"] % 2 else ".", source_files=src if c["filter"] else None)
            return mod.TRLCRST(source_files=src, dep_files=dep)

        def run():
            one = make()
            try:
                one.parse_trlc_files()
            except mod.TRLCParseError:
                obs["res"] = "refused"
                return
            obs["res"] = "stab"
            for v in c["views"]:
                obs["done"].append(show(mod, lambda: one, root, v))

        def main():
            old = sys.argv
            sys.argv = ["trlc_rst"] + argv(c, c["views"][0], (src, dep))
            try:
                mod.main()
                return 0
            except SystemExit as e:
                return 0 if e.code is None else e.code
            finally:
                sys.argv = old
        try:
            if c["cli"]:
                code, err = quiet(main)
                obs["exit"] = code
                done = os.path.exists("out.rst")
                if code == 0 and done:
                    obs["res"] = "stab"
                    with open("out.rst", encoding="utf-8", newline="") as f:
                        obs["done"] = [f.read()]
                elif code != 0 and not done:
                    obs["res"] = "refused"
                else:
                    obs["res"] = "status %s, %s" % (code, "a file" if done else "no file")
            else:
                quiet(run)
        except RecursionError:
            obs["crash"] = "RecursionError"
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [t for t in tb if "trlc" in t.filename] or tb
            obs["crash"] = "%s(%s) at %s:%s" % (type(e).__name__, str(e)[:100], os.path.basename(where[-1].filename),
                                                where[-1].name)
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)
    return obs


# ------------------------------------------------------------------ comparing

def shown(x, s):
    """Is s how the value is shown?"""
    k = x["k"]
    if k == "i":
        return s == str(big(x["i"]))
    if k == "b":
        return s == ("True" if x["b"] else "False")
    if k == "e":
        return s == x["e"]
    if k == "r":
        return s == ".".join(x["r"])
    if k == "q":
        try:
            return impl.same_value(x, float(s)) or Fraction(s) == Fraction(big(x["q"]["n"]), big(x["q"]["d"]))
        except ValueError:
            return False
    return False


def differ(v, want, got):
    """The first difference, or None."""
    if want and want[0]["k"] == "none":
        return None if got is None else "nothing expected, got %r" % (got,)
    if not isinstance(got, str):
        return "text expected, got %r" % (got,)
    if v["v"] == "value":
        lines = got.split("\n")
    elif got and not got.endswith("\n"):
        return "the last line has no end"
    else:
        lines = got.split("\n")[:-1]
    for i, (w, g) in enumerate(zip(want, lines)):
        pre = text(w["x"])
        if w["k"] == "t" and pre != g:
            return "line %d: expected %r, got %r" % (i + 1, pre, g)
        if w["k"] == "v" and not (g.startswith(pre) and shown(w["v"], g[len(pre):])):
            return "line %d: expected %r and %s, got %r" % (i + 1, pre, w["v"], g)
    if len(want) != len(lines):
        n = min(len(want), len(lines))
        return "%d lines expected, got %d: %r" % (len(want), len(lines),
                                                  text(want[n]["x"]) if len(want) > n else lines[n])
    return None


def judge(c, e, o):
    if e["open"]:
        return []
    if o["crash"]:
        return [("crash", o["crash"])]
    if (e["res"] == "stab") != (o["res"] == "stab"):
        return [("result", "expected %s, got %s" % (e["res"], o["res"]))]
    d = []
    for v, w, g in zip(c["views"], e["done"], o["done"]):
        x = differ(v, w, g)
        if x:
            d.append((v["v"], x))
    return d


def conform(chk, cases):
    rows = []
    for c in cases:
        c["files"] = sorted(c["files"], key=lambda f: f["name"])
        rows.append({"id": c["id"], "lint": False, "rec": True, "trlc": True, "any": False,
                     "files": [{"kind": f["name"].rsplit(".", 1)[1], "prim": True, "show": f["show"],
                                "text": codes(f["text"])} for f in c["files"]],
                     "views": [{"v": v["v"], "title": codes(v["title"]), "only": v["only"], "given": v["given"],
                                "names": [codes(n) for n in v["names"]], "order": [codes(n) for n in v["order"]],
                                "head": codes(v["head"]), "link": v["link"],
                                "fields": [{"n": f["n"], "l": codes(f["l"])} for f in v["fields"]]}
                               for v in c["views"]]})
    obs = harness.parallel(observe, cases)
    res = tlc.run_rows(rows, "Rst")
    chk.states += res.distinct
    chk.transitions += max(0, res.states - 1)
    outs = {o["id"]: o for o in res.lines}
    for c, o in zip(cases, obs):
        e = outs.get(c["id"])
        if e is None:
            chk.count("not decided")
            continue
        o.setdefault("done", [])
        chk.traces += 1
        chk.count("outcome " + ("open" if e["open"] else e["res"]))
        for v in c["views"]:
            chk.count("views " + v["v"])
        bad = judge(c, e, o)
        if bad:
            chk.violation("; ".join("%s: %s" % b for b in bad[:3]),
                          {"case": {k: c[k] for k in c if k != "id"}, "differences": bad,
                           "observed": {k: o[k] for k in ("res", "crash")}})
        elif len(chk.samples) < 3 and e["res"] == "stab" and c["views"][0]["v"] == "file" and len(c["files"]) < 4:
            chk.sample({"files": {f["name"]: f["text"][:800] for f in c["files"]}, "document": o["done"][0][:800]})


# ----------------------------------------------------------------- generation

def view(v, fields=("description",), title="Requirements", names=None, order=None, head="Name", labels=None, link="none"):
    return {"v": v, "title": title, "fields": [{"n": f, "l": (labels or {}).get(f, "")} for f in fields],
            "only": names is not None, "names": list(names or []), "given": order is not None,
            "order": list(order or []), "head": head, "link": link}


def case(chk, files, views, way="dir", filter=False, cli=False):
    """files: (name, text[, show])"""
    chk.nid += 1
    return {"id": chk.nid, "way": way, "filter": filter, "cli": cli, "views": views,
            "files": [{"name": f[0], "text": f[1], "show": f[2] if len(f) > 2 else True} for f in files]}


def quoted(t):
    return '"%s"' % t.replace('"', '\\"')


def section_doc(word, titles, at, objs):
    """A word of < > o as declarations."""
    out = []
    for ch in word:
        if ch == "<":
            out.append("section %s {" % titles[at[1] % len(titles)])
            at[1] += 1
        elif ch == ">":
            out.append("}")
        else:
            out.append("R o%d { %s }" % (at[0], objs(at[0])))
            at[0] += 1
    return "\n".join(out) + "\n"


def shapes(chk):
    """All small documents: sections and objects in all arrangements."""
    r = chk.rng
    res = []
    todo = [w for s in range(0, 5) for o in range(0, 5) for w in words(4, s, o)]
    r.shuffle(todo)
    for w in todo[:chk.scale(70, 700)]:
        titles = [quoted(r.choice(TITLES[:3] if r.random() < .6 else TITLES)) for _ in range(6)]
        if r.random() < .1:
            titles.append("'''a\n   b'''")
        t = "package P\n" + section_doc(w, titles, [0, 0], lambda k: 'description = "d%d"' % k)
        vs = [view("file", title=r.choice(["Requirements", "", "T"]))]
        n = w.count("o")
        if n:
            keep = [r.sample(range(n), r.randint(0, n)) for _ in range(2)]
            vs.append(view("file", names=["P.o%d" % k for k in keep[0]] + ["P.zz"] * (r.random() < .2)))
            vs.append(view("list", order=["P.o%d" % k for k in keep[1]] + ["P.o", "o0"] * (r.random() < .2)))
            vs.append(view("file"))
        res.append(case(chk, [("m.rsl", MODEL), ("d.trlc", t)], vs))
    for d in range(1, 8):                # depth of headings
        w = "<" * d + "o" + ">" * d
        res.append(case(chk, [("m.rsl", MODEL), ("d.trlc", "package P\n" + section_doc(
            w, [quoted("s%d" % i) for i in range(9)], [0, 0], lambda k: ""))],
            [view("file"), view("file", title="")]))
    return res


def layouts(chk, r):
    """Objects in the same sections from several files and packages."""
    files = [("m.rsl", MODEL), ("lib/q.rsl", OTHER)]
    titles = [quoted(r.choice(TITLES)) for _ in range(4)]
    names = []
    at = [0, 0]
    for k in range(r.randint(1, 4)):
        pkg = r.choice(["P", "P", "Q"])
        ws = "".join(r.choice("o<oo>") for _ in range(r.randint(2, 8)))
        w, d = "", 0
        for ch in ws:
            if ch == ">" and not d or ch == "<" and d > 3:
                continue
            d += (ch == "<") - (ch == ">")
            w += ch
        w += ">" * d
        lo = at[0]
        t = section_doc(w, titles, at, lambda k: 'n = %d' % k)
        if pkg == "Q":
            t = t.replace("R o", "T o")
        names += ["%s.o%d" % (pkg, i) for i in range(lo, at[0])]
        files.append(("%s%d.trlc" % (r.choice(["", "sub/", "lib/"]), k), "package %s\n%s" % (pkg, t), r.random() < .7))
    if not any(f[0].endswith(".trlc") and (f[2:] or (True,))[0] for f in files):
        files[-1] = files[-1][:2] + (True,)
    way, cli = r.choice(["dir", "dir", "files"]), r.random() < .5
    flt = way == "dir" and not all((f[2:] or (True,))[0] for f in files)
    if way == "files":
        files = [(f[0], f[1], f[2] if len(f) > 2 else r.random() < .5) for f in files]
    title = r.choice(["Requirements", "", "My title", "X"])
    some = r.sample(names, r.randint(1, len(names))) if names and r.random() < .5 else None
    fields = r.sample(FIELDS, r.randint(1, 4))
    vs = [view("file", fields, title, some)]
    if not cli:
        vs += [view("table", r.sample(FIELDS, 2), names=some), view("list", fields, order=names[::-1])]
    if r.random() < .12:                 # something is wrong
        k = r.randrange(len(files))
        f = files[k]
        files[k] = (f[0], f[1] + r.choice(["R ; {", "type", "\nsection", "R zz { up = nobody }"]), *f[2:])
    return case(chk, files, vs, way, flt, cli)


LINES = ["a word", "two  words\t here", "- item", "-  next", "1. one", "12.  two", "1.5 volts", "so::", "::", "    deep",
         "      deeper", "  in", "\t tab", ".. image:: p.png", "   :width: 5%", ".. note::", ".. no-te:: x::", "",
         "  ", "![alt](p/q.png)", "see ![](x) there", "[t](u)", "[t] (u)", "[a [b](c) d](e)", "[](u)", "[t]()",
         "ref [[o0]] end", "[[o1, o0]]", "[[P.o1,o0 ]][[ o1 ]]", "x [[o0]](u)", "..", ".. 1::", ".. a b::", "...",
         "- [[o0]]", "![a\nb](c)", "\\\"q\\\"", ":label: x", "** b **", "!", "![x]", "2.", "2 .", "--",
         "all [[o0,o1, P.o0,o1 ,o0, P.o1]]", "[[o0, o1, o0]] and [[o1,o1,o1,o1]] [[o0]]",
         "[[%s]]" % ", ".join(["o0", "P.o1", "o1"] * 4)]


def describe(ls):
    t = "\n".join(ls)
    return "'''\n%s\n'''" % t if "\n" in t or "\\" not in t else '"%s"' % t


def descriptions(chk):
    """Descriptions of up to three lines of all kinds, and longer ones."""
    r = chk.rng
    some = [[a] for a in LINES] + [[a, b] for a in LINES for b in LINES]
    for _ in range(chk.scale(600, 9000)):
        some.append([r.choice(LINES) if r.random() < .8 else " " * r.randint(0, 6) + r.choice(LINES)
                     for _ in range(r.randint(3, 9))])
    if not chk.thorough:
        some = some[:len(LINES)] + r.sample(some[len(LINES):], 900)
    res = []
    for k in range(0, len(some), 20):
        part = some[k:k + 20]
        t = "package P\nR o0 {}\nR o1 {}\n" + "".join(
            "R p%d { description = '''%s''' }\n" % (i, r.choice(["\n", ""]) + "\n".join(ls) + r.choice(["\n", ""]))
            for i, ls in enumerate(part))
        vs = [view("file")]
        vs += [view("value", ["description"], order=["P.p%d" % r.randrange(len(part))]) for _ in range(2)]
        res.append(case(chk, [("m.rsl", MODEL), ("d.trlc", t)], vs))
    return res


def objects(chk, r):
    """Values of all kinds, shown in all ways."""
    t, names = "package P\n", []
    texts = ["x", "", "two words", "a [t](u)", "![i](j)", "- x", "with: colon"]
    for k in range(r.randint(1, 6)):
        vals = {"description": lambda: describe(r.sample(LINES[:36], r.randint(1, 3))) if r.random() < .5 else
                quoted(r.choice(texts + ["[[o0]]", "see [[o0]], [[P.o0,o0]]", "[[o0,o0,P.o0,o0,o0]] x"])),
                "summary": lambda: quoted(r.choice(texts)) if r.random() < .6 else "'''a\n  b\n\n c'''",
                "more_text": lambda: quoted(r.choice(texts + ["[[o0]]"])),
                "n": lambda: str(r.choice([0, 1, -5, 10 ** 20, "0x1f", "1_000"])),
                "share_of_1b": lambda: r.choice(["0.0", "1.5", "-2.25", "100.0", "0.001", "3.0"]),
                "ok": lambda: r.choice(["true", "false"]), "kind": lambda: r.choice(["Kind.low", "Kind.high_one"]),
                "up": lambda: "o0"}
        typ = r.choice("RRS") if k else "R"
        if typ == "S":
            del vals["summary"]
            vals["x"] = lambda: '"[[o0]] x"'
        chosen = r.sample(sorted(vals), r.randint(0, len(vals)))
        t += "%s o%d {\n%s}\n" % (typ, k, "".join("  %s = %s\n" % (n, vals[n]()) for n in chosen))
        names.append("P.o%d" % k)
    vs = []
    for _ in range(r.randint(3, 6)):
        fields = r.sample(FIELDS, r.randint(1, 6))
        labels = {f: r.choice(["L", "a label", f.upper()]) for f in fields} if r.random() < .3 else None
        order = [r.choice(names + ["P.none"]) for _ in range(r.randint(0, 4))] if r.random() < .4 else None
        only = r.sample(names, r.randint(0, len(names))) if r.random() < .3 else None
        kind = r.choice(["file", "list", "table", "value", "value"])
        if kind == "value":
            vs.append(view("value", fields[:1], names=only, order=[r.choice(names + ["P.none"] * (r.random() < .1))]))
        elif kind == "file":
            vs.append(view("file", fields, names=only, labels=labels, title=r.choice(["Requirements", ""])))
        else:
            vs.append(view(kind, fields, names=only, order=order, labels=labels, head=r.choice(["Name", "X"]),
                           link=r.choice(["none", "none"] + sorted(LINKS))))
    return case(chk, [("m.rsl", MODEL), ("d.trlc", t)], vs)


def C22(chk):
    # 1. all arrangements of a few sections and objects
    conform(chk, shapes(chk))
    # 2. descriptions line by line
    conform(chk, descriptions(chk))
    # 3. values of all kinds; files and packages, selections, the command line
    while True:
        conform(chk, [objects(chk, random.Random(chk.rng.random())) for _ in range(chk.scale(60, 300))] +
                [layouts(chk, random.Random(chk.rng.random())) for _ in range(chk.scale(60, 300))])
        if not chk.left():
            break
