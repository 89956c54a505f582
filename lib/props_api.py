"""C24: what a finished run offers to other tools."""
import itertools, random, re
import gen, impl, tlc
from props import rounds
from props_types import objects_of, references, tuple_values, array_values, twins
from props_expr import applied

KINDS = [("Package", "pkg"), ("Record_Type", "rec"), ("Tuple_Type", "tup"), ("Enumeration_Type", "enum"), ("Record_Object", "obj"),
         ("Composite_Component", "comp"), ("Enumeration_Literal_Spec", "lit"), ("Builtin_Function", "fn"), ("Builtin_Type", "bi")]

TYPES = ("rec", "tup", "enum")
GENERAL = [("Entity", [k for _, k in KINDS]), ("Type", TYPES + ("bi",)), ("Concrete_Type", TYPES), ("Composite_Type", TYPES[:2]),
           ("Typed_Entity", ("obj", "comp", "lit"))]


def CLASSES(ast):
    """What may be asked for, and the kinds of things which are that."""
    return [("all", None, [k for _, k in KINDS])] + [(n, getattr(ast, n), k) for n, k in [(c, (n,)) for c, n in KINDS] + GENERAL]


def label(e):
    from trlc import ast
    for cls, k in KINDS:
        if isinstance(e, getattr(ast, cls)):
            return [k, e.n_package.name, e.name] if k in ("enum", "tup", "rec", "obj") else [k, "", e.name]
    return [type(e).__name__, "", e.name]


def place(mh, out, loc, root, how):
    """Where a message about this is shown."""
    at = out.tell()
    before = mh.errors, mh.warnings
    if how % 4 == 0:
        mh.warning(loc, "here")
    elif how % 4 == 1:
        mh.error(loc, "here", fatal=False)
    elif how % 4 == 2:
        mh.error(loc, "here", fatal=False, user=True)
    else:
        mh.check(loc, "here", "cat")
    msg = impl.parse_messages(out.getvalue()[at:], root + "/")
    kind = ["warning", "error", "check error", "issue"][how % 4]
    after = (before[0] + (how % 4 in (1, 2)), before[1] + (how % 4 in (0, 3)))
    if len(msg) != 1 or msg[0][3] != kind or msg[0][5] != "here" or msg[0][4] != ("cat" if kind == "issue" else "") or \
       after != (mh.errors, mh.warnings):
        return ["message shown as", out.getvalue()[at:], mh.errors - before[0], mh.warnings - before[1]]
    return msg[0][:3]


def dump_api(stab, root, case, mh, out):
    from trlc import ast
    from trlc.errors import TRLC_Error
    how = itertools.count()

    def target(r):
        return label(r.target)[1:] if r.target is not None else None

    def at(x):
        return place(mh, out, x.location, root, next(how))

    def made(e):
        if isinstance(e, ast.Implicit_Null):
            return {"k": "null", "at": at(e)}
        if isinstance(e, ast.Unary_Expression):
            return {"k": "un", "at": at(e), "op": "-" if e.operator == ast.Unary_Operator.MINUS else "+", "of": [made(e.n_operand)]}
        if isinstance(e, ast.Array_Aggregate):
            return {"k": "arr", "at": at(e), "of": [made(x) for x in e.value]}
        if isinstance(e, ast.Tuple_Aggregate):
            return {"k": "tup", "at": at(e), "of": {n: made(x) for n, x in e.value.items()}}
        if isinstance(e, ast.Record_Reference):
            return {"k": "ref", "at": at(e), "to": target(e)}
        return {"k": "lit", "at": at(e), "t": impl.type_name(e.typ),
                "to": [target(r) for r in getattr(e, "references", [])]}

    def table(what, t):
        found = []
        for n in case["ask"]:
            e = t.lookup_assuming(mh, n)
            found.append(None if e is None else label(e))
            if (e is not None) != (n in t):
                found[-1] = ["contains and lookup differ on", n]
            if e is None:
                continue
            # the kind of thing that is wanted
            for cls, k in [(c, (n,)) for c, n in KINDS[:5]] + GENERAL:
                before = mh.errors
                try:
                    ok = t.lookup_assuming(mh, n, getattr(ast, cls)) is e
                except TRLC_Error:
                    ok = False if mh.errors == before + 1 else "error not counted"
                if ok != (label(e)[0] in k):
                    found[-1] = ["looked up as %s" % cls, n, ok]
        return {"of": what, "names": sorted(t.all_names()), "has": [label(e) for e in t.table.values()],
                "vals": {n: sorted(label(e) for e in (t.values(c) if c else t.values())) for n, c, _ in CLASSES(ast)}, "found": found}
    res = {"objs": [], "types": [], "tables": [table(["global"], stab)]}
    for o in stab.iter_record_objects():
        res["objs"].append({"n": label(o)[1:], "fld": {n: made(e) for n, e in o.field.items()}})
        if o.fully_qualified_name() != ".".join(label(o)[1:]):
            res["objs"][-1]["n"] = o.fully_qualified_name()
    recs = [t for p in stab.values(ast.Package) for t in p.symbols.values(ast.Record_Type)]
    for p in stab.values(ast.Package):
        res["tables"].append(table(["pkg", p.name], p.symbols))
        for t in p.symbols.values(ast.Concrete_Type):
            own = t.literals if isinstance(t, ast.Enumeration_Type) else t.components
            res["tables"].append(table(label(t), own))
            rec = isinstance(t, ast.Record_Type)
            res["types"].append({
                "n": label(t)[1:] if t.fully_qualified_name() == ".".join(label(t)[1:]) else t.fully_qualified_name(),
                "k": label(t)[0], "at": at(t), "parts": [[c.name, at(c)] for c in own.table.values()],
                "form": [t.is_abstract, t.is_final] if rec else [],
                "all": [c.name for c in t.all_components()] if not isinstance(t, ast.Enumeration_Type) else [],
                "up": sorted(label(u)[1:] for u in recs if t.is_subclass_of(u)) if rec else [],
                "frozen": sorted(c.name for c in t.all_components() if t.is_frozen(c)) if rec else [],
                "given": {n: made(e) for n, e in t.frozen.items()} if rec else {}})
    return res


def expected(case, api):
    """The same of the specification."""
    from trlc import ast
    names = [f["name"] for f in sorted(case["files"], key=lambda f: f["name"])]

    def at(l):
        return [names[l[0] - 1], l[1], l[2]]

    def made(e):
        e = dict(e, at=at(e["at"]))
        if e["k"] == "tup":
            e["of"] = {n: made(x) for n, x in pairs(e["of"])}
        elif "of" in e:
            e["of"] = [made(x) for x in e["of"]]
        if "t" in e:
            e["t"] = impl.spec_type(e["t"])
        return e

    def pairs(x):
        return x.items() if isinstance(x, dict) else ()
    return {"objs": [{"n": o["n"], "fld": {n: made(e) for n, e in pairs(o["fld"])}} for o in api["objs"]],
            "types": [dict(t, at=at(t["at"]), parts=[[n, at(l)] for n, l in t["parts"]], up=sorted(t["up"]),
                           frozen=sorted(t["frozen"]), given={n: made(e) for n, e in pairs(t["given"])}) for t in api["types"]],
            "tables": [dict(t, names=sorted(t["names"]), found=[None if x[0] in ("none", "other") else x for x in t["found"]],
                            vals={n: sorted(x for x in t["vals"] if x[0] in k) for n, _, k in CLASSES(ast)}) for t in api["tables"]]}


def bare(e, open_):
    """A value given to a component of a type. Its references are resolved with the objects that have it; without any
    such object what they name is open."""
    e = dict(e)
    if "of" in e:
        e["of"] = [bare(x, open_) for x in e["of"]] if isinstance(e["of"], list) else {n: bare(x, open_) for n, x in e["of"].items()}
    if "to" in e and open_:
        e["to"] = "open"
    return e


def unresolved(e):
    return None in e["to"] if e.get("k") == "lit" else e["k"] == "ref" and e["to"] is None or         any(unresolved(x) for x in (e["of"].values() if isinstance(e.get("of"), dict) else e.get("of", [])))


def judge(c, e, o):
    d = impl.compare(c, e, o)
    if e["res"] != "stab" or o["res"] != "stab" or e["open"] or any(a == "crash" for a, _ in d):
        return d
    if isinstance(o["api"], str):
        return d + [("api", o["api"])]
    want, got = expected(c, e["api"]), o["api"]
    for part, key in (("objs", "n"), ("types", "n"), ("tables", "of")):
        w, g = ({str(x[key]): x for x in y[part]} for y in (want, got))
        for n in sorted(set(w) | set(g)):
            if n not in w or n not in g:
                return d + [("api", "%s %s: expected %s, got %s" % (part, n, n in w, n in g))]
            for k in w[n]:
                if k == "given":
                    held = {str(v["at"]) for y in want["objs"] for v in y["fld"].values()}
                    free = {x for x, v in g[n][k].items() if unresolved(v) and str(v["at"]) not in held}
                    w[n][k], g[n][k] = ({x: bare(v, x in free) for x, v in y.items()} for y in (w[n][k], g[n][k]))
                if w[n][k] != g[n][k]:
                    x, y = w[n][k], g[n][k]
                    if k == "found":
                        i = [a != b for a, b in zip(x, y)].index(True)
                        return d + [("api", "%s looked up in %s: expected %s, got %s" % (c["ask"][i], n, x[i], y[i]))]
                    return d + [("api", "%s %s %s: expected %s, got %s" % (part, n, k, x, y))]
    return d


def asked(r, files):
    """Names to look up: some of those in the files, and other spellings."""
    names = sorted({n for _, t, *_ in files for n in re.findall(r"[A-Za-z_]\w*", t) if n.isascii()})
    names = r.sample(names, min(len(names), 25))
    for n in list(names):
        x = r.random()
        if x < .15:
            names.append(n.swapcase())
        elif x < .3:
            names.append(n + "_")
        elif x < .4:
            names.append(n.replace("_", "") if "_" in n else n[:1] + "_" + n[1:])
    return names + r.sample(["Integer", "integer", "Markup_String", "MarkupString", "len", "LEN", "oneof", "no_such", "String"], 3)


def asking(chk, files, **kw):
    r = random.Random(chk.rng.random())
    c = chk.case(files, **kw)
    c["ask"] = asked(r, files)
    return c


def C24(chk):
    def more(k):
        cases = []
        for _ in range(chk.scale(130, 900)):
            r = random.Random(chk.rng.random())
            files = gen.Gen(r, packages=r.choice([1, 2, 3]), types=5, objects=6, checks=1, depth=1, freeze=.6, extends=.7, abstract=.15,
                            tuples=.5, arrays=.4, unions=.3, markup=.3, refs=.4, sections=.2, wrong=0, comments=.2).program()
            if r.random() < .3:
                files = gen.respell(r, files)
            cases.append(asking(chk, files, lint=r.random() < .2))
            chk.count("programs")
        for _ in range(chk.scale(60, 500)):
            r = random.Random(chk.rng.random())
            cases.append(asking(chk, references(r)))
            for fn in (objects_of, tuple_values, array_values, applied):
                rsl, trlc = fn(r)
                trlc = trlc if trlc.startswith("package") else "package P\n" + trlc
                cases.append(asking(chk, [("a.rsl", rsl), ("a.trlc", trlc)]))
            chk.count("families of values", 5)
        chk.conform(cases, {"api", "crash"}, module="Api", judge=judge)
    rounds(chk, more)
