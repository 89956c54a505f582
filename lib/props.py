"""The checks, one function per property."""
import itertools, random
import gen, harness, impl, tlc


# ------------------------------------------------------------------- helpers

def programs(chk, n, mutants=0.0, rec=None, lint=None, chars=0.3, **kn):
    """Generated programs, a share of them broken somewhere."""
    cases = []
    for _ in range(n):
        r = random.Random(chk.rng.random())
        files = gen.Gen(r, **kn).program()
        if r.random() < mutants:
            k = r.randrange(len(files))
            if r.random() < chars:
                files[k][1] = gen.mutate_char(r, files[k][1], r.choice([1, 1, 2]))
            else:
                files[k][1] = gen.mutate(r, files[k][1], r.choice([1, 1, 1, 2, 3]))
        cases.append(chk.case(files, lint=r.random() < .5 if lint is None else lint,
                              rec=r.random() < .5 if rec is None else rec))
    return cases


def sampled(chk, xs, n):
    """At most n of xs, in their order; all of them in a thorough run."""
    xs = list(xs)
    if len(xs) <= n or chk.thorough:
        return xs
    keep = sorted(chk.rng.sample(range(len(xs)), n))
    return [xs[i] for i in keep]


def rounds(chk, fn, quick=1):
    """One round in a quick run, as many as time permits in a thorough one."""
    k = 0
    while k < quick or chk.left():
        fn(k)
        k += 1
        if chk.violations:
            break
    chk.count("rounds", k)


# ------------------------------------------------------------------ C01 names

SPELL = ["ab_c", "abc", "Abc", "AB_C", "a_b_c", "abc_", "abd", "ab_c1"]
CLASH = [  # two declarations in one scope; @ and # stand for the names
    ("enums", [("a.rsl", "package P\nenum @ { x }\nenum # { x }\n")]),
    ("literals", [("a.rsl", "package P\nenum E { @ # }\n")]),
    ("tuple and type", [("a.rsl", "package P\ntuple @ { x Integer }\ntype # { x Integer }\n")]),
    ("type and enum", [("a.rsl", "package P\ntype @ { x Integer }\nenum # { x }\n")]),
    ("types, two files", [("a.rsl", "package P\ntype @ { x Integer }\n"),
                          ("b.rsl", "package Q\ntype # { x Integer }\n")]),
    ("fields", [("a.rsl", "package P\ntuple T { @ Integer # Integer }\n")]),
    ("fields with separators", [("a.rsl", "package P\ntuple T { @ Integer separator ; # Integer }\n")]),
    ("components", [("a.rsl", "package P\ntype T { @ Integer # Integer }\n")]),
    ("inherited component", [("a.rsl", "package P\ntype T { @ Integer }\ntype U extends T { # Integer }\n")]),
    ("component inherited twice", [("a.rsl", "package P\ntype T { @ Integer }\ntype U extends T { y Integer }\n"
                                    "type V extends U { z Integer # Integer }\n")]),
    ("component inherited from a package", [
        ("a.rsl", "package P\ntype T { @ Integer }\n"),
        ("b.rsl", "package Q import P\ntype U extends P.T { # Integer }\n")]),
    ("unrelated components", [("a.rsl", "package P\ntype T { @ Integer }\ntype U { # Integer }\n")]),
    ("type and component", [("a.rsl", "package P\ntype @ { # Integer }\n")]),
    ("enumeration and literal", [("a.rsl", "package P\nenum @ { # }\n")]),
    ("package and type", [("a.rsl", "package @\ntype # { x Integer }\n")]),
    ("package and component", [("a.rsl", "package @\ntype T { # Integer }\n")]),
    ("package and literal", [("a.rsl", "package @\nenum E { # }\n")]),
    ("packages", [("a.rsl", "package @\ntype T { x Integer }\n"), ("b.rsl", "package #\ntype U { x Integer }\n")]),
    ("package and late package", [("a.rsl", "package @\ntype T { x Integer }\n"), ("b.trlc", "package #\n")]),
    ("late packages", [("a.trlc", "package @\n"), ("b.trlc", "package #\n")]),
    ("objects", [("a.rsl", "package P\ntype T { x optional Integer }\n"),
                 ("a.trlc", "package P\nT @ { }\nT # { }\n")]),
    ("objects in two files", [("a.rsl", "package P\ntype T { x optional Integer }\n"),
                              ("a.trlc", "package P\nT @ { }\n"), ("b.trlc", "package P\nT # { }\n")]),
    ("objects in sections", [("a.rsl", "package P\ntype T { x optional Integer }\n"),
                             ("a.trlc", "package P\nsection \"a\" { T @ { } }\nsection \"b\" { T # { } }\n")]),
    ("objects in two packages", [("a.rsl", "package P\ntype T { x optional Integer }\n"),
                                 ("a.trlc", "package P\nT @ { }\n"),
                                 ("b.trlc", "package Q import P\nP.T # { }\n")]),
    ("type and object", [("a.rsl", "package P\ntype @ { x optional Integer }\n"),
                         ("a.trlc", "package P\n@ # { }\n")]),
    ("imported type and object", [("a.rsl", "package P\ntype @ { x optional Integer }\n"),
                                  ("a.trlc", "package Q import P\nP.@ # { }\n")]),
    ("package and object", [("a.rsl", "package @\ntype T { x optional Integer }\n"),
                            ("a.trlc", "package @\nT # { }\n")]),
    ("imported package and object", [("a.rsl", "package @\ntype T { x optional Integer }\n"),
                                     ("a.trlc", "package Q import @\n@.T # { }\n")]),
    ("component and variable", [("a.rsl", "package P\ntype T { @ Integer y Integer [0 .. *] }\n"
                                 "checks T { (forall # in y => # > 0), \"m\" }\n")]),
    ("inherited component and variable", [
        ("a.rsl", "package P\ntype S { @ Integer }\ntype T extends S { y Integer [0 .. *] }\n"
         "checks T { (forall # in y => # > 0), \"m\" }\n")]),
    ("type and variable", [("a.rsl", "package P\ntype @ { y Integer [0 .. *] }\n"
                            "checks @ { (exists # in y => # > 0), \"m\" }\n")]),
    ("enumeration and variable", [("a.rsl", "package P\nenum @ { x }\ntype T { y Integer [0 .. *] }\n"
                                   "checks T { (exists # in y => # > 0), \"m\" }\n")]),
    ("package and variable", [("a.rsl", "package @\ntype T { y Integer [0 .. *] }\n"
                               "checks T { (forall # in y => # > 0), \"m\" }\n")]),
    ("imported package and variable", [
        ("a.rsl", "package @\ntype T { x Integer }\n"),
        ("b.rsl", "package Q import @\ntype T { y Integer [0 .. *] }\n"
         "checks T { (forall # in y => # > 0), \"m\" }\n")]),
    ("unimported package and variable", [
        ("a.rsl", "package @\ntype T { x Integer }\n"),
        ("b.rsl", "package Q\ntype T { y Integer [0 .. *] }\n"
         "checks T { (forall # in y => # > 0), \"m\" }\n")]),
    ("nested variables", [("a.rsl", "package P\ntype T { y Integer [0 .. *] z Integer [0 .. *] }\n"
                           "checks T { (forall @ in y => (exists # in z => @ > #)), \"m\" }\n")]),
    ("variables one after the other", [
        ("a.rsl", "package P\ntype T { y Integer [0 .. *] z Integer [0 .. *] }\n"
         "checks T { (forall @ in y => @ > 0) and (exists # in z => # > 1), \"m\" }\n")]),
    ("variables in two checks", [
        ("a.rsl", "package P\ntype T { y Integer [0 .. *] z Integer [0 .. *] }\n"
         "checks T { (forall @ in y => @ > 0), \"m\"\n (exists # in z => # > 1), \"n\" }\n")]),
    ("array and its variable", [("a.rsl", "package P\ntype T { @ Integer [0 .. *] }\n"
                                 "checks T { (forall # in @ => # > 0), \"m\" }\n")]),
    ("assignments", [("a.rsl", "package P\ntype T { @ Integer }\n"),
                     ("a.trlc", "package P\nT o { @ = 1 # = 2 }\n")]),
    ("freezes", [("a.rsl", "package P\ntype T { @ Integer }\ntype U extends T { freeze @ = 1 freeze # = 2 }\n")]),
]
BUILTIN = ["Integer", "integer", "In_Teger", "Decimal", "DECIMAL", "Boolean", "boolean_", "String", "string",
           "Markup_String", "MarkupString", "markup_string", "len", "Len", "startswith", "starts_with",
           "endswith", "matches", "Matches", "oneof", "one_of", "Integer2", "lens"]
BUILTIN_AT = [
    [("a.rsl", "package P\nenum @ { x }\n")],
    [("a.rsl", "package P\ntype @ { x Integer }\n")],
    [("a.rsl", "package P\ntuple @ { x Integer }\n")],
    [("a.rsl", "package @\ntype T { x Integer }\n")],
    [("a.trlc", "package @\n")],
    [("a.rsl", "package P\nenum E { @ }\n")],
    [("a.rsl", "package P\ntype T { @ Integer }\n")],
    [("a.rsl", "package P\ntuple T { @ Integer }\n")],
    [("a.rsl", "package P\ntype T { x optional Integer }\n"), ("a.trlc", "package P\nT @ { }\n")],
    [("a.rsl", "package P\ntype T { y Integer [0 .. *] }\nchecks T { (forall @ in y => @ > 0), \"m\" }\n")],
]
USE = [  # @ is declared, # is used
    [("a.rsl", "package @\ntype T { x Integer }\n"), ("b.rsl", "package Q import #\ntype U { x Integer }\n")],
    [("a.rsl", "package @\ntype T { x Integer }\n"), ("b.rsl", "package Q import @\ntype U extends #.T { }\n")],
    [("a.rsl", "package @\ntype T { x Integer }\n"), ("b.rsl", "package Q\ntype U extends #.T { }\n")],
    [("a.rsl", "package P\ntype @ { x Integer }\n"), ("b.rsl", "package Q import P\ntype U extends P.# { }\n")],
    [("a.rsl", "package P\ntype @ { x Integer }\n"), ("b.rsl", "package Q import P\ntype U extends # { }\n")],
    [("a.rsl", "package P\ntype @ { x Integer }\ntype U extends # { }\n")],
    [("a.rsl", "package P\ntype @ { x Integer }\ntype U extends P.# { }\n")],
    [("a.rsl", "package P\ntype @ { x Integer }\ntype U { y # }\n")],
    [("a.rsl", "package P\ntype @ { x Integer }\ntype U { y [#] }\n")],
    [("a.rsl", "package P\ntype @ { x Integer }\ntype U { y # [1 .. 2] }\n")],
    [("a.rsl", "package P\ntype @ { x Integer }\ntuple U { y # }\n")],
    [("a.rsl", "package P\nenum @ { x }\ntuple U { y # separator ; z # }\n")],
    [("a.rsl", "package P\ntuple @ { x Integer }\ntype U { y # }\n")],
    [("a.rsl", "package P\ntype @ { x Integer }\nchecks # { x > 0, \"m\" }\n")],
    [("a.rsl", "package P\ntuple @ { x Integer }\nchecks # { x > 0, \"m\" }\n")],
    [("a.rsl", "package P\ntype T { @ Integer }\nchecks T { @ > 0, \"m\", # }\n")],
    [("a.rsl", "package P\ntype T { @ Integer }\nchecks T { # > 0, \"m\" }\n")],
    [("a.rsl", "package P\ntype T { @ Integer }\ntype U extends T { }\nchecks U { # > 0, \"m\" }\n")],
    [("a.rsl", "package P\ntype T { @ Integer }\ntype U extends T { freeze # = 1 }\n")],
    [("a.rsl", "package P\nenum E { @ }\ntype T { x E }\nchecks T { x == E.#, \"m\" }\n")],
    [("a.rsl", "package P\nenum @ { x }\ntype T { y @ }\nchecks T { y == #.x, \"m\" }\n")],
    [("a.rsl", "package P\nenum @ { x }\n"),
     ("b.rsl", "package Q import P\ntype T { y P.@ }\nchecks T { y == P.#.x, \"m\" }\n")],
    [("a.rsl", "package @\nenum E { x }\n"),
     ("b.rsl", "package Q import @\ntype T { y @.E }\nchecks T { y == #.E.x, \"m\" }\n")],
    [("a.rsl", "package P\ntuple U { @ Integer }\ntype T { x U }\nchecks T { x.# > 0, \"m\" }\n")],
    [("a.rsl", "package P\ntype U { @ Integer }\ntype T { x U }\nchecks T { x.# > 0, \"m\" }\n")],
    [("a.rsl", "package P\ntype U { @ Integer }\ntype T { x [U] }\nchecks T { x.# > 0, \"m\" }\n")],
    [("a.rsl", "package P\ntype T { y Integer [0 .. *] }\nchecks T { (forall @ in y => # > 0), \"m\" }\n")],
    [("a.rsl", "package P\ntype T { @ Integer [0 .. *] }\nchecks T { (forall v in # => v > 0), \"m\" }\n")],
    [("a.rsl", "package P\ntype T { y Integer [0 .. *] }\n"
      "checks T { (forall @ in y => @ > 0) or # > 1, \"m\" }\n")],
    [("a.rsl", "package P\ntype @ { x Integer }\n"), ("a.trlc", "package P\n# o { x = 1 }\n")],
    [("a.rsl", "package P\ntype @ { x Integer }\n"), ("a.trlc", "package Q import P\nP.# o { x = 1 }\n")],
    [("a.rsl", "package @\ntype T { x Integer }\n"), ("a.trlc", "package Q import @\n#.T o { x = 1 }\n")],
    [("a.rsl", "package @\ntype T { x Integer }\n"), ("a.trlc", "package Q import #\n@.T o { x = 1 }\n")],
    [("a.rsl", "package @\ntype T { x Integer }\n"), ("a.trlc", "package #\nT o { x = 1 }\n")],
    [("a.rsl", "package P\ntype T { @ Integer }\n"), ("a.trlc", "package P\nT o { # = 1 }\n")],
    [("a.rsl", "package P\ntype S { @ Integer }\ntype T extends S { }\n"),
     ("a.trlc", "package P\nT o { # = 1 }\n")],
    [("a.rsl", "package P\nenum E { @ }\ntype T { x E }\n"), ("a.trlc", "package P\nT o { x = E.# }\n")],
    [("a.rsl", "package P\nenum @ { x }\ntype T { x @ }\n"), ("a.trlc", "package P\nT o { x = #.x }\n")],
    [("a.rsl", "package P\ntype T { x optional T }\n"), ("a.trlc", "package P\nT @ { }\nT o { x = # }\n")],
    [("a.rsl", "package P\ntype T { x optional T }\n"), ("a.trlc", "package P\nT o { x = # }\nT @ { }\n")],
    [("a.rsl", "package P\ntype T { x optional T }\n"), ("a.trlc", "package P\nT @ { }\n"),
     ("b.trlc", "package Q import P\nP.T o { x = P.# }\n")],
    [("a.rsl", "package P\ntype T { x optional T }\n"), ("a.trlc", "package P\nT @ { }\n"),
     ("b.trlc", "package Q import P\nP.T o { x = # }\n")],
    [("a.rsl", "package P\ntype T { x optional Markup_String }\n"),
     ("a.trlc", "package P\nT @ { }\nT o { x = \"see [[#]]\" }\n")],
    [("a.rsl", "package P\ntype T { x optional Markup_String }\n"), ("a.trlc", "package P\nT @ { }\n"),
     ("b.trlc", "package Q import P\nP.T o { x = \"see [[P.#]]\" }\n")],
    [("a.rsl", "package @\ntype T { x optional Markup_String }\n"), ("a.trlc", "package @\nT p { }\n"),
     ("b.trlc", "package Q import @\n@.T o { x = \"see [[#.p]]\" }\n")],
    [("a.rsl", "package @\ntype T { x optional T }\n"), ("a.trlc", "package @\nT p { }\n"),
     ("b.trlc", "package Q import @\n@.T o { x = #.p }\n")],
]
BUILTIN_USE = [
    [("a.rsl", "package P\ntype T { x # }\n")],
    [("a.rsl", "package P\ntuple T { x # }\n")],
    [("a.rsl", "package P\ntype T { x String }\nchecks T { #(x), \"m\" }\n")],
    [("a.rsl", "package P\ntype T { x String }\nchecks T { #(x) > 0, \"m\" }\n")],
    [("a.rsl", "package P\ntype T { x String }\nchecks T { #(x, \"a\"), \"m\" }\n")],
    [("a.rsl", "package P\ntype T { x Integer }\nchecks T { #(x) == x, \"m\" }\n")],
    [("a.rsl", "package P\ntype T { x Integer }\nchecks T { # == x, \"m\" }\n")],
    [("a.rsl", "package P\ntype T extends # { x Integer }\n")],
    [("a.rsl", "package P\ntype T { x [#] }\n")],
    [("a.rsl", "package P\nimport #\ntype T { x Integer }\n")],
    [("a.rsl", "package P\nchecks # { true, \"m\" }\n")],
    [("a.rsl", "package P\ntype T { x Integer }\n"), ("a.trlc", "package P\n# o { x = 1 }\n")],
    [("a.rsl", "package P\ntype T { x optional T }\n"), ("a.trlc", "package P\nT o { x = # }\n")],
    [("a.rsl", "package P\ntype T { x Markup_String }\n"), ("a.trlc", "package P\nT o { x = \"[[#]]\" }\n")],
]


def fill(files, a, b=""):
    return [(n, t.replace("@", a).replace("#", b)) for n, t in files]


def spelling(r, base=None):
    """A name, or another one that is equal (or nearly) up to case and underscores."""
    if base is None:
        base = "".join(r.choice("abcdxyz") if not i or r.random() < .7 else r.choice("0123456789")
                       for i in range(r.randint(1, 14)))
    else:
        base = base.replace("_", "")
        k = r.random()
        if k < .3:
            i = r.randrange(len(base))
            base = base[:i] + r.choice(["", base[i] * 2, "q", "9"]) + base[i + 1:]
            if not base or not base[0].isalpha():
                base = "x" + base
    dens, up = r.choice([0, .2, .6]), r.choice([0, 0, .3, 1])
    return "".join(c.upper() if r.random() < up else c.lower() for c in base[:1]) + "".join(
        "_" * (r.random() < dens) * r.choice([1, 1, 1, 2, 3]) + (c.upper() if r.random() < up else c.lower())
        for c in base[1:]) + "_" * (r.random() < dens / 3)


def C01(chk):
    cases = []
    for label, files in CLASH:
        for a, b in itertools.product(SPELL[:5], SPELL) if chk.thorough else \
                [("ab_c", b) for b in SPELL] + [("Abc", "ab_c"), ("abc", "AB_C")]:
            if a in ("abc_",):
                continue
            fs = fill(files, a, b)
            cases.append(chk.case(fs))
            chk.count("clash pairs")
            if label == "types, two files":
                cases.append(chk.case([(n, t.replace("package Q", "package P")) for n, t in fs]))
    for files in BUILTIN_AT:
        for b in BUILTIN:
            cases.append(chk.case(fill(files, b)))
            chk.count("builtin clashes")
    for files in USE:
        for b in SPELL[:7]:
            cases.append(chk.case(fill(files, "ab_c", b)))
            chk.count("uses")
    for files in BUILTIN_USE:
        for b in BUILTIN[:-2]:
            cases.append(chk.case(fill(files, "", b)))
            chk.count("uses of builtins")

    def more(k):
        new = []
        for _ in range(chk.scale(250, 1200)):
            r = random.Random(chk.rng.random())
            files, b = r.choice([(r.choice(CLASH)[1], None)] * 3 + [(r.choice(USE), None)] * 2 +
                                [(r.choice(BUILTIN_AT), 1), (r.choice(BUILTIN_USE), 2)])
            a = spelling(r) if b is None else spelling(r, r.choice(BUILTIN))
            new.append(chk.case(fill(files, a, spelling(r, a)) if b is None else fill(files, a, a)))
            chk.count("longer names")
        for _ in range(chk.scale(100, 600)):
            r = random.Random(chk.rng.random())
            files = gen.Gen(r, types=5, checks=1, depth=1, warn=1.0).program()
            for _ in range(r.choice([1, 1, 2])):
                files = gen.respell(r, files)
            new.append(chk.case(files, rec=r.random() < .5))
        chk.conform((cases if k == 0 else []) + new)
    rounds(chk, more)


# ---------------------------------------------------------------- C02 imports

def import_case(chk, r, n=3, faults=0.15, anyorder=True):
    """Packages with types, models and requirements importing each other."""
    # some names begin with others
    names = r.choice([["Pa", "Qb", "Rc", "Sd"], ["Pa", "Pab", "Qb", "P"], ["Pab", "Pa", "Pab_c", "B"],
                      ["Qb", "Q", "Pa", "Pab"]])[:n]
    dens = r.choice([0.15, 0.3, 0.5])
    files = []
    imp = {p: [q for q in names if q != p and r.random() < dens] for p in names}
    if r.random() < 0.6:                          # acyclic
        order = names[:]
        r.shuffle(order)
        for k, p in enumerate(order):
            imp[p] = [q for q in imp[p] if order.index(q) < k]
    model = {p: r.random() < 0.85 for p in names}
    split = r.random() < 0.5
    prim = (lambda: r.random() < 0.5) if split else (lambda: True)
    pre = r.sample(list("abcdefghijkmnopq"), 16)
    fresh = iter(pre)

    def head(p, qs):
        qs = list(qs)
        if r.random() < faults * 0.3:
            qs.append(p)
        if r.random() < faults * 0.3:
            qs.append("Nowhere")
        if qs and r.random() < faults * 0.5:
            qs.append(qs[0])
        return "package %s\n%s" % (p, "".join("import %s\n" % q for q in qs))
    for p in names:
        if not model[p]:
            continue
        q = [x for x in imp[p] if model[x]]
        body = "type T%s { x optional Integer" % p
        body += "".join(" r%s optional %s.T%s" % (x.lower(), x, x) for x in q)
        body += " }\n"
        if q and r.random() < 0.5:
            body += "type U%s extends %s.T%s { freeze x = %d }\n" % (p, q[0], q[0], r.randint(0, 3))
        if r.random() < 0.5:
            body += "checks T%s { x == null or x > %d, warning \"w%s\" }\n" % (p, r.randint(0, 2), p)
        if r.random() < faults * 0.6:
            body += r.choice(["type V { y Unknown }\n", "enum E { }\n", "type T%s { }\n" % p,
                              "type W { y %s.T%s z %s.T%s }\n" % (names[0], names[0], names[1], names[1]), "$\n"])
        files.append((next(fresh) + ".rsl", head(p, imp[p]) + body, prim()))
        if r.random() < 0.25:
            q2 = [x for x in q if r.random() < 0.5]
            body = "enum More%s { x }\n" % p
            if q2 and r.random() < 0.5:
                body += "type X%s extends %s.T%s { }\n" % (p, q2[0], q2[0])
            files.append((next(fresh) + ".rsl", head(p, q2) + body, prim()))
    objs = {p: ["o%s%d" % (p.lower(), k) for k in range(2)] for p in names}
    for p in names:
        # in one file, or each object in one of its own that imports something else
        left = list(objs[p])
        while left and (r.random() < 0.75 or not model[p]):
            mine = [left.pop(0) for _ in range(r.choice([1, 2, 2]) if len(left) > 1 else 1)]
            q = [x for x in names if x != p and r.random() < dens + 0.1]
            body = ""
            for o in mine[:r.randint(0, 2)]:
                ts = [x for x in q + [p] if model[x]]
                if not ts:
                    continue
                t = r.choice(ts)
                val = "x = %d" % r.randint(0, 3) if r.random() < 0.7 else ""
                ref = [x for x in imp[t] if model[x] and (x in q or x == p)]
                if ref and r.random() < 0.6:
                    x = r.choice(ref)
                    tgt = r.choice([y for y in q + [p]])
                    o2 = r.choice(objs[tgt])
                    val += " r%s = %s" % (x.lower(), o2 if tgt == p else tgt + "." + o2)
                body += "%sT%s %s { %s }\n" % ("" if t == p else t + ".", t, o, val)
            if r.random() < faults * 0.4:
                body += r.choice(["Tz z { }\n", "}", "T", "$", "%s.T%s zz { x = 1 }\n" % (names[0], names[0])])
            files.append((next(fresh) + ".trlc", head(p, q) + body, prim()))
    if not any(f[2] for f in files):
        files = [(f[0], f[1], True) for f in files]
    return chk.case(files, rec=r.random() < 0.5, lint=r.random() < 0.3,
                    trlc=r.random() < 0.9, any=anyorder)


GRAPH_T = {"A": "package A\n%stype TA { x Integer%s }\n", "B": "package B\n%stype TB { x Integer%s }\n",
           "C": "package C\n%stype TC { x Integer%s }\n"}


def all_graphs(chk):
    """Every import relation of three models, and of a requirement file."""
    edges = [(p, q) for p in "ABC" for q in "ABC"]
    for mask in range(1 << len(edges)):
        es = [e for k, e in enumerate(edges) if mask >> k & 1]
        loops = sum(p == q for p, q in es)
        if loops > 1:
            continue
        files = []
        for n, p in zip("xyz", "CAB"):
            out = [q for (a, q) in es if a == p]
            files.append((n + ".rsl", GRAPH_T[p] % ("".join("import %s\n" % q for q in out), "".join(
                " r%s optional %s.T%s" % (q.lower(), q, q) for q in out if q != p)), True))
        yield mask, files


def orders(c):
    """The same case registered in other orders."""
    r = random.Random(c["id"])
    for _ in range(2):
        fs = list(c["files"])
        r.shuffle(fs)
        yield dict(c, order=fs)


def C02(chk):
    cases = []
    graphs = list(all_graphs(chk))
    for mask, files in sampled(chk, graphs, 150):
        cases.append(chk.case(files, rec=bool(mask & 1), any=True))
        chk.count("import relations of three models")
    # only what is reachable from one primary file is read
    for mask, files in sampled(chk, graphs, 60):
        k = mask % 3
        cases.append(chk.case([(n, t + ("" if j == k else "enum Bad%s { }\n" % n), j == k)
                               for j, (n, t, _) in enumerate(files)], rec=bool(mask & 1), any=True))
        chk.count("one primary file, the others faulty")

    def more(k):
        new = [import_case(chk, random.Random(chk.rng.random())) for _ in range(chk.scale(220, 1500))]
        new += [import_case(chk, random.Random(chk.rng.random()), n=4, anyorder=False)
                for _ in range(chk.scale(60, 500))]
        rows = chk.conform((cases if k == 0 else []) + new, variants=orders)
        confluent(chk, rows)
    rounds(chk, more)


def confluent(chk, rows):
    """The order in which models are read must not matter: all behaviours of
    the specification for one input end alike."""
    for c, exp, _ in rows:
        if len(exp) < 2:
            continue
        ends = set()
        for e in exp:
            ends.add((e["res"], tuple(sorted((m[:6] for m in impl.spec_messages(c, e)), key=str)),
                      tuple(str(o["n"]) for o in e["objs"])))
        chk.count("inputs with several orders")
        if len(ends) > 1:
            chk.count("inputs whose diagnostics depend on the order")
            if len({x[0] for x in ends}) > 1:
                chk.notes.append("verdict depends on the order of models: case %s" % c["id"])


# ------------------------------------------------------------------ C03 tokens

LEX_ALPHA = ".=>!*/\"'\\01bxa_ \n-"
LEX_PIECES = (["0b", "0x", "1", "0", "_", ".", "..", "1.5", "0b1", "0xF", "f", "b", "e", "g", "a", "Z9", "=", "==",
               "=>", ">", "<", ">=", "<=", "!", "!=", "*", "**", "/", "//", "/*", "*/", "%", "+", "-", "(", ")", "[",
               "]", "{", "}", ",", "@", ":", ";", "\"", "\\\"", "\\", "\"\"\"", "'''", "'", "\n", " ", "\t", "\r",
               "\u00e9", "\u2028", "\u00a0", "\x0b", "#", "$", "package", "Package", "types", "type", "_x", "x_",
               "\U0001f600", "\u0661", "\u00b2", "\u00aa"])


def lex(chk, texts):
    texts = list(texts)
    rows = [dict(id=i + 1, text=tlc.codes(t)) for i, t in enumerate(texts)]
    outs, res = tlc.by_id(tlc.run_rows(rows, "LexRun"))
    chk.states += res.distinct
    chk.transitions += res.states - 1
    obs = harness.parallel(impl.observe_lex, texts)
    for i, t in enumerate(texts):
        exp = outs[i + 1][0]
        o = obs[i]
        chk.traces += 1
        chk.count("lexical error" if exp["toks"] and exp["toks"][-1]["k"] == "ERR" else "lexed", 1)
        chk.count("tokens", len(exp["toks"]))
        d = impl.compare_lex(t, exp, o)
        if d:
            chk.violation("%r: %s" % (t[:200], d), {"text": t, "expected": exp, "observed": o})
    if texts:
        chk.sample({"text": texts[-1], "tokens": [[x["k"], x["l"], x["c"]] for x in outs[len(texts)][0]["toks"]]})


def lexical_texts(r, n):
    for _ in range(n):
        x = r.random()
        if x < 0.6:
            yield "".join(r.choice(LEX_PIECES) for _ in range(r.randint(2, 9)))
        elif x < 0.75:
            yield "".join(r.choice("\"'\\ \nab*/") for _ in range(r.randint(3, 14)))
        elif x < 0.85:
            q = r.choice("\"'")
            yield q * 3 + "".join(r.choice([q, q, "\\", "\\", "\n", "a", "'", "\"\""]) for _ in range(r.randint(0, 9))) + \
                q * r.choice([0, 2, 3, 3, 3]) + r.choice(["", "", "a", q])
        else:
            t = gen.Gen(r, packages=1, types=1, checks=1, depth=2, weird=0.5, comments=0.4).program()[0][1]
            yield gen.mutate_char(r, t, r.randint(0, 3))


def C03(chk):
    texts = [""] + ["".join(t) for n in range(1, chk.scale(3, 4) + 1) for t in itertools.product(LEX_ALPHA, repeat=n)]
    chk.count("texts up to length %d over %d characters" % (chk.scale(3, 4), len(LEX_ALPHA)), len(texts))
    texts += [p + q for p in LEX_PIECES for q in LEX_PIECES]
    texts += [chr(c) + "a" for c in list(range(0, 0x250)) + [0x1680, 0x2000, 0x200a, 0x200b, 0x2028, 0x2029, 0x202f,
                                                            0x205f, 0x3000, 0xfeff, 0x660, 0x2160, 0x10000]
              if c != 13]
    texts += ["a" + chr(c) for c in range(0, 0x250)] + ["1" + chr(c) for c in range(0, 0x250)]

    def more(k):
        lex(chk, (texts if k == 0 else []) + list(lexical_texts(chk.rng, chk.scale(1500, 15000))))
    rounds(chk, more)
    # the same in files: the first error, and nothing is skipped
    cases = []
    for _ in range(chk.scale(60, 400)):
        r = random.Random(chk.rng.random())
        files = gen.Gen(r, packages=1, types=2, checks=1, depth=1).program()
        k = r.randrange(len(files))
        files[k][1] = gen.mutate_char(r, files[k][1], 1)
        cases.append(chk.case(files))
    chk.conform(cases)


# --------------------------------------------------------------- C04 literals

def digits(r, v, base, sep=0.3):
    s = {2: "{:b}", 10: "{:d}", 16: r.choice(["{:x}", "{:X}"])}[base].format(v)
    if r.random() < 0.2:
        s = "0" * r.randint(1, 4) + s
    out = s[0]
    for ch in s[1:]:
        out += ("_" if r.random() < sep * 0.5 else "") + ch
    return out


INTS = [0, 1, 2, 7, 8, 9, 10, 15, 16, 255, 256, 999, 1000, 9999, 10000, 10001, 65535, 99999999, 100000000,
        2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 53 - 1, 2 ** 53, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64, 2 ** 64 + 1,
        10 ** 17 + 1, 10 ** 30 + 7, 3 ** 80]


def some_int(r):
    x = r.random()
    return r.randint(0, 20) if x < 0.4 else r.choice(INTS) if x < 0.8 else r.randrange(10 ** r.randint(1, 60))


def int_literal(r):
    base = r.choice([2, 10, 10, 16])
    return {2: "0b", 10: "", 16: "0x"}[base] + digits(r, some_int(r), base)


def dec_literal(r):
    x = r.random()
    frac = digits(r, r.randrange(10 ** r.randint(1, 25)), 10) if x < 0.4 else \
        r.choice(["0", "5", "1", "25", "10", "000", "001", "100000000000000000001", "3_3", "0_5", "999999999999"])
    return digits(r, some_int(r), 10) + "." + frac


WORDS = ["a", "b c", "foo", "", "\\", "\\n", "'", "''", "\u00e9", "\u4e2d", "\U0001f600", "//", "/* */", "[[", "x\ty",
         "\\\\", "%d", "{}", "\u00a0", "\u2003w", "\x1f", "Z."]
ENDS = ["\n", "\n", "\n", "\n", "\n\n", "\r\n", "\u2028", "\x0b", "\x1c", "\x85", " \n", "\t\n"]


def str_literal(r, plain=False):
    if plain or r.random() < 0.4:
        return '"%s"' % "".join(r.choice(WORDS + ['\\"', '\\"', " "]).replace("\n", "")
                                for _ in range(r.randint(0, 4))).rstrip("\\")
    q = r.choice(['"' * 3, "'" * 3])
    pads = r.choice([["  "], ["    ", "    ", "      "], ["\t"], ["  ", "\t"], ["", "  "], [" ", "  ", "   "],
                     ["\u00a0 "], ["  ", ""]])
    body = r.choice(["", " ", "\n", "\n\n", " \n ", "\t"])
    for k in range(r.randint(0, 4)):
        body += (r.choice(pads) if k or body.endswith("\n") else "") + \
            r.choice(WORDS[:4] + WORDS).replace(q[0], "") + r.choice(["", "", " ", "  \t"]) + r.choice(ENDS)
    body += r.choice(["", "end", "  ", "\n  "])
    if r.random() < 0.1:
        body += r.choice(['\\"', q[0] + "x", q[:2] + "x"])
    return q + body + q


def literal_case(chk, r):
    """Literals wherever they may stand."""
    i, d, s = (lambda: int_literal(r)), (lambda: dec_literal(r)), (lambda: str_literal(r))
    sg = lambda: r.choice(["", "", "-", "+", "- "])
    rsl = "package P\ntuple Pair %s { p Integer q Decimal }\n" % str_literal(r, r.random() < .5)
    rsl += "tuple Sep { p Integer separator ; q optional Decimal }\n"
    rsl += "enum E { a %s b }\n" % s()
    rsl += ("type T %s {\n i %s optional Integer\n d optional Decimal\n ai optional Integer [0 .. %s]\n"
            " ad optional Decimal [0 .. *]\n s optional String\n m optional Markup_String\n"
            " t optional Pair\n u optional Sep\n as optional String [0 .. 3]\n}\n") % (s(), s(), int_literal(r) + "0")
    if r.random() < 0.4:
        rsl += "type F extends T { freeze i = %s%s freeze d = %s%s freeze s = %s freeze t = (%s%s, %s%s) }\n" % (
            sg(), i(), sg(), d(), s(), sg(), i(), sg(), d())
    if r.random() < 0.5:
        rsl += "checks T { i == null or i %s %s, warning %s, %s, i\n d == null or d %s %s, warning \"d\"\n" \
               "s == null or s != %s, warning \"s\" }\n" % (
                   r.choice(["<", "==", ">="]), i(), str_literal(r, True), s(), r.choice(["<", "==", ">="]), d(), s())
    trlc = "package P\n"
    for k in range(r.randint(1, 3)):
        nested = r.random() < 0.4
        if nested:
            trlc += "section %s {\n" % s()
        fs = [f for f in ("i = %s%s" % (sg(), i()), "d = %s%s" % (sg(), d()),
                          "ai = [%s]" % ", ".join(sg() + i() for _ in range(r.randint(0, 3))),
                          "ad = [%s]" % ", ".join(sg() + d() for _ in range(r.randint(0, 3))),
                          "s = %s" % s(), "m = %s" % s().replace("[[", "").replace("]]", ""),
                          "t = (%s%s, %s%s)" % (sg(), i(), sg(), d()),
                          "u = %s%s%s" % (sg(), i(), r.choice(["", ";" + sg() + d()])),
                          "as = [%s]" % ", ".join(s() for _ in range(r.randint(0, 3))))
              if r.random() < 0.5]
        trlc += "T o%d {\n %s\n}\n" % (k, "\n ".join(fs)) + "}\n" * nested
    if "type F" in rsl:
        trlc += "F of { }\n"
    return chk.case([("a.rsl", rsl), ("a.trlc", trlc)], rec=False)


def numerals(chk):
    for n in (1, 2, 3):
        for t in itertools.product("019_.bxA", repeat=n):
            yield "".join(t)
    for t in sampled(chk, itertools.product("019_.bxA", repeat=4), 1200):
        yield "".join(t)
    for n in (1, 2, 3):
        for t in itertools.product("01_2", repeat=n):
            yield "0b" + "".join(t)
        for t in itertools.product("0_fFg", repeat=n):
            yield "0x" + "".join(t)
        for t in itertools.product("07_", repeat=n):
            for u in ("1", "0_1", "50", "_", ""):
                yield "".join(t) + "." + u


def strings(chk):
    for q in ('"' * 3, "'" * 3):
        for n in range(0, 5):
            for t in itertools.product("a \n\t", repeat=n):
                yield q + "".join(t) + q
        for t in sampled(chk, itertools.product("a \n\t", repeat=6), 700):
            yield q + "".join(t) + q
        for n in range(0, 5):
            for t in itertools.product("a\"'\\", repeat=n):
                yield q + "".join(t) + q
    for n in range(0, 5):
        for t in itertools.product("a\\\"'n", repeat=n):
            yield '"' + "".join(t) + '"'
    for e in ENDS + ["\r"]:
        for p in ("", " ", "\t"):
            yield '"""a%s%s b%s%sc """' % (e, p, e, p)
            yield "'''%s%sa%s%s b%s%sc '''" % (e, p, e, p, e, p)


def C04(chk):
    lex(chk, list(numerals(chk)) + list(strings(chk)))

    def more(k):
        r = chk.rng
        lits = [f(r) for f in (int_literal, dec_literal, str_literal, str_literal) for _ in range(chk.scale(250, 4000))]
        lex(chk, lits)
        chk.conform([literal_case(chk, random.Random(r.random())) for _ in range(chk.scale(500, 4000))])
    rounds(chk, more)


def generic(chk):
    chk.conform(programs(chk, chk.scale(150, 1500), mutants=0.4))


for _i in range(1, 22):
    globals().setdefault("C%02d" % _i, generic)

from props_types import C05, C06, C07, C08   # noqa: E402
from props_expr import C09, C10, C11, C12    # noqa: E402
from props_run import C13, C14, C15, C16, C20, C26             # noqa: E402
from props_verify import C17               # noqa: E402
from props_misc import C18, C21               # noqa: E402
from props_grammar import C19                 # noqa: E402
from props_rst import C22                     # noqa: E402
from props_shown import C23                   # noqa: E402
from props_api import C24                     # noqa: E402
from props_docs import C25                     # noqa: E402
from props_example import C27                  # noqa: E402
from props_said import C28                     # noqa: E402
