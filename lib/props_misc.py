"""C18: objects and sections; C21: lint findings."""
import itertools, random
import gen, impl


# ---------------------------------------------------------------- C18 sections

TITLES = ['"a"', '"b"', '"a"', '""', '"a b"', "'''a'''", '"say \\"a\\""', '"A"']
MODEL = "package P\ntype T { x optional Integer r optional T }\nabstract type A { y optional Integer }\ntype U extends A { }\n"


def words(depth, secs, objs):
    """All ways to write so many objects and sections, as strings of < > o."""
    def go(open_, s, o, d):
        if not open_ and not s and not o:
            yield ""
        if s and d < depth:
            for w in go(open_ + 1, s - 1, o, d + 1):
                yield "<" + w
        if o:
            for w in go(open_, s, o - 1, d):
                yield "o" + w
        if open_:
            for w in go(open_ - 1, s, o, d - 1):
                yield ">" + w
    return go(0, secs, objs, 0)


def spell(word, titles, name="o", types=("T",), at=None):
    """The text of a word."""
    at = at or [0, 0]
    out = []
    for ch in word:
        if ch == "<":
            out.append("section %s {" % titles[at[1] % len(titles)])
            at[1] += 1
        elif ch == ">":
            out.append("}")
        else:
            out.append("%s %s%d { }" % (types[at[0] % len(types)], name, at[0]))
            at[0] += 1
    return "\n".join(out) + "\n"


def section_files(r):
    """Objects in sections over packages, files and files of a package."""
    n = r.randint(1, 3)
    names = r.sample(["P", "Q", "A0", "Zz", "m_p"], n)
    files = []
    late = n > 1 and r.random() < .4
    for i, p in enumerate(names):
        if not (late and i == n - 1):
            files.append(("%s.rsl" % p.lower(), MODEL.replace("package P", "package " + p)))
    k = 0
    for _ in range(r.randint(1, 5)):
        i = r.randrange(n)
        imports = [q for j, q in enumerate(names) if j != i and not (late and j == n - 1) and (late and i == n - 1 or r.random() < .5)]
        types = [q + ".T" for q in imports] + [q + ".U" for q in imports]
        if not (late and i == n - 1):
            types += ["T", "U"]
        k += 1
        w = "".join(r.choice("<o>") for _ in range(r.randint(0, 12)))
        out, d = "", 0
        for ch in w:
            if ch == ">" and d == 0:
                continue
            d += {"<": 1, ">": -1, "o": 0}[ch]
            out += ch
        r.shuffle(types)
        ts = [r.choice(TITLES) for _ in range(4)]
        files.append(("%s%d.trlc" % (r.choice("abcxyz"), k), "package %s\n%s\n%s" % (
            names[i], "".join("import %s\n" % q for q in imports), spell(out + ">" * d, ts, "o%d_" % k, types))))
    r.shuffle(files)
    return files


def C18(chk):
    import props
    cases = []
    shapes = [(s, o) for s in range(4) for o in range(4)] + [(4, 1), (4, 2), (1, 4)]
    if chk.thorough:
        shapes += [(4, 3), (3, 4), (5, 1), (5, 2), (2, 5)]
    for s, o in shapes:
        for w in words(9, s, o):
            chk.count("section shapes")
            for t in (['"a"'], ['"a"', '"b"']) if s and chk.thorough else ([['"a"'], ['"a"', '"b"']][len(cases) % 2],):
                cases.append([("a.rsl", MODEL), ("a.trlc", "package P\n" + spell(w, t))])
    # several shapes share a case: each in a file of its own
    packed = []
    for i in range(0, len(cases), 4):
        files = [("a.rsl", MODEL)]
        for k, fs in enumerate(cases[i:i + 4]):
            files.append(("%s%d.trlc" % ("dbca"[k], k), fs[1][1].replace(" o", " o%d_" % k)))
        packed.append(chk.case(files))
    kinds = ["objects", "sections", "walk", "crash", "result"]
    chk.conform(packed, kinds)

    def more(k):
        rs = [random.Random(chk.rng.random()) for _ in range(chk.scale(250, 1500))]
        cases = [chk.case(section_files(r)) for r in rs]
        orders = {c["id"]: r for c, r in zip(cases, rs)}

        def variants(c):                     # the order of registration
            fs = list(c["files"])
            orders[c["id"]].shuffle(fs)
            yield dict(c, order=fs)
            yield dict(c, lint=True)
        chk.conform(cases, kinds, variants=variants)
        chk.conform(props.programs(chk, chk.scale(50, 400), sections=.9, objects=6, types=3, checks=1), kinds)
    props.rounds(chk, more)


# -------------------------------------------------------------------- C21 lint

def tuples():
    ts = ["Integer", "Decimal", "String", "Boolean", "E", "T0"]
    for s in ("x", "b", "@", ";", "X", "bx", "x1"):
        for a, b in itertools.product(ts, ts):
            yield ["%s separator %s # %s" % (a, s, b)]
    for a, b, c in itertools.product(["Integer", "Decimal", "E"], repeat=3):
        for s, t in itertools.product("xb@", repeat=2):
            yield ["%s separator %s # %s separator %s # %s" % (a, s, b, t, c)]
    for s in itertools.product("xb:", repeat=3):
        yield ["Integer separator %s # Integer separator %s # optional Integer separator %s # optional Integer" % s]


def tuple_models(chk, per):
    """Tuple declarations, some in each file."""
    bodies = [b[0] for b in tuples()]
    if not chk.thorough:
        bodies = chk.rng.sample(bodies, 320)
    for i in range(0, len(bodies), per):
        txt = "package P\nenum E { x b }\ntype T0 { v Integer }\n"
        for k, b in enumerate(bodies[i:i + per]):
            parts = b.split("#")
            txt += "tuple Q%d {\n%s }\n" % (k, " ".join("f%d%s" % (j, (" " if not p.startswith(" ") else "") + p)
                                                        for j, p in enumerate(parts)))
        yield [("a.rsl", txt)]


def array_models():
    bounds = ["%d .. %s" % (a, b) for a in (0, 1, 2, 3) for b in (0, 1, 2, 3, 10, "*")]
    for el in ("Integer", "String", "E", "Tu", "R", "[R, S]", "[R]", "Q.R"):
        txt = "package P import Q\nenum E { x }\ntuple Tu { v Integer }\ntype R { }\ntype S { }\ntype T {\n"
        for i, b in enumerate(bounds):
            txt += "  a%d %s%s [%s]\n" % (i, "optional " if i % 3 == 0 else "", el, b)
        txt += "}\ntype U extends T { z %s [0 .. 1] }\n" % el
        yield [("a.rsl", txt), ("q.rsl", "package Q\ntype R { }\n")]
    yield [("a.rsl", "package P\ntype T {\n%s}\n" % "".join(" a%d Integer [0x%x .. 0b%s]\n" % (i, i, bin(i * 7 % 3)[2:])
                                                            for i in range(6)))]


def hierarchies(chk):
    """Types that extend one another, abstract, final or neither."""
    for n in (1, 2, 3, 4):
        for pars in itertools.product(*[range(-1, i) for i in range(n)]):
            flags = list(itertools.product(["", "abstract ", "final "], repeat=n))
            if n == 4 and not chk.thorough:
                flags = chk.rng.sample(flags, 10)
            for fl in flags:
                yield pars, fl


def hierarchy_model(r, some):
    """Several hierarchies, over one or two packages."""
    a, b = "package P\n", "package Q import P\n"
    for k, (pars, fl) in enumerate(some):
        split = r.random() < .4
        cut = r.randrange(1, len(pars) + 1) if split else len(pars)
        for i, (p, f) in enumerate(zip(pars, fl)):
            inb = i >= cut
            par = "" if p < 0 else " extends %sH%d_%d" % ("P." if inb and p < cut else "", k, p)
            t = "%stype H%d_%d%s {%s}\n" % (f, k, i, par, " v%d Integer " % i if r.random() < .2 else " ")
            if inb:
                b += t
            else:
                a += t
    return [("a.rsl", a), ("b.rsl", b)] if "type" in b else [("a.rsl", a)]


def union_models(chk):
    ms = ["A", "B", "C", "D", "Q.E"]
    sets = [c for n in (1, 2, 3, 4) for c in itertools.permutations(ms, n)]
    if not chk.thorough:
        sets = chk.rng.sample(sets, 70)
    fields = ["a", "b", "c", "d", "e", "m"]
    head = ("package P import Q\ntype A { a Integer m Integer }\ntype B extends A { b Integer }\n"
            "type C extends B { c optional Integer }\ntype D { d Integer m Integer }\n")
    for i in range(0, len(sets), 6):
        txt = head
        for k, s in enumerate(sets[i:i + 6]):
            txt += "type T%d {\n  u [%s]\n  o optional [%s]\n  l [%s] [0 .. 2]\n}\n" % (k, ", ".join(s), ", ".join(s), ", ".join(s))
            txt += "tuple V%d { w [%s] }\n" % (k, ", ".join(s))
            own = {"A": "am", "B": "abm", "C": "abcm", "D": "dm", "Q.E": "em"}
            good = sorted(set("".join(own[x] for x in s)))
            for f in good:
                txt += "checks T%d {\n  u.%s > 0, warning \"m\"\n  o != null implies o.%s == 1, \"m\"\n" % (k, f, f)
                txt += "  (forall x in l => x.%s > 0), \"n\"\n}\n" % f
        yield [("a.rsl", txt), ("q.rsl", "package Q\ntype E { e Integer m Integer }\n")]


USES = [
    ("a.rsl", "type T { x # }\n"), ("a.rsl", "type T extends # { }\n"), ("a.rsl", "type T { x [#] }\n"),
    ("a.rsl", "type T { x #  [2 .. 3] }\n"), ("a.rsl", "tuple T { x # }\n"), ("a.rsl", "type T { x Q.E }\nchecks T { x == Q.E.l, \"m\" }\n"),
    ("a.rsl", "type T { x String }\nchecks T { x == \"Q\", \"Q\" }\n"), ("a.rsl", "type T \"Q\" { x \"Q.R\" Integer }\n"),
    ("a.rsl", "// Q.R\ntype T { x Integer }\n"), ("a.rsl", "type T { x Integer }\n/* Q */\n"), ("a.rsl", ""),
    ("a.rsl", "type T extends Q.F { freeze e = Q.E.l }\n"), ("a.rsl", "type T extends Q.G { freeze y = \"[[Q.o]]\" }\n"),
    ("a.trlc", "Q.G o { y = \"\" }\n"), ("a.trlc", "N.H o { r = Q.o }\n"), ("a.trlc", "N.H o { y = \"see [[Q.o]]\" }\n"),
    ("a.trlc", "N.H o { y = \"see Q.o and [Q.o] \" }\n"), ("a.trlc", "section \"Q\" { N.H o { y = \"[[o]]\" } }\n"),
    ("a.trlc", "N.H o { e = Q.E.l }\n"), ("a.trlc", ""), ("a.trlc", "N.H o { ys = [\"\", \"[[Q.o]]\"] }\n"),
    ("a.trlc", "N.H o { y = \"[[o, Q.o]]\" s = \"[[Q.o]]\" }\n"), ("a.trlc", "N.H o { s = \"[[Q.o]]\" }\n"),
    ("a.trlc", "N.H o { t = (1, Q.o) }\n"), ("a.trlc", "N.H o { y = \"[[N.nn, Q.o]] [[Q.o]]\" }\n"),
]


def import_cases(chk):
    q = ("q.rsl", "package Q\nenum E { l }\ntype R { }\ntype F { e E }\ntype G { y Markup_String }\n")
    n = ("n.rsl", "package N import Q\ntuple W { a Integer b Q.R }\ntype H { r optional Q.R y optional Markup_String "
         "e optional Q.E s optional String\n ys optional Markup_String [0 .. 3] t optional W }\n")
    qo = ("q.trlc", "package Q import N\nR o { }\nN.H qq { }\n")
    no = ("n.trlc", "package N\nH nn { }\n")
    # strings with several references, of which any may be the only use of a package
    many = []
    for _ in range(chk.scale(20, 80)):
        refs = ["Q.o", "P.o", "o", "N.nn", "N.nn", "o", "P . o"]
        m = " ".join("[[%s]]" % ", ".join(chk.rng.choice(refs) for _ in range(chk.rng.randint(1, 4))) for _ in range(chk.rng.randint(1, 3)))
        many.append(("a.trlc", "N.H o { %s }\n" % ("y = \"%s\"" % m if chk.rng.random() < .7 else "ys = [\"\", \"%s\"]" % m)))
    for (name, use), twice in itertools.chain(itertools.product(USES, (0, 1, 2, 3)), [(x, chk.rng.randrange(4)) for x in many]):
        use = use.replace("#", "Q.R")
        pre = ["import Q\nimport N\n", "import N\nimport Q\n", "import Q\nimport Q\nimport N\n", "import Q\n"][twice]
        fs = [(name, "package P %s%s" % (pre, use)), q, n, qo, no]
        yield chk.case(fs, lint=True)
        if twice == 0:                        # included files
            yield chk.case([(f, t, f != "q.rsl" and f != "n.rsl") for f, t in fs], lint=True)
            yield chk.case([(f, t, f in ("a.trlc", "a.rsl", "q.trlc", "n.trlc")) for f, t in fs], lint=True)
            yield chk.case([(f, t, f != name) for f, t in fs], lint=True)
            yield chk.case(fs, lint=True, trlc=False)


def minus_models(chk):
    ops = ["%s" % o for o in ("+", "-", "*", "/", "%", "**")]
    xs = []
    for u in ("-", "+", "- "):
        for a in ("x", "3", "(x)", "abs x", "(-x)", "len(s)", "d", "1.5", "y[0]", "t.v"):
            for o in ops:
                xs.append("%s%s %s %s" % (u, a, o, "2" if o == "**" else "d" if a in ("d", "1.5") else "z"))
                xs.append("%s%s" % (u, a))
    for a, b in itertools.product(ops, ops):
        for u in ("-x %s z %s z", "z %s -x %s z", "-x %s (-z) %s 2", "(-x %s z) %s z", "-(x %s z) %s z", "-x %s z %s (-z + 1)"):
            xs.append(u % (a, b if b != "**" else "+"))
    xs = sorted(set(xs))
    if not chk.thorough:
        xs = chk.rng.sample(xs, 240)
    for i in range(0, len(xs), 12):
        yield [("a.rsl", "package P\ntuple T0 { v Integer }\ntype T { x Integer z Integer d Decimal s String y Integer [1 .. 3] t T0 }\n"
                "checks T {\n%s}\n" % "".join("  (%s) == z, warning \"m\"\n" % x for x in xs[i:i + 12]))]


def issues(c, e, o):
    """Differences in lint findings only."""
    if e["open"]:
        return []
    if o["crash"]:
        return [("crash", o["crash"])]
    exp = [m for m in impl.spec_messages(c, e) if m[3] == "issue"]
    got = [m for m in o["msgs"] if m[3] == "issue"]
    missing, extra, _ = impl.match_messages(exp, got)
    if e["brk"]:
        return []
    return [("lint", "missing %s" % (m[:6],)) for m in missing] + [("lint", "unexpected %s" % (m,)) for m in extra]


def C21(chk):
    import props
    cases = list(import_cases(chk))
    models = list(tuple_models(chk, 16)) + list(array_models()) + list(union_models(chk)) + list(minus_models(chk))
    hs = list(hierarchies(chk))
    chk.rng.shuffle(hs)
    if not chk.thorough:
        hs = [h for h in hs if len(h[0]) < 3] + [h for h in hs if len(h[0]) >= 3][:180]
    for i in range(0, len(hs), 8):
        models.append(hierarchy_model(chk.rng, hs[i:i + 8]))
    for fs in models:
        cases.append(chk.case(fs, lint=True, rec=True))

    def variants(c):                          # no lint findings unless asked for
        if c["id"] % 7 == 0:
            yield dict(c, lint=True, verify=False, rec=c["rec"])
    chk.conform(cases, judge=issues, variants=variants)

    def more(k):
        chk.conform(props.programs(chk, chk.scale(60, 500), lint=True, unused_import=.5, unions=.6, abstract=.5, final=.3,
                                   arrays=.6, checks=1, depth=2), judge=issues)
        off = props.programs(chk, chk.scale(20, 100), lint=False, unused_import=.5, unions=.6, abstract=.5, arrays=.6)
        chk.conform(off, judge=issues)
    props.rounds(chk, more)
