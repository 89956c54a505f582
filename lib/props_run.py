"""C13 to C16, C20: runs as a whole."""
import random
import cli, gen, harness, impl
from props_expr import applied


def programs(*a, **kw):
    import props
    return props.programs(*a, **kw)


def sources(r, mutants):
    kn = r.choice([dict(packages=1), dict(packages=3, objects=2, checks=1), dict(packages=2, late=0.4),
                   dict(packages=2, checks=4, warn=0.8, fatal=0.1), dict(packages=1, types=2, objects=1, checks=1)])
    files = gen.Gen(r, **kn).program()
    if r.random() < mutants:
        k = r.randrange(len(files))
        files[k][1] = gen.mutate(r, files[k][1], r.choice([1, 1, 2])) if r.random() < .7 else \
            gen.mutate_char(r, files[k][1], 1)
    return files


def invocations(chk, n, mutants=0.3, **kw):
    res = []
    while len(res) < n:
        r = random.Random(chk.rng.random())
        v = cli.invocation(chk, r, sources(r, mutants), **kw)
        if v:
            res.append(cli.base(chk, v))
    return res


# ------------------------------------------------------- C13 success and status

FEATURES = {  # what a run may have to say
    "W": ("checks T { a != 1, warning \"w\", a }", "T ow { a = 1 }"),
    "W2": ("checks T { a != 2, warning \"w2\"\n a == null or a < 2, warning \"w3\" }", "T ow2 { a = 2 }"),
    "E": ("checks T { b != 1, \"e\" }", "T oe { b = 1 }"),
    "F": ("checks T { c != 1, fatal \"f\", c }", "T of { c = 1 }"),
    "V": ("checks T { d == null or 1 / d > 0, warning \"v\" }", "T ov { d = 0 }"),
    "L": ("abstract type Q { x Integer }", ""),
    "L2": ("type A2 { x optional Integer [2 .. 0]\n y optional Integer [0 .. 1] }", ""),
    "S": ("type B1 { x Nothing }", ""),
    "S2": ("enum E0 { }", ""),
    "O": ("", "T { a = 1 }"),
    "O2": ("", "T oo { a = 1.5 }"),
    "R": ("type RT { r T }", "RT orr { r = nobody }"),
    "X": ("type X1 { \x01 }", ""),
    "X2": ("", "T ox { a = 1 } ~"),
    "I": ("", ""), "D": ("", ""),
}


def featured(chk, r, fs):
    rsl = "package P%s\ntype T {\n a optional Integer\n b optional Integer\n c optional Integer\n d optional Integer\n}\n"
    trlc = "package P%s\n"
    imp = (" import Z" if "I" in fs else "", " import Z import Z" if "D" in fs else "")
    rsl, trlc = rsl % imp[0], trlc % imp[1]
    for f in fs:
        a, b = FEATURES[f]
        rsl += a + "\n" if a else ""
        trlc += b + "\n" if b else ""
    trlc += "T fine { a = 0 }\n"
    return [("p.rsl", rsl), ("p.trlc", trlc), ("z.rsl", "package Z\ntype K { x Integer }\n")]


def C13(chk):
    import props

    def more(k):
        r = chk.rng
        sets = [()] + [(f,) for f in FEATURES]
        if k == 0:
            sets += [(f, g) for f in FEATURES for g in FEATURES if f < g]
        sets += [tuple(f for f in FEATURES if r.random() < x) for x in (.1, .2, .3, .5)
                 for _ in range(chk.scale(20, 300))]
        invs, cases = [], []
        for fs in sets:
            files = featured(chk, r, fs)
            v = cli.options(r, tree=[list(f) for f in files], bazel=False, api=r.random() < .1)
            invs.append(cli.base(chk, v))
            cases.append(chk.case(files, lint=r.random() < .6, rec=r.random() < .5, trlc=r.random() < .9))
        cli.conform(chk, invs, {"status", "summary", "message", "crash"})
        cli.conform(chk, invocations(chk, chk.scale(250, 1500), mutants=.4, sub=False),
                    {"status", "summary", "message", "crash"})
        vs = sampled_subprocess(chk, invs)
        cli.conform(chk, vs, {"status", "summary", "message", "crash"})
        for _ in range(chk.scale(120, 900)):
            rsl, trlc = r.choice([applied, one_failure, one_failure, one_failure])(random.Random(r.random()))
            cases.append(chk.case([("a.rsl", rsl), ("a.trlc", trlc)], lint=r.random() < .3))
            chk.count("families of checks")
        chk.conform(cases + programs(chk, chk.scale(100, 1000), mutants=.4), {"result", "message", "crash"})
    props.rounds(chk, more)


def one_failure(r):
    """Nested values of which at most one fails its check."""
    kinds = [r.choice(["error ", "error ", "", "warning ", "fatal "]) for _ in range(5)]
    parts, cnt = {0: []}, [0]
    rsl = "package P\ntuple U0 { a Integer }\nchecks U0 { a > 0, %s\"u0\" }\n" % kinds[0]
    n = r.randint(1, 3)
    for k in range(1, n + 1):
        parts[k] = [r.randrange(k) for _ in range(r.randint(1, 3))]
        at = r.randint(0, len(parts[k]))
        fs = ["f%d U%d" % (i, j) for i, j in enumerate(parts[k])]
        fs.insert(at, "a Integer")
        parts[k] = parts[k][:at] + [None] + parts[k][at:]
        rsl += "tuple U%d { %s }\nchecks U%d { a > 0, %s\"u%d\" }\n" % (k, " ".join(fs), k, kinds[k], k)

    def val(k):
        if k is None or k == 0:
            cnt[0] += 1
            return "(@%d@)" % cnt[0] if k == 0 else "@%d@" % cnt[0]
        return "(%s)" % ", ".join(val(j) for j in parts[k])
    comps = [(i, r.randint(0, n), r.random() < .4) for i in range(r.randint(1, 3))]
    rsl += "type T { a Integer %s }\nchecks T { a > 0, %s\"t\" }\n" % (
        " ".join("c%d U%d%s" % (i, k, " [0 .. *]" if arr else "") for i, k, arr in comps), kinds[4])
    out = "package P\n"
    for j in range(r.randint(1, 3)):
        out += "T o%d { a = %s %s }\n" % (j, val(None), " ".join(
            "c%d = %s" % (i, "[%s]" % ", ".join(val(k) for _ in range(r.randint(0, 3))) if arr else val(k)) for i, k, arr in comps))
    bad = r.randint(0, cnt[0])
    for i in range(1, cnt[0] + 1):
        out = out.replace("@%d@" % i, "0" if i == bad else "1")
    return rsl, out


def sampled_subprocess(chk, invs, n=24):
    """Some invocations again, in a process of their own."""
    res = []
    for v in chk.rng.sample(invs, min(n, len(invs))):
        res.append(cli.base(chk, dict(v, sub=True)))
    return res


# ------------------------------------------------- C20 options, files, messages

TREE = [  # four packages in a row, and things that are not to be looked at
    ["a.rsl", "package A\ntype T { x Integer }\n"],
    ["m/b.rsl", "package B import A\ntype U extends A.T { y optional Integer }\n"],
    ["m/bazel-m/b.rsl", "package B2 import A\ntype U2 extends A.T { y optional Integer }\n"],
    ["n/c.rsl", "package C import B\ntype V extends B.U { z optional Integer }\n"],
    ["n/c.trlc", "package C import B\nB.U o { x = 1 y = 2 }\nV p { x = 3 }\n"],
    ["n/k/d.trlc", "package D import C import B\nC.V q { x = 4 }\nB.U r { x = 5 }\n"],
    ["bazel-out/e.rsl", "package E\ntype W { x Integer }\n"],
    ["bazel-bin/f.rsl", "package F\ntype W { x Integer }\n"],
    ["bazel-testlogs/g.rsl", "package G\ntype W { x Integer }\n"],
    ["m/bazel-k/g.trlc", "package H\n"],
    ["n/notes.txt", "package X\n"],
]
ITEMS = ["", ".", "a.rsl", "m", "m/b.rsl", "n", "n/c.rsl", "n/c.trlc", "n/k", "bazel-out", "m/bazel-m/b.rsl"]
INCS = ["", ".", "m", "n", "bazel-out", "m/bazel-m"]


def C20(chk):
    import props

    def more(k):
        r = chk.rng
        combos = [(i, j, p, q) for i in ITEMS for j in ITEMS for p in INCS for q in INCS
                  if (i < j or (i == "" == j)) and (p < q or p == "" == q)]
        invs = []
        for i, j, p, q in props.sampled(chk, combos, 260):
            v = cli.options(r, tree=[list(f) for f in TREE], nuw=False, eow=False, log=False, list=True,
                            items=[x for x in (i, j) if x], incs=[x for x in (p, q) if x])
            if cli.once(v):
                invs.append(cli.base(chk, v))
        cli.conform(chk, invs)
        cli.conform(chk, invocations(chk, chk.scale(420, 2500), mutants=.12))
        cli.conform(chk, sampled_subprocess(chk, invs, 12))
    props.rounds(chk, more)


# ------------------------------------------------------------- C14 never a crash

def position(case, m):
    """Is the position of a message inside the input?"""
    f = [f for f in case["files"] if f["name"] == m[0]]
    if not f:
        return False
    text = f[0]["text"].replace("\r\n", "\n").replace("\r", "\n")
    lines = text.split("\n")
    if m[1] == 0:
        return m[2] == 0
    return m[1] <= len(lines) and m[2] <= len(lines[m[1] - 1]) + 1


def total(c, e, o):
    """Differences between outcomes, with what totality demands of any."""
    d = impl.compare(c, e, o)
    return d + answered(c, o)


def answered(c, o):
    if o["crash"]:
        return [("crash", o["crash"])]
    d = []
    if o["res"] != "stab" and not any(m[3] in ("error", "check error") for m in o["msgs"]):
        d.append(("silent", "failure without an error message"))
    for m in o["msgs"]:
        if m[3] == "?":
            d.append(("position", "unexpected output %r" % m[5][:100]))
        elif not position(c, m):
            d.append(("position", "message outside of the input: %s" % m))
    if o.get("changed"):
        d.append(("files", "input files were changed: %s" % o["changed"]))
    return d


def torn(chk, r, files):
    """A program after an accident."""
    files = [list(f) for f in files]
    k = r.randrange(len(files))
    t = files[k][1]
    x = r.randrange(12)
    if x == 0:
        files[k][1] = t[:r.randint(0, len(t))]
    elif x == 1:
        toks = gen.tokens(t)
        files[k][1] = "".join(toks[:r.randint(0, len(toks))])
    elif x == 2:
        other = r.choice(files)[1]
        files[k][1] = t[:r.randint(0, len(t))] + other[r.randint(0, len(other)):]
    elif x in (3, 4, 5):
        files[k][1] = gen.mutate(r, t, r.randint(1, 8))
    elif x == 6:
        files[k][1] = gen.mutate_char(r, t, r.randint(1, 6))
    elif x == 7:
        del files[k]
        if not files:
            files = [["a.rsl", ""]]
    elif x == 8:
        stem, ext = files[k][0].rsplit(".", 1)
        files[k][0] = "zz_" + stem + (".trlc" if ext == "rsl" else ".rsl")
    elif x == 9:
        files[k][1] = r.choice(["", " ", "\n\n", "// nothing", "/* open", "package", "package P import", "\ufeff" + t,
                                "\x00", t + "\x00", t.replace("\n", "\r\n"), t.replace("\n", "\r"), t.replace(" ", "\u00a0"),
                                t + "\udcff", "\udc80" + t, t.replace(" ", "\t")])
    elif x == 10:
        n = r.randint(1, 25)
        files[k][1] = ("package P\n" if r.random() < .7 else "") + " ".join(r.choice(gen.EXTRA) for _ in range(n))
    else:
        lines = t.split("\n")
        i = r.randrange(len(lines))
        j = r.randrange(len(lines))
        lines[i], lines[j] = lines[j], lines[i]
        if r.random() < .5:
            del lines[r.randrange(len(lines))]
        files[k][1] = "\n".join(lines)
    return files


def nested(n):
    """Constructs nested n deep."""
    yield "package P\ntype T { x Integer }\nchecks T { %sx%s > 0, \"m\" }\n" % ("(" * n, ")" * n), "T o { x = 1 }"
    yield "package P\ntype T { x Integer }\nchecks T { %s x > 0, \"m\" }\n" % ("abs " * n), "T o { x = 1 }"
    yield "package P\ntype T { x Integer }\nchecks T { %s > 0, \"m\" }\n" % " + ".join(["x"] * n), "T o { x = 1 }"
    yield "package P\ntype T { x Integer }\nchecks T { %s, \"m\" }\n" % " and ".join(["x > 0"] * n), "T o { x = 1 }"
    yield ("package P\ntype T { x Integer }\nchecks T { %s x > 0 %s, \"m\" }\n" % (
        "(if x > 0 then " * n, " else false)" * n), "T o { x = 1 }")
    yield ("package P\ntype T { x Integer [1 .. 3] }\nchecks T { %s true %s, \"m\" }\n" % (
        "".join("(forall v%d in x => " % i for i in range(n)), ")" * n), "T o { x = [1] }")
    yield "package P\ntype T { x Integer [0 .. *] }\n", "T o { x = %s1%s }" % ("[" * n, "]" * n)
    yield "package P\ntype T { x Integer }\n", "section \"s\" { " * n + "T o { x = 1 }" + "}" * n
    yield "package P\n" + "tuple T0 { x Integer }\n" + "".join(
        "tuple T%d { x T%d }\n" % (i + 1, i) for i in range(n)) + "type T { y T%d }\n" % n, \
        "T o { y = %s1%s }" % ("(" * (n + 1), ")" * (n + 1))
    yield "package P\ntype T0 { x optional Integer }\n" + "".join(
        "type T%d extends T%d { }\n" % (i + 1, i) for i in range(n)), "T%d o { x = 1 }" % n
    yield "package P\ntype T { x Integer }\nchecks T { x %s > 0, \"m\" }\n" % ("[0]" * n), "T o { x = 1 }"
    yield "package P\ntype T { r optional T }\nchecks T { r%s == null, \"m\" }\n" % (".r" * n), "T o { r = o }"
    yield "package P\ntype T { x Integer }\nchecks T { %s }\n" % ", ".join(["x > 0"] * n), "T o { x = 1 }"
    yield "package P\n" + "/*" * n + "\ntype T { x Integer }\n", "T o { x = 1 }"
    yield "package P\ntype T { x String }\n", "T o { x = %s }" % ('"a" ' * n)


def C14(chk):
    import props
    wanted = {"crash", "silent", "position", "files", "result"}

    def more(k):
        r = chk.rng
        cases = []
        for i, n in enumerate(chk.scale([2, 20], [2, 10, 40])):
            for a, b in nested(n):
                cases.append(chk.case([("a.rsl", a), ("a.trlc", "package P\n" + b + "\n")],
                                      lint=bool(i), rec=r.random() < .5))
        # every beginning of a file
        files = gen.Gen(r, packages=1, types=3, objects=2, checks=2, sections=.5).program()
        ends = [(k, n) for k in range(len(files)) for n in range(len(files[k][1]))]
        for k, n in props.sampled(chk, ends, 120)[:2500]:
            fs = [list(f) for f in files]
            fs[k][1] = fs[k][1][:n]
            cases.append(chk.case(fs, lint=r.random() < .5, rec=r.random() < .5))
        for _ in range(chk.scale(330, 3000)):
            fs = torn(chk, r, gen.Gen(r, packages=r.choice([1, 1, 2]), types=3, objects=2, checks=2,
                                      wrong=r.choice([0, 0, .05])).program())
            if r.random() < .3:
                fs = torn(chk, r, fs)
            if len({f[0] for f in fs}) < len(fs):
                continue
            cases.append(chk.case(fs, lint=r.random() < .5, rec=r.random() < .6, trlc=r.random() < .9))
        for _ in range(chk.scale(60, 500)):
            c = props.import_case(chk, random.Random(r.random()), n=r.choice([2, 3]), anyorder=False)
            f = r.choice([f for f in c["files"] if f["name"].endswith(".rsl")] or c["files"])
            n = f["text"].find("\n", f["text"].rfind("import ") + 1)
            f["text"] = gen.mutate(r, f["text"][:n], 1) + f["text"][n:]
            cases.append(chk.case([(x["name"], x["text"], x["prim"]) for x in c["files"]], rec=r.random() < .6))
            chk.count("faults before the declarations")
        chk.conform(cases, wanted, judge=total)
        # the same, and more, under the verifier and through the command line
        more_cases = [dict(c, lint=True, verify=True) for c in r.sample(cases, min(len(cases), chk.scale(60, 400)))]
        for _ in range(chk.scale(1500, 20000)):
            fs = torn(chk, r, gen.Gen(r, packages=r.choice([1, 1, 2]), types=3, objects=2, checks=2,
                                      wrong=r.choice([0, 0, .05])).program())
            for _ in range(r.choice([0, 0, 1, 3])):
                fs = torn(chk, r, fs)
            if len({f[0] for f in fs}) == len(fs):
                more_cases.append(chk.case(fs, lint=r.random() < .5, rec=r.random() < .6))
        for c, o in zip(more_cases, harness.parallel(impl.observe, more_cases)):
            chk.count("runs judged by the invariants alone")
            d = answered(c, o)
            if d:
                chk.violation("; ".join("%s: %s" % x for x in d[:3]),
                              {"case": c, "observed": {k: o.get(k) for k in ("res", "msgs", "crash")}})
        invs = []
        for _ in range(chk.scale(60, 400)):
            v = cli.options(r, tree=torn(chk, r, sources(r, .3)), bazel=False)
            invs.append(cli.base(chk, v))
        cli.conform(chk, invs, {"crash", "files", "status"})
    props.rounds(chk, more)


# ----------------------------------------------------------- C15 error recovery

DECLS = [  # independent declarations of a model
    "enum E%d { a b }", "tuple P%d { x Integer  y Integer }", "tuple S%d { x Integer separator @ y optional Integer }",
    "type R%d { x Integer }", "type X%d extends Base { y optional Integer [0 .. 2] freeze n = 1 }",
    "abstract type A%d \"about\" { s String }", "checks Base { n > %d, fatal \"low\", n }",
    "final type F%d { b Boolean  r optional [Base, Base2] }",
]
OBJS = ["Base o%d { n = 1 }", "Base o%d { n = 1 m = \"text\" }", "section \"s%d\" { Base p%d { n = 2 } }",
        "Base2 o%d { l = [1, 2] e = En.a }", "Base2 o%d { l = [3] t = (1, 2) r = base0 }",
        "Base2 o%d { l = [] u = 1;2 r = o1 }", "P.Base o%d {\n n = 1\n m = \"text\" }", "P.Base2 o%d { l = [1]\ne =\nEn.a\nr =\nP.base0 }",
        "Base2 o%d {\nl\n=\n[1, 2]\ne\n=\nP.En.b\nr = base0\n}"]
STARTS = ["En.a", "En", "Tu", "Su x", "Base", "Base2 z { }", "P", "P.Base y { n = 4 }", "P.En.a", "Q", "Q.S", "Q.S w { x = 5 }", "S", "base0", "base0 x", "n = 1", "n", "Integer", "len", "nobody", "section",
          "section \"t\" {", "type", "type Y { }", "enum", "tuple", "checks Base { n > 0, \"m\" }", "final", "abstract", "package", "import Q", "}", "{", "Base.n", "EN", "base", "Ba_se"]
PRE = ("package P\nenum En { a b }\ntuple Tu { x Integer y Integer }\ntuple Su { x Integer separator ; y optional Integer }\n"
       "type Base { n Integer m optional String }\n"
       "type Base2 { l Integer [0 .. 3] e optional En t optional Tu u optional Su r optional Base }\n")


def damaged(r, decl):
    """A declaration with something wrong inside."""
    toks = [t for t in gen.tokens(decl)]
    idx = [i for i, t in enumerate(toks) if t.strip()]
    if not idx:
        return decl
    i = r.choice(idx)
    x = r.randrange(8)
    if x == 0:
        del toks[i]
    elif x >= 6:                                  # a line, after the fault, that begins with some name
        j = r.choice([k for k in idx if k >= i])
        toks.insert(j + r.randrange(2), "\n%s%s" % (r.choice(STARTS), r.choice([" ", "\n"])))
        toks[i] = r.choice([toks[i], r.choice(gen.EXTRA) + " ", "1 ", "~ "])
    elif x == 1:
        toks[i] = r.choice(gen.EXTRA)
    elif x == 2:
        toks.insert(i, r.choice(gen.EXTRA) + " ")
    elif x == 3:
        toks[i] = r.choice(["Nothing", "1.5", "\"x\"", "a", "(", "}"])
    elif x == 4:
        toks = toks[:i]
    else:
        toks.insert(i, "// rest\n" if r.random() < .2 else r.choice(["~ ", "\"open\n", "! ", "1__0 "]))
    return "".join(toks)


QPRE = "package Q\ntype S {\n  x Integer\n  r optional S\n}\n"
OTHERS = ["Q.S q%d { x = 1 }", "Q.S q%d {\n  x = 2\n  r = q%d\n}", "Q.S q%d {\n  z = 2\n}", "Q.S q%d {\n  x = 2\n  r =\n Q.s0\n}",
          "section \"s%d\" {\nQ.S q%d {\n y = 1\n}\n}"]


def faulty(chk, r):
    """A model and objects with one or a few faulty declarations."""
    n = r.randint(2, 5)
    ds = [r.choice(DECLS) for _ in range(n)]
    ds = [d % ((i,) * d.count("%d")) for i, d in enumerate(ds)]
    m = r.randint(2, 5)
    os_ = [r.choice(OBJS) for _ in range(m)]
    os_ = [o % ((i,) * o.count("%d")) for i, o in enumerate(os_)]
    os_.insert(0, "Base base0 { n = 3 }")
    other = r.random() < .4                       # types of another package
    if other:
        for _ in range(r.randint(1, 3)):
            os_.insert(r.randrange(len(os_) + 1), r.choice(OTHERS).replace("%d", str(len(os_))))
    for _ in range(r.choice([1, 1, 2, 3])):
        if r.random() < .6:
            i = r.randrange(len(ds))
            ds[i] = damaged(r, ds[i])
        else:
            i = r.randrange(len(os_))
            os_[i] = damaged(r, os_[i])
    files = [("a.rsl", PRE + "\n".join(ds) + "\n"), ("a.trlc", "package P\n" + "\n".join(os_) + "\n")]
    if other:
        files = [("q.rsl", QPRE), (files[0][0], files[0][1].replace("package P\n", "package P\nimport Q\n", 1)),
                 ("a.trlc", "package P\nimport Q\n" + "\n".join(os_) + "\n")]
        return files
    if r.random() < .3:
        k = r.randrange(1, len(os_))
        files[1] = ("a.trlc", "package P\n" + "\n".join(os_[:k]) + "\n")
        files.append(("b.trlc", "package P\n" + "\n".join(os_[k:]) + "\n"))
    return files


ERRORS = ("error", "check error")


def first_error(o):
    for m in o["msgs"]:
        if m[3] in ERRORS:
            return m
    return None


def relate(chk, pairs):
    """Runs without and with recovery."""
    flat = [c for p in pairs for c in p]
    obs = harness.parallel(impl.observe, flat)
    for (off, on), a, b in zip(pairs, obs[::2], obs[1::2]):
        chk.count("pairs of runs")
        d = []
        if a["crash"] or b["crash"]:
            if bool(a["crash"]) != bool(b["crash"]):
                d.append("crash: %s / %s" % (a["crash"], b["crash"]))
        else:
            if a["res"] != b["res"]:
                d.append("result %s without recovery, %s with" % (a["res"], b["res"]))
            if first_error(a) != first_error(b):
                d.append("first error %s without recovery, %s with" % (first_error(a), first_error(b)))
            if a["res"] == "stab" and (a["msgs"] != b["msgs"] or a["objs"] != b["objs"]):
                d.append("different answers for sound input")
        if d:
            chk.violation("; ".join(d), {"case": on, "without": {k: a.get(k) for k in ("res", "msgs", "crash")},
                                         "with": {k: b.get(k) for k in ("res", "msgs", "crash")}})


def C15(chk):
    import props

    def more(k):
        r = chk.rng
        cases = []
        for _ in range(chk.scale(330, 3000)):
            fs = faulty(chk, r)
            lint = r.random() < .3
            cases += [chk.case(fs, rec=False, lint=lint), chk.case(fs, rec=True, lint=lint)]
        for _ in range(chk.scale(60, 600)):
            fs = gen.Gen(random.Random(r.random()), packages=r.choice([1, 2]), types=3, objects=3, checks=2).program()
            for _ in range(r.choice([1, 1, 2, 3])):
                i = r.randrange(len(fs))
                fs[i][1] = gen.mutate(r, fs[i][1], 1) if r.random() < .8 else gen.mutate_char(r, fs[i][1], 1)
            cases += [chk.case(fs, rec=False), chk.case(fs, rec=True)]
        chk.conform(cases)
        pairs = []
        for _ in range(chk.scale(700, 8000)):
            fs = faulty(chk, r) if r.random() < .7 else torn(chk, r, gen.Gen(
                random.Random(r.random()), packages=r.choice([1, 2]), types=3, objects=2, checks=2).program())
            if len({f[0] for f in fs}) == len(fs):
                pairs.append((chk.case(fs, rec=False), chk.case(fs, rec=True)))
        relate(chk, [(cases[i], cases[i + 1]) for i in range(0, len(cases), 2)] + pairs)
    props.rounds(chk, more)


# ---------------------------------------------------------------- C16 variations

def hashed(cases, seed):
    import json, os, subprocess, sys
    p = subprocess.run([sys.executable, "-B", os.path.join(harness.VERIF, "lib", "hashrun.py")],
                       input=json.dumps(cases).encode("utf-8", "surrogatepass"), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, env=dict(os.environ, PYTHONHASHSEED=str(seed)), timeout=600)
    if p.returncode:
        return [{"res": None, "msgs": [], "crash": "the process died: " + p.stderr.decode()[-300:],
                 "objs": [], "walk": None, "types": None}] * len(cases)
    return json.loads(p.stdout)


def hashed_job(job):
    cases, seed = job
    import harness as h
    h.signal.alarm(0)
    return hashed(cases, seed)


def essence(o, issues=True):
    return {"result": o["res"], "crash": o["crash"],
            "messages": sorted(m for m in o["msgs"] if issues or m[3] not in ("issue", "warning")),
            "objects": [[x["n"], x["l"], x["t"], x["sec"], repr(x["fld"])] for x in o["objs"]] if o["objs"] else [],
            "walk": o["walk"], "types": o["types"]}


def wordy_messages(raw):
    """Messages in the detailed style: file, line, severity, text, source line
    shown, offset of the marker."""
    res, last = [], ""
    for l in raw.split("\n"):
        m = cli.WORDY.match(l)
        if m:
            off = l.index("^") if l.lstrip().startswith("^") else None
            res.append((m.group("file"), int(m.group("line") or 0), m.group("sv"), l[m.end():],
                        last if off is not None else None, off, int(m.group("col") or 0)))
        last = l
    return res


def style(chk, c, brief, o):
    """Does the detailed style tell the same?"""
    if any("\n" in m[5] for m in brief["msgs"]):
        return []
    got = wordy_messages(o["raw"])
    want = [(m[0], m[1], m[3], m[5] + (" [%s]" % m[4] if m[4] else "")) for m in brief["msgs"]]
    if [g[:4] for g in got] != want:
        return ["messages %s in brief, %s in detailed style" % (want, [g[:4] for g in got])]
    d = []
    texts = {f["name"]: f["text"].replace("\r\n", "\n").replace("\r", "\n").split("\n") for f in c["files"]}
    for m, g in zip(brief["msgs"], got):
        if g[5] is None or m[0] not in texts or not 0 < m[1] <= len(texts[m[0]]):
            continue
        line = texts[m[0]][m[1] - 1]
        cut = len(line) - len(line.lstrip())
        if g[4] != line.lstrip().replace("\t", " ") or g[5] != m[2] - 1 - cut:
            d.append("%s:%d:%d: shown as %r, marker at %d" % (m[0], m[1], m[2], g[4], g[5]))
    return d


def C16(chk):
    import props

    def more(k):
        r = chk.rng
        cases = []
        for _ in range(chk.scale(170, 1500)):
            files = gen.Gen(random.Random(r.random()), packages=r.choice([1, 2, 2]), types=4, objects=3, checks=3,
                            depth=2, wrong=r.choice([0, 0, .05]), unions=.35, abstract=.3).program()
            if r.random() < .35:
                i = r.randrange(len(files))
                files[i][1] = gen.mutate(r, files[i][1], 1)
            cases.append(chk.case(files, lint=False, rec=r.random() < .5, trlc=r.random() < .9))
        lint = [dict(c, id=c["id"] + 1000000, lint=True) for c in cases]
        chk.conform(cases + lint, {"message", "result", "objects", "value", "walk", "sections", "crash", "types"})
        # the same input under other circumstances, in the same processes
        what = [("linting", dict(lint=True)), ("verification", dict(lint=True, verify=True, slow=8)),
                ("verification without linting", dict(verify=True)), ("a second run", {}),
                ("content given directly", dict(inline=True)),
                ("detailed messages", dict(wordy=1)), ("detailed messages and explanations", dict(wordy=2)),
                ("detailed messages with linting", dict(wordy=2, lint=True))]
        jobs = [dict(c, **kw) for c in cases for kw in [{}] + [w for _, w in what]]
        obs = harness.parallel(impl.observe, jobs)
        n = len(what) + 1
        for i, c in enumerate(cases):
            base, others = obs[i * n], obs[i * n + 1:i * n + n]
            for (name, kw), o in zip(what, others):
                chk.count("variations")
                d = []
                if "wordy" in kw:
                    of = base if "lint" not in kw else others[0]
                    if o.get("crash") or of["crash"]:
                        d = ["crash %s" % o["crash"]] if o.get("crash") != of["crash"] else []
                    else:
                        d = style(chk, c, of, o)
                        a, b = essence(dict(of, msgs=[])), essence(dict(o, msgs=[]))
                        d += ["%s: %s / %s" % (q, a[q], b[q]) for q in a if a[q] != b[q]]
                elif o.get("hang") and kw.get("verify"):
                    chk.count("verification took too long")
                    continue
                elif kw.get("inline") and any("\r" in f["text"] for f in c["files"]):
                    continue
                else:
                    a, b = essence(base, False), essence(o, name not in ("linting", "verification"))
                    d = ["%s: %s / %s" % (q, a[q], b[q]) for q in a if a[q] != b[q]]
                if d:
                    chk.violation("%s changes the outcome: %s" % (name, "; ".join(d)[:800]),
                                  {"case": c, "variation": kw, "differences": d})
        seeds = [r.randrange(1, 10 ** 6) for _ in range(chk.scale(4, 8))]
        some = cases[::2] + lint[1::2]
        runs = harness.parallel(hashed_job, [(some, s) for s in seeds])
        for j, c in enumerate(some):
            for s, run in zip(seeds, runs):
                chk.count("runs under another hash seed")
                if not isinstance(run, list):
                    chk.violation("no answer under hash seed %d: %s" % (s, run.get("crash")), {"seed": s})
                    return
                if run[j] != runs[0][j]:
                    d = [q for q in run[j] if run[j][q] != runs[0][j][q]]
                    chk.violation("hash seed %d instead of %d changes %s" % (s, seeds[0], ", ".join(d)),
                                  {"case": c, "seeds": [seeds[0], s], "first": {q: runs[0][j][q] for q in d},
                                   "second": {q: run[j][q] for q in d}})
    props.rounds(chk, more)


# ---------------------------------------------------------------- C26 progress

def C26(chk):
    import props

    def more(k):
        cases = programs(chk, chk.scale(160, 900), mutants=.5) + programs(chk, chk.scale(60, 400), mutants=.3, packages=3, late=.4)
        for _ in range(chk.scale(200, 1200)):
            r = random.Random(chk.rng.random())
            c = props.import_case(chk, r, n=r.choice([2, 3, 4]), anyorder=False)
            if r.random() < .3:
                f = r.choice(c["files"])
                f["text"] = gen.mutate(r, f["text"], 1)
                c = chk.case([(x["name"], x["text"], x["prim"]) for x in c["files"]], rec=c["rec"], lint=c["lint"])
            c["trlc"] = r.random() < .85
            cases.append(c)
        for c, exp, o in chk.conform(cases, {"progress", "crash"}):
            if not exp[0]["open"] and not exp[0]["brk"] and exp[0]["res"] != "refused":
                n = len(exp[0]["prog"])
                chk.count("complete" if n and exp[0]["prog"][-1] == 100 else "incomplete")
                chk.count("files needed: %s" % (n if n < 4 else "4 or more") if n and exp[0]["prog"][-1] == 100
                          else "ended early")
    props.rounds(chk, more)
