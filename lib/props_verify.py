"""C17: the verifier against the objects there could be."""
import random
import gen, harness, impl, tlc

DOM = {"i": [0, 1, -1, 2], "q": [[0, 1], [1, 1], [-1, 2]], "s": ["", "a"], "e": 3, "n": 3}
PROLOG = ("package P\n"
          "enum En { A B }\n"
          "tuple Tu { m Integer separator : n optional Integer }\n"
          "tuple Tc { p Integer separator : q optional Integer }\n"
          "checks Tc { p != 0, \"tc\" }\n"
          "tuple Tw { p Integer separator : q optional Integer }\n"
          "checks Tw { p != 0, warning \"tw\" }\n"
          "tuple Tp { g Boolean h Decimal }\n"
          "type Ot { v Integer w optional Integer }\n"
          "type Ua { v Integer z optional Boolean }\n"
          "type Ub { v Integer k Integer }\n"
          "type Uc extends Ot { }\n")

COMPS = {
    "a": "Integer", "a2": "Integer", "b": "optional Integer", "b2": "optional Integer", "d": "Decimal",
    "od": "optional Decimal", "f": "Boolean", "f2": "Boolean", "of": "optional Boolean", "s": "String",
    "os": "optional String", "om": "optional Markup_String", "e": "En", "oe": "optional En", "t": "Tu", "ot": "optional Tu",
    "tc": "Tc", "tw": "Tw", "tp": "Tp", "xs": "Integer [0 .. *]", "ys": "optional Integer [1 .. 3]",
    "zs": "Integer [2 .. 3]", "bs": "Boolean [0 .. 2]", "ts": "Tu [0 .. *]", "cs": "Tc [0 .. 2]", "ss": "optional String [0 .. 2]",
    "rs": "Ot [0 .. 2]", "r": "Ot", "or1": "optional Ot", "u": "[Ua, Ub]", "ou": "optional [Ua, Ot]",
    "ds": "Decimal [0 .. *]", "ox": "optional Integer [0 .. *]",
}

RISKS = """1 / a > 0 | a2 % a == 1 | a / a2 > 0 | 1 / (a - a2) > 0 | 1 / (a * a2) > 0 | 10 / (a + 1) > 0 | 1 / b > 0
1 / abs a > 0 | 1 / (-a) < 0 | 1 / (a ** 2) > 0 | 1 / len(s) > 0 | 1 / len(xs) > 0 | 1 / Integer(d) > 0 | 1 / (a % 2) > 0
1 / (if f then a else 1) > 0 | 1 / (if a > 0 then a else 1) > 0 | 1 / (if f then 1 elsif f2 then a else a2) > 0
1.0 / d > 0.0 | 1.0 / Decimal(a) > 0.0 | 1.0 / (d + 0.5) > 0.0 | 1.0 / (d * d) > 0.0
b > 0 | b + a == 2 | a - b < 3 | abs b > 0 | -b < 0 | +b < 1 | b ** 2 > 0 | b * 2 > a | b % 2 == 1 | a % b == 0
b in 0 .. a | a in b .. 3 | a in 0 .. b | a not in 0 .. b | b not in 0 .. 1 | len(os) > 0 | os + s == "a" | s + os == "a"
startswith(os, s) | endswith(s, os) | s in os | os in s | os not in s | matches(os, "a") | len(om) > 0 | om + om == "a"
of | not of | of and f | f and of | f or of | of or f | f implies of | of implies f | of xor f | f xor of
xs[a] > 0 | xs[0] == a | xs[1] > 0 | xs[-1] > 0 | xs[len(xs)] > 0 | xs[len(xs) - 1] > 0 | xs[a - 1] == 0 | xs[b] > 0
ys[0] > 0 | ys[1] == a | zs[1] > 0 | zs[2] > 0 | zs[a] > 0 | bs[0] | bs[a] | xs[xs[0]] > 0 | len(ys) > 0 | len(ss) > 1
b in xs | a in ys | a not in ys | os in ss | s in ss | od > 0.0 | od in 0.0 .. d | Decimal(b) > 0.5 | Integer(od) > 0
t.n > 0 | t.n + t.m > 0 | ot.m > 0 | ot.n > 0 | 1 / t.m > 0 | t.n / t.m > 0 | 1 / tc.p > 0 | 1 / tw.p > 0 | tc.q > 0
tp.g and 1.0 / tp.h > 0.0 | ts[0].m > 0 | ts[0].n > 0 | ts[a].m == 1 | 1 / ts[0].m > 0 | 1 / cs[0].p > 0
(forall x in xs => 1 / x > 0) | (exists x in xs => 1 / x > 0) | (forall x in ys => x > 0) | (exists x in ys => x != 0)
(forall x in xs => x > b) | (forall x in xs => x + a > 0 implies 1 / x > 0) | (forall x in ts => x.n > 0) | (exists x in ts => x.n == 0)
(forall x in xs => 1 / (x - a) > 0) | (forall x in xs => xs[x] > 0) | (forall x in xs => of) | (exists x in bs => x and of)
(forall x in ts => x.n != null implies x.n > 0) | (forall x in xs => x != 0 and 1 / x > 0) | (forall x in cs => 1 / x.p > 0)
(forall x in rs => x.w > 0) | (exists x in rs => x.w != null and x.w > 0) | (forall x in rs => 1 / x.v > 0) | (forall x in ss => len(x) > b)
oneof(of, f) | oneof(f, of) | oneof(f, f2, of) | oneof(of) | oneof(f, 1 / a > 0)
(if of then f else f2) | (if f then of else f2) | (if f then f2 else of) | (if f then f2 elsif of then f else f2)
(if f then f2 elsif f2 then of else true) | (if b > 0 then f else f2) | (if f then b else a) > 0 | (if f then a else b) == 1
1 / (if b == null then 1 else b) > 0 | (if b != null then b else 0) > 0
r.w > 0 | 1 / r.v > 0 | or1.v > 0 | or1.w > 0 | u.z | u.k > 0 | 1 / u.v > 0 | ou.v > 0 | ou.w > 0 | xs[r.w] > 0 | rs[0].w > 0 | rs[a].v > 0
b == null | b != 1 | b == b2 | os == s | e == oe | oe != En.A | t == ot | xs == ox | of == f | od == d | ou == null | r == or1
(b == b2) and b > 0 | (b != b2) or b > 0 | (b == 1) and b > 0 | b == 1 implies b > 0 | b != 1 implies b > 0 | ot == t implies ot.m > 0
ox == xs implies len(ox) > 0 | oe == En.A or of | t.n == a implies t.n > 0 | r == or1 implies or1.v > 0 | od == d implies od > 0.0 | of == true implies of
os == "a" implies len(os) > 0 | a in xs implies 1 / len(xs) > 0 | len(s) > len(os) | (forall x in xs => x == 0) implies 1 / a > 0
a > 0 xor 1 / a2 > 0 | not (1 / a > 0) | (not (b == null)) implies b > 0 | (not (a == 0)) and 1 / a > 0 | b == null or (b + 1) / b > 0
""".replace("\n", " | ").split(" | ")
RISKS = [x.strip() for x in RISKS if x.strip()]

GUARDS = {
    "a": ["a != 0", "a > 0", "a == 0", "a >= 0", "a < 1", "not (a == 0)", "a in 1 .. 2", "a not in 0 .. 0", "a * a > 0",
          "abs a > 0", "a / 2 > 0", "a % 2 == 1", "a >= 0 and a < len(xs)", "a < len(xs)", "a in xs", "a in 0 .. 1",
          "a ** 2 != 0", "a != a2", "a > a2", "-a < 0", "(a != 0) == true", "a != 0 xor false", "Decimal(a) > 0.5"],
    "a2": ["a2 != 0", "a2 > 0", "a != a2", "a2 > a"],
    "b": ["b != null", "b == null", "b != null and b != 0", "b == 1", "b == a", "null != b", "not (b == null)", "b != 1",
          "b == null or b > 0", "b != null and b > 0", "(if b == null then false else true)", "b == b2"],
    "b2": ["b2 != null"],
    "d": ["d != 0.0", "d > 0.0", "d >= 0.0", "Integer(d) != 0", "d * 2.0 > 1.0"],
    "od": ["od != null", "od == null", "od == d"],
    "f": ["f", "not f", "f == true", "f != f2", "f2"], "f2": ["f2", "not f2"],
    "of": ["of != null", "of == null", "of == true", "of == f", "of != false"],
    "s": ["s != \"\"", "len(s) > 0", "s == \"a\"", "startswith(s, \"a\")", "\"a\" in s", "matches(s, \"^a+$\")"],
    "os": ["os != null", "os == s", "os == null", "os == \"a\""], "om": ["om != null", "om == null"],
    "e": ["e == En.A"], "oe": ["oe != null", "oe == e"],
    "t": ["t.n != null", "t.m != 0", "t.n == null", "t.n == t.m", "t.m > 0 and t.n != null"],
    "ot": ["ot != null", "ot == t", "ot == null"],
    "tc": ["tc.q != null", "tc.p > 0"], "tw": ["tw.p != 0"], "tp": ["tp.g", "tp.h != 0.0"],
    "xs": ["len(xs) > 0", "len(xs) > 1", "len(xs) != 0", "len(xs) == 2", "len(xs) >= 1", "(forall x in xs => x != 0)",
           "(exists x in xs => x > 0)", "(forall x in xs => x > 0)", "1 in xs", "0 not in xs", "(forall x in xs => x >= 0 and x < len(xs))",
           "a in xs", "len(xs) > 0 and xs[0] in 0 .. 0", "(exists x in xs => true)"],
    "ys": ["ys != null", "ys == null", "ys != null and len(ys) > 1"],
    "zs": ["len(zs) > 2", "len(zs) == 3"], "ox": ["ox == xs", "ox != null", "ox == null"], "bs": ["len(bs) > 0", "len(bs) == 2", "(exists x in bs => x)"],
    "ts": ["len(ts) > 0", "len(ts) > 1", "(forall x in ts => x.n != null)", "(exists x in ts => x.n != null)",
           "(forall x in ts => x.m != 0)"],
    "cs": ["len(cs) > 0"], "ss": ["ss != null", "ss == null"], "ds": ["len(ds) > 0"],
    "rs": ["len(rs) > 0", "(forall x in rs => x.w != null)", "len(rs) == 2"],
    "r": ["r.w != null", "r.v != 0", "r == or1"], "or1": ["or1 != null", "or1 == r", "or1 != null and or1.w != null"],
    "u": ["u.z != null", "u.k != null", "u.v != 0"], "ou": ["ou != null", "ou != null and ou.w != null"],
}
HEADS = {"a": ["0", "1"], "b": ["1", "0"], "a2": ["2"], "d": ["0.0", "1.0"], "f": ["true", "false"], "of": ["true"],
         "s": ["\"\"", "\"a\""], "os": ["\"a\""]}


def names(text):
    return {t for t in gen.tokens(text) if t in COMPS}


def guard(r, risk):
    vs = sorted(names(risk))
    v = r.choice(vs) if vs and r.random() < .9 else r.choice(sorted(GUARDS))
    return r.choice(GUARDS[v])


ONE = {"Integer": ["0", "1", "-1", "2"], "Decimal": ["0.0", "1.0", "-0.5"], "Boolean": ["true", "false"],
       "String": ["\"\"", "\"a\""], "En": ["En.A", "En.B"]}


def pinned(r, c, typ):
    """Leaves a component (almost) one value only, as the first of a chain of conditions."""
    if typ.startswith("optional "):
        if r.random() < .3:
            return ["%s == null" % c]
        return ["%s != null" % c] + pinned(r, c, typ[9:])
    if typ in ONE:
        return ["%s == %s" % (c, r.choice(ONE[typ]))]
    if typ == "Tu":
        return pinned(r, c + ".m", "Integer") + pinned(r, c + ".n", "optional Integer")
    if typ == "Tp":
        return pinned(r, c + ".g", "Boolean") + pinned(r, c + ".h", "Decimal")
    if "[" in typ[1:] and typ.split(" [")[0] in ONE:
        k = r.choice([0, 1, 2]) if typ.startswith(("Boolean", "String")) or "0 .." in typ else r.choice([2, 3] if "2 .." in typ else [1, 2])
        return ["len(%s) == %d" % (c, k)] + [x for i in range(k) for x in pinned(r, "%s[%d]" % (c, i), typ.split(" [")[0])]
    return []


def risky(r):
    """A check, with one of many ways to guard it; also those that don't."""
    x = r.choice(RISKS)
    if r.random() < .4:
        pins = [pinned(r, c, COMPS[c]) for c in sorted(names(x))]
        r.shuffle(pins)
        if r.random() < .3:
            pins = pins[1:]
        pins = sum(pins, [])
        if pins:
            if r.random() < .7:
                return [(" and ".join(pins), "fatal"), x]
            return ["(%s) implies (%s)" % (" and ".join(pins), x)]
    k = r.random()
    if k < .12:
        return [x]
    g = guard(r, x)
    if k < .17:
        g = "(%s) and (%s)" % (g, guard(r, x))
    elif k < .2:
        g = "(%s) or (%s)" % (g, guard(r, x))
    w = r.choice(["(%s) implies (%s)", "(%s) and (%s)", "(not (%s)) or (%s)", "(%s) or (%s)", "(if %s then %s else f)",
                  "(if not (%s) then f else %s)", "(if f then f2 elsif %s then %s else f2)", "(f and (%s)) implies (%s)",
                  "((%s) implies (%s)) or f", "((%s) and (%s)) != f", "not ((%s) and (%s))", "oneof(f, (%s) and (%s))",
                  "fatal", "fatal", "fatal", "error", "warning", "after", "two"])
    if "%s" in w:
        return [w % (g, x)]
    if w == "two":
        return [(g, "fatal"), (guard(r, x), "fatal"), x]
    return [x, (g, "fatal")] if w == "after" else [(g, w), x]


def deref(text):
    """Does it look through a reference?"""
    return any(n in names(text) for n in ("r", "or1", "u", "ou", "rs")) and "." in text


def program(r, types):
    out = [PROLOG]
    n = 0
    for i in range(types):
        checks = risky(r)
        if r.random() < .25:
            checks += risky(r)
        checks = [c if isinstance(c, tuple) else (c, r.choice(["warning", "error", "error", "fatal"])) for c in checks]
        # known finding: checks that look through references are treated last
        if any(not deref(d[0]) and d[1] == "fatal" for d in checks):
            checks = sorted(checks, key=lambda c: deref(c[0]))
        used = sorted(set().union(*(names(c[0]) for c in checks)))
        for c in (["xs"] if r.random() < .05 else []) + (["b"] if r.random() < .1 else []):
            if c not in used:
                used.append(c)
        r.shuffle(used)
        n += 1
        x = r.random()
        line = lambda c: "  %s, %s \"c\"\n" % c
        if x < .6 or len(checks) < 1:
            out.append("type R%d { %s }\nchecks R%d {\n%s}\n" % (
                n, " ".join("%s %s" % (c, COMPS[c]) for c in used), n, "".join(map(line, checks))))
        elif x < .85:                          # split over an extension
            k = r.randrange(len(checks) + 1)
            early = sorted(set().union(set(), *(names(c[0]) for c in checks[:k])))
            late = [c for c in used if c not in early]
            if r.random() < .3:
                early, late = used, []
            out.append("%stype R%d { %s }\n" % (r.choice(["", "abstract "]), n,
                                                " ".join("%s %s" % (c, COMPS[c]) for c in early)))
            fro = [c for c in early if c in HEADS]
            z = r.choice(fro) if fro and r.random() < .5 else None
            first = "".join(map(line, checks[:k]))
            if first:
                out.append("checks R%d {\n%s}\n" % (n, first))
            out.append("type S%d extends R%d { %s%s }\n" % (
                n, n, " ".join("%s %s" % (c, COMPS[c]) for c in late),
                "\n freeze %s = %s" % (z, r.choice(HEADS[z])) if z else ""))
            out.append("checks S%d {\n%s}\n" % (n, "".join(map(line, checks[k:]))))
        else:                                  # with frozen values
            fro = [c for c in used if c in HEADS]
            z = r.sample(fro, min(len(fro), r.choice([1, 1, 2])))
            out.append("type R%d { %s }\n" % (n, " ".join("%s %s" % (c, COMPS[c]) for c in used)))
            out.append("type S%d extends R%d { %s }\n" % (n, n, " ".join("freeze %s = %s" % (c, r.choice(HEADS[c])) for c in z)))
            out.append("checks S%d {\n%s}\n" % (n, "".join(map(line, checks))))
        if r.random() < .1:
            out.append(tuple_checks(r, n))
    return "".join(out)


def tuple_checks(r, n):
    c = r.choice(["y > 0", "y != null implies y > 0", "1 / x > 0", "x != 0 implies 1 / x > 0", "y == null or y > x",
                  "x / y > 0", "(if y == null then true else 1 / y > 0)", "1 / (if y == null then 1 else y) > 0"])
    return ("tuple Q%d { x Integer separator @ y optional Integer }\nchecks Q%d {\n%s  %s, \"c\"\n}\n" % (
        n, n, r.choice(["", "", "  x != 0, fatal \"c\"\n", "  y != null, fatal \"c\"\n", "  y != 0, \"c\"\n"]), c))


KINDS = {"vcg-evaluation-of-null": "null", "vcg-div-by-zero": "zero", "vcg-array-index": "index"}


def failure(kind, message):
    """How an evaluation is said to fail."""
    if kind == "vcg-array-index" and "less than 0" not in message:
        return "beyond"
    return KINDS.get(kind, kind)


def rows(cases, dom, cap, tgt):
    res = []
    for c in cases:
        res.append({"id": c["id"], "lint": False, "rec": False, "trlc": False, "any": False,
                    "dom": dict(dom, s=[tlc.codes(s) for s in dom["s"]]), "cap": cap, "tgt": tgt,
                    "files": [{"kind": "rsl", "prim": True, "text": tlc.codes(f["text"])} for f in
                              sorted(c["files"], key=lambda f: f["name"])]})
    return res


def judge(chk, c, facts, o):
    """facts: what the specification found; o: what the verifier said."""
    names_ = sorted(f["name"] for f in c["files"])
    if o.get("hang"):
        chk.count("verifier took too long")
        return
    if o["crash"]:
        chk.violation("the verifier crashes: %s" % o["crash"], {"case": c})
        return
    if any("not yet supported" in m[5] for m in o["msgs"]):
        chk.count("construct not supported")
        return
    said = {}
    for m in o["msgs"]:
        said.setdefault(failure(m[4], m[5]), set()).add((m[0], m[1], m[2]))
    fs = [dict(f) for f in facts]
    ends = {}
    for f in fs:
        ends.setdefault(f["chk"][0], set()).add(f["tl"])
    for f in fs:
        chk.count("facts: " + f["r"])
        at = (names_[f["at"][0] - 1], f["at"][1], f["at"][2]) if f["at"][0] else None
        where = (names_[f["chk"][0] - 1], f["chk"][1], f["chk"][2])
        if f["r"] == "true":
            continue
        if f["r"] == "false":
            if where in said.get("vcg-always-true", ()) and f["late"]:
                chk.count("late, see known findings")
            elif where in said.get("vcg-always-true", ()):
                chk.violation("%s:%d:%d is said to be always true, but is false for some object" % where,
                              {"case": c, "said": o["msgs"]})
            continue
        if f["r"] not in ("null", "zero", "index", "beyond"):
            continue
        got = said.get(f["r"], set())
        low = max([e for e in ends[f["chk"][0]] if e < f["tl"]], default=0)
        near = [g for g in got if g[0] == where[0] and low < g[1] <= f["tl"]]
        if at is None:
            hit = near
        else:
            # The verifier does not want branches of conditionals to be null,
            # and having said so takes for granted that they are not.
            text = "\n".join(dict((x["name"], x["text"]) for x in c["files"])[where[0]].split("\n")[low:f["tl"]])
            hit = at in got or ("if" in gen.tokens(text) and any(
                g < at for g in said.get("null", ()) if g[0] == at[0] and low < g[1] <= f["tl"]))
        if not hit and f["late"]:
            chk.count("late, see known findings")
        elif not hit:
            chk.violation("no %s issue at %s, though the check fails there for some object" %
                          (f["r"], "%s:%d:%d" % (at or where)), {"case": c, "said": o["msgs"], "fact": f})


def verify(chk, cases, dom, cap, tgt):
    outs, res = tlc.by_id(tlc.run_rows(rows(cases, dom, cap, tgt), "Verifier"))
    chk.states += res.distinct
    chk.transitions += res.states
    obs = harness.parallel(impl.observe, [dict(c, lint=True, verify=True, trlc=False, slow=30) for c in cases])
    for c, o in zip(cases, obs):
        chk.traces += 1
        recs = outs.get(c["id"], [])
        if any("res" in x for x in recs):
            chk.count("faulty programs")
            continue
        facts = []
        for x in recs:
            chk.count("objects", x["n"])
            facts += [f for f in x["facts"] if f not in facts]
        judge(chk, c, facts, o)
        if recs:
            chk.sample({"text": c["files"][0]["text"][:2000], "types": len({tuple(x["typ"]) for x in recs}),
                        "issues": [m[:6] for m in o["msgs"]][:5]})


def C17(chk):
    import props

    def more(k):
        r = chk.rng
        cases = [chk.case([("a.rsl", program(r, 8))]) for _ in range(chk.scale(36, 120))]
        verify(chk, cases, DOM, chk.scale(60, 200), 12)
        cases = []
        for _ in range(chk.scale(16, 60)):
            fs = gen.Gen(random.Random(r.random()), packages=r.choice([1, 1, 2]), types=3, objects=1, checks=2, depth=2,
                         wrong=0, unions=.3, null=.5).program()
            cases.append(chk.case([f for f in fs if f[0].endswith(".rsl")]))
        verify(chk, cases, DOM, chk.scale(60, 150), 6)
    props.rounds(chk, more)
