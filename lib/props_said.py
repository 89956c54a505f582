"""C28: messages about something elsewhere."""
import os, random, re
import gen, impl
import props_verify as pv
from props import rounds

PLACE = re.compile(r"([^\s()]*):(\d+)(?!\d)")


def judge(c, e, o):
    """Each error that follows from something elsewhere says where that is."""
    res = impl.compare(c, e, o)
    if e["open"] or e["brk"] or res:
        return res
    names = [f["name"] for f in sorted(c["files"], key=lambda f: f["name"])]
    for m, x in zip(e["msgs"], impl.spec_messages(c, e)):
        if m["at"][1] == 0:
            continue
        said = [y[5] for y in o["msgs"] if impl.fits(x, y)]
        where = (names[m["at"][0] - 1], m["at"][1])
        if not any((os.path.basename(n), int(l)) == (os.path.basename(where[0]), where[1]) for t in said for n, l in PLACE.findall(t)):
            res.append(("elsewhere", "the error at %s:%d:%d does not refer to %s:%d: %s" % (x[:3] + where + (said,))))
    return res


def spread(r, text):
    """The same over several lines."""
    toks = gen.tokens(text)
    rate = r.choice([0, .2, .5, .8])
    return "".join(t + ("\n" if r.random() < rate else " ") for t in toks)


SMALL = {"Integer": ["0", "1", "-1", "2"], "Decimal": ["0.0", "1.0", "-0.5"], "Boolean": ["true", "false"],
         "String": ['""', '"a"', '"ab"'], "Markup_String": ['""', '"a"'], "En": ["En.A", "En.B"], "Ot": ["o1", "o2"], "[Ua, Ub]": ["u1", "u2"],
         "[Ua, Ot]": ["u1", "o1"]}


def value(r, typ):
    if typ.startswith("optional "):
        return None if r.random() < .5 else value(r, typ[9:])
    if typ in SMALL:
        return r.choice(SMALL[typ])
    if typ in ("Tu", "Tc", "Tw"):
        return r.choice(["0", "1", "-1"]) + r.choice(["", ":0", ":1"])
    if typ == "Tp":
        return "(%s, %s)" % (r.choice(SMALL["Boolean"]), r.choice(SMALL["Decimal"]))
    el, lo, hi = re.match(r"(\w+) \[(\d) \.\. (\d|\*)\]", typ).groups()
    k = r.randint(int(lo), 3 if hi == "*" else int(hi))
    return "[%s]" % ", ".join(value(r, el) for _ in range(k))


def failing(r, risk=None):
    """Checks over several lines, which may not be evaluable on the objects."""
    checks = [(risk, "error")] if risk else [x if isinstance(x, tuple) else (x, r.choice(["error", "warning", "fatal"]))
              for _ in range(r.choice([1, 1, 2])) for x in pv.risky(r)]
    if r.random() < .5:
        checks = checks[-1:]
    used = sorted(set().union(*(pv.names(x) for x, _ in checks)))
    text = pv.PROLOG + "type R1 { %s }\n" % " ".join("%s %s" % (c, pv.COMPS[c]) for c in used)
    one = "checks R1 {\n%s}\n" % "".join("%s\n, %s \"c\"\n" % (spread(r, x), s) for x, s in checks)
    fs = [("a.rsl", text + one)] if r.random() < .6 else [("a.rsl", text), ("b.rsl", "package P\n" + one)]
    objs = "package P\nOt o1 { v = 0 }\nOt o2 { v = 1 w = 0 }\nUa u1 { v = 0 }\nUb u2 { v = 1 k = 0 }\n"
    for i in range(5):
        vs = [(c, value(r, pv.COMPS[c])) for c in used]
        objs += "R1 x%d {\n%s}\n" % (i, "".join("  %s =\n %s\n" % v for v in vs if v[1]))
    return fs + [("o.trlc", objs)]


NAMES = ["aa", "AA", "a_a", "bb", "B_b", "cc"]


def twice(r):
    """Names that are declared again, or nearly, here or in another file."""
    n = lambda: r.choice(NAMES)

    def decl():
        x = r.randrange(7)
        if x == 0:
            return "type %s { %s Integer\n %s\noptional Integer }\n" % (n(), n(), n())
        if x == 1:
            return "enum %s { %s\n%s }\n" % (n(), n(), n())
        if x == 2:
            return "tuple %s { %s Integer separator :\n%s Integer }\n" % (n(), n(), n())
        if x == 3:
            return "type S%d extends %s\n{ %s Integer }\n" % (r.randrange(3), r.choice("RRFHI"), r.choice(["q", "Q", "xs", "x_s", "y", "p", "P_", "z", "xt", n()]))
        if x == 4:
            return "type S%d extends %s { freeze q = \n %d freeze %s = 3 }\n" % (r.randrange(3), r.choice("FFHI"), r.randrange(3), r.choice(["q", "p"]))
        if x == 5:
            return "checks R { (forall\n%s in xs =>\n%s > 0), \"c\" }\n" % (r.choice(["q", "xs", "e", "e", n()]), r.choice(["q", "e"]))
        return "checks R { (forall e in xs => e >\n0 and (exists\n%s in xs => e > 1)), \"c\" }\n" % r.choice(["e", "d", "q", "E"])
    base = "type R {\nq Integer\nxs Integer [0 .. *]\n}\ntype F extends R { p optional Integer\nfreeze\nxs = [] }\n"
    base += "type H extends F { z\noptional Integer }\ntype I extends H {\nx_t optional Integer }\n"
    if r.random() < .3:
        base += "type G extends F {\nfreeze q =\n1 }\n"
    out = [decl() for _ in range(r.choice([1, 2, 3]))]
    k = r.randrange(len(out) + 1)
    files = [("a.rsl", "package P\n" + base + "".join(out[:k]))]
    if k < len(out):
        files.append(("b.rsl", "package P\n" + "\n" * r.randrange(3) + "".join(out[k:])))
    objs = "".join("%s %s { %s %s }\n" % (r.choice("RRFHI"), r.choice(NAMES + ["q", "P"]),
                                           r.choice(["q =\n 1", "q = 1", "q = 1", ""]), r.choice(["xs = [1]", "xs = []", ""])) for _ in range(r.choice([1, 2, 3])))
    objs = re.sub(r"([FHI] \w+ \{.*?) xs = \[1?\]", r"\1", objs, flags=re.S)
    files.append(("o.trlc", "package P\n" + objs))
    if r.random() < .4:
        files.append(("p.trlc", "package P\n" + "R %s {\nq = 1 xs = []\n}\n" % n()))
    return files


def C28(chk):
    def more(k):
        r = chk.rng
        cases = [chk.case(failing(r)) for _ in range(chk.scale(160, 1600))]
        cases += [chk.case(failing(r, x)) for x in pv.RISKS for _ in range(chk.scale(2, 6))]
        cases += [chk.case(twice(r), rec=r.random() < .3) for _ in range(chk.scale(260, 2000))]
        for _ in range(chk.scale(60, 500)):
            fs = gen.Gen(random.Random(r.random()), types=4, objects=4, checks=3, guard=.2, wrong=.05, null=.5).program()
            cases.append(chk.case(fs))
        for c, exp, o in chk.conform(cases, {"elsewhere", "message", "crash"}, judge=judge):
            for m in exp[0]["msgs"]:
                if m["at"][1]:
                    chk.count("refers to the same file" if m["at"][0] == m["f"] else "refers to another file")
    rounds(chk, more)
