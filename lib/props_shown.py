"""C23: how messages are shown."""
import random, re
import gen, harness, impl, tlc

BUILTIN = re.compile(r"(\.\./)+<builtin>")
GAPS = [" ", " ", " ", "  ", "\t", " \t ", "\n", "\n", "\n   ", "\n\t", "\n\n \t ", "\r\n  ", " /* c */ ", " // c\n ", "\x0c",
        " /* a\n  b */ "]
MORE = ['"one line"', '"tab\there   "', '""', "'''a\n  b  \n\n  c'''", '"""first\r\nsecond  """', "''' x '''",
        '"""say \\"so\\"\n\tmore"""', '"\u00e9\u4e2d"', "'''\n'''", '"""1\x0b2\x1c3"""', '"   indented"',
        '"\tindented"', "''' \t x\n y\n  z'''"]
SPECIAL = [
    # the first and the last place of a text, no line end, empty lines
    ("a.rsl", "x"), ("a.rsl", "\tx package"), ("a.rsl", "\n\n  type"), ("a.rsl", "package"), ("a.rsl", "package P\ntype T {"),
    ("a.rsl", "package P type T { } type T { }"), ("a.rsl", "package P type T { x Integer x Integer }\n"),
    ("a.rsl", "package P\n\ttype\tT\t{\tx\tFoo\t}\ttype\tt\t{ }"), ("a.rsl", "package P\ntype T { x String }\nchecks T { x == 1, \"m\" }"),
    ("a.rsl", "package P\r\ntype T { }\r\n  type T { }\r\n"), ("a.rsl", "package P\rtype T { }\r  type T { }"),
    ("a.trlc", "package P T o { }"), ("a.trlc", ""), ("a.trlc", "\n"), ("a.trlc", "  \n\t"),
    # text of several lines is marked on its first
    ("a.rsl", "package P '''a\nb''' type"), ("a.rsl", 'package """a b\n c\n"""'), ("a.rsl", "package P type T '''d\n''' '''\ne'''"),
    ("a.rsl", "package P type T { x Integer }\nchecks T { x == '''a\nb''', \"m\" }"),
    ("a.rsl", "package P type T { x Integer }\nchecks T { x ==\t\"a\tb\", \"m\" }"),
    ("a.rsl", "package \"\u00e9\u4e2d\U0001f600\" P"), ("a.rsl", "package P type T \"\u00e9\u4e2d\U0001f600\" { x \"\u00e9\" }"),
    # what is no token
    ("a.rsl", "package P\n  type T { x Integer [0 .. 1_] }"), ("a.rsl", "package P ?"), ("a.rsl", "package P\n\t\"abc"),
    ("a.rsl", "package P '''abc"), ("a.rsl", "package 'P'"), ("a.rsl", "package P\n type T { } 0b12"), ("a.rsl", "package P 1.2.3"),
]


def respace(r, text, p):
    res = []
    for t in gen.tokens(text):
        if t.isspace() and r.random() < p:
            t = r.choice(GAPS)
        res.append(t)
    return "".join(res)


def explained(r, text):
    return re.sub(r'(, (?:warning |fatal |error )?"m\d+")(?:, "more \d+")?',
                  lambda m: m.group(1) + (", " + r.choice(MORE) if r.random() < .6 else ""), text)


def programs(chk, n):
    for _ in range(n):
        r = random.Random(chk.rng.random())
        files = gen.Gen(r, packages=r.choice([1, 1, 2]), types=3, objects=3, checks=r.choice([1, 3]), depth=2,
                        wrong=r.choice([0, 0, .05, .2]), unions=.3, abstract=.3).program()
        files = [[f, explained(r, t) if f.endswith("rsl") else t] for f, t in files]
        if r.random() < .5:
            files = gen.respell(r, files)
        p = r.choice([0, .1, .4])
        files = [[f, respace(r, t, p)] for f, t in files]
        if r.random() < .3:
            i = r.randrange(len(files))
            files[i][1] = r.choice([gen.mutate, gen.mutate, gen.mutate_char])(r, files[i][1], 1)
        if r.random() < .2:
            files = [[f, t.rstrip()] for f, t in files]
        if r.random() < .3:
            files = [[r.choice(["d/", "d/e/", "d/d/", "ad/d/", "x/a.rsl/"]) + f, t] for f, t in files]
        yield chk.case(files, lint=r.random() < .5, rec=r.random() < .5)


def failing(chk, n):
    """Checks that fail, in all layouts."""
    for _ in range(n):
        r = random.Random(chk.rng.random())
        names = ["x", "long_name", "y1"]
        cs, objs = [], []
        for k in range(r.randint(1, 5)):
            e = r.choice(["false", "x == 1", "long_name != null", "x / (x - x) == 1", "y1[x] == 1", "t.p < t.q", "x > 2 and x < 1"])
            cs.append('%s, %s"%s"%s%s' % (e, r.choice(["", "warning ", "error ", "fatal "]),
                                          r.choice(["m", "a longer message", "%s", "{}", "x:1: error: y", "^^^"]),
                                          ", " + r.choice(MORE) if r.random() < .7 else "",
                                          ", " + r.choice(names + ["t"]) if r.random() < .5 else ""))
        for k in range(r.randint(1, 3)):
            comps = ["x = %d" % r.choice([2, 1000, -3]), "long_name = %s" % r.choice(['"s"', '"tab\tbed"', "'''two\n  lines'''"]),
                     "y1 = [1,\n 2, %d]" % r.randrange(5), "t = (%d, 3)" % r.randrange(6)]
            r.shuffle(comps)
            objs.append("T o%d {\n  %s\n}" % (k, "\n  ".join(comps)))
        rsl = "package P\ntuple U {\n p Integer\n q Integer\n}\nchecks U {\n p < 4, warning \"tuple\", %s\n}\n" % r.choice(MORE) + \
            "type T {\n x Integer\n long_name optional String\n y1 Integer [0 .. 9]\n t U\n}\nchecks T {\n %s\n}\n" % "\n ".join(cs)
        p = r.choice([0, .2, .6])
        yield chk.case([["a.rsl", respace(r, rsl, p)], ["b.trlc", respace(r, "package P\n" + "\n".join(objs) + "\n", p)]],
                       lint=r.random() < .3)


def explanations(c, e, m):
    """The explanation of a message, None if it is not determined."""
    if not m[3].startswith("check"):
        return None
    fit = [x for x in e["msgs"] if impl.fits(impl.spec_messages(c, {"msgs": [x]})[0], m)]
    texts = {tuple(x["ex"]) for x in fit}
    return list(texts.pop()) if len(texts) == 1 else None


def compare(brief, shown, free, raw, info):
    """The output against what the specification shows."""
    lines = raw.split("\n")
    if lines.pop() != "":
        return "the output does not end with a line end"
    at = 0

    def take():
        nonlocal at
        at += 1
        return lines[at - 1] if at <= len(lines) else None
    for m, s, open_ in zip(brief, shown, free):
        msg = impl.text(s["msg"])
        if s["n"] < 0 or m[1:3] == [1, 1] and at < len(lines) and lines[at].startswith(m[0] + ":1:1: "):
            if s["n"] >= 0:                          # at the end of the text
                msg = msg.replace(":1: ", ":1:1: ", 1)
            for want in msg.split("\n"):
                got = take()
                if got != want:
                    return "%r instead of %r" % (got, want)
            indent = 0
        else:
            got, want = take(), impl.text(s["line"])
            if got != want:
                return "%s: line shown as %r instead of %r" % (m[:5], got, want)
            first, *others = msg.split("\n")
            got = take()
            x = re.match(r"( *)(\^+) ", got or "")
            if not x or got[x.end():] != first:
                return "%r instead of %r" % (got, " " * s["off"] + "^" * max(1, s["n"]) + " " + first)
            off, n = len(x.group(1)), len(x.group(2))
            if s["n"] and (off, n) != (s["off"], s["n"]):
                return "%s: %d marked from %d on instead of %d from %d on" % (m, n, off, s["n"], s["off"])
            if not s["n"] and not (s["off"] <= off and off + n <= max(len(want), off + 1)):
                return "%s: %d marked from %d on, though it begins at %d" % (m, n, off, s["off"])
            for want in others:
                got = take()
                if got != want:
                    return "%r instead of %r" % (got, want)
            indent = off + n - 1
        if open_ and info:
            while at < len(lines) and lines[at].startswith(" " * indent + "| "):
                at += 1
        else:
            for want in s["ex"]:
                got, want = take(), " " * indent + "| " + impl.text(want)
                if got != want:
                    return "explanation %r instead of %r" % (got, want)
    return None if at == len(lines) else "more output: %r" % lines[at:at + 3]


def shown(chk, cases):
    """Every case in brief, and in some detailed styles."""
    rows = chk.conform(cases, {"crash", "message"})
    jobs, of = [], []
    for c, exp, o in rows:
        if o["crash"] or o.get("hang") or o["res"] == "refused":
            continue
        for info in (False, True):
            v = dict(c, wordy=1 + info)
            if chk.rng.random() < .5:
                v["strip"] = chk.rng.choice(["", "d/", "d/", "d", "a", "x", "a.", "d/d/"])
            jobs.append(v)
            of.append((c, exp[0], o, info))
    obs = harness.parallel(impl.observe, jobs)
    asked, what = [], []
    for i, (v, (c, e, o, info)) in enumerate(zip(jobs, of)):
        names = [f["name"] for f in c["files"]]
        if any(m[0] not in names for m in o["msgs"]) or obs[i].get("crash") or obs[i].get("hang"):
            chk.count("outputs with other messages")
            continue
        exs = [explanations(c, e, m) for m in o["msgs"]]
        asked.append({"id": i + 1, "info": info, "strip": tlc.codes(v.get("strip", "")),
                      "files": [{"name": tlc.codes(f["name"]), "text": tlc.codes(f["text"])} for f in c["files"]],
                      "msgs": [{"f": names.index(m[0]) + 1, "l": m[1], "c": m[2], "eof": False, "ex": x or [],
                                "tail": tlc.codes("%s: %s%s" % (m[3], m[5], " [%s]" % m[4] if m[4] else ""))}
                               for m, x in zip(o["msgs"], exs)]})
        what.append((v, o, exs, obs[i]["raw"], info))
    outs, res = tlc.by_id(tlc.run_rows(asked, "Shown"))
    chk.states += res.distinct
    chk.transitions += res.states
    for a, (v, o, exs, raw, info) in zip(asked, what):
        s = outs[a["id"]][0]["out"]
        strip = v.get("strip", "")
        named = [[m[0][len(strip):] if m[0].startswith(strip) else m[0], *m[1:]] for m in o["msgs"]]
        chk.count("outputs")
        chk.count("messages with source line", sum(x["n"] >= 0 for x in s))
        chk.count("messages whose extent is determined", sum(x["n"] > 0 for x in s))
        chk.count("explanations", sum(bool(x["ex"]) for x in s))
        for x in s:                                  # not a file: how far up it is does not matter
            x["msg"] = tlc.codes(BUILTIN.sub("<builtin>", impl.text(x["msg"])))
        d = compare(named, s, [x is None for x in exs], BUILTIN.sub("<builtin>", raw), info)
        if d:
            chk.violation(d, {"case": v, "brief": o["msgs"], "output": raw})


def C23(chk):
    import props

    def more(k):
        cases = list(failing(chk, chk.scale(150, 800))) + list(programs(chk, chk.scale(300, 1500)))
        if k == 0:
            cases += [chk.case([s] if s[0] == "a.rsl" else [("p.rsl", "package P type T { x Integer }"), s], lint=l, rec=r)
                      for s in SPECIAL for l, r in ((False, False), (True, True))]
        shown(chk, cases)
    props.rounds(chk, more)
