"""C27: the objects the verifier gives as examples."""
import io, os, random, re, shutil
import gen, harness, impl
import props_verify as pv
from props import rounds

WRONG = re.compile(r"matches\(")


def observe(case):
    """What the verifier finds, and its examples."""
    from trlc.errors import Message_Handler
    from trlc.trlc import Source_Manager
    root = impl.scratch()
    found = []

    class Heard(Message_Handler):
        def check(self, location, message, check, explanation=None):
            found.append([location.line_no, location.col_no, pv.failure(check, message), explanation])
            super().check(location, message, check, explanation)
    try:
        impl.write_files(root, case["files"])
        mh = Heard(out=io.StringIO())
        sm = Source_Manager(mh, lint_mode=True, verify_mode=True, parse_trlc=False)
        for f in case["files"]:
            sm.register_file(os.path.join(root, f["name"]))
        try:
            sm.process()
        except Exception as e:
            return {"crash": "%s(%s)" % (type(e).__name__, e), "found": []}
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return {"crash": None, "found": found}


def frozen(text, name):
    """Components of a type that are frozen."""
    m = re.search(r"^(?:abstract |final )?type %s\b[^{]*\{(.*?)\}$" % name, text, re.M | re.S)
    res = re.findall(r"freeze (\w+)", m.group(1)) if m else []
    up = re.search(r"^(?:abstract |final )?type %s extends (\w+)" % name, text, re.M)
    return set(res) | (frozen(text, up.group(1)) if up else set())


EXAMPLE = re.compile(r"example (record_type|tuple_type) triggering error:\n  (\w+) bad_potato \{\n(.*)  \}(\n.*)?$", re.S)


def replayed(chk, files, finding):
    """A case in which the example is an object, or why there is none."""
    text = files[-1][1]
    line, col, kind, shown = finding
    m = EXAMPLE.match(shown or "")
    if not m:
        return "no example"
    form, name, body, note = m.groups()
    if note or "???" in body or "/* unable" in body or re.search(r"\d / \d", body):
        return "example said to be unreliable or not precise"
    checks = text.split("\n")[line - 1]
    if kind == "null" and "if" in gen.tokens(checks):
        return "null in a branch of a conditional"
    extra, out = "", "package P\n"
    fro = frozen(text, name)
    lines = [x for x in body.split("\n") if x]
    if form == "tuple_type":
        values = [x.split(" = ")[1] for x in lines if " = " in x]
        extra = "type Wrap { wrapped %s }\n" % name
        out += "Wrap bad_potato {\n  wrapped = %s\n}\n" % "@".join(values)
    else:
        if re.search(r"^abstract type %s\b" % name, text, re.M):
            extra = "type Able extends %s { }\n" % name
            name = "Able"
        out += "%s bad_potato {\n%s\n}\n" % (name, "\n".join(
            x for x in lines if x.split(" = ")[0].strip() not in fro))
        there = "package Q\n"
    for x in sorted(set(re.findall(r"((?:Q\.)?)\b(?:([A-Z][a-z])_)?(instance_\d+)\b", body))):
        new = {"": "Ua %s { v = 1 }\n", "Ot": "Ot Ot_%s { v = 1 }\n"}[x[1]] % x[2]
        if x[0]:
            there += new
        else:
            out += "Q." * (not x[1] and "import Q" in text) + new
    if "import Q" in text:
        out = out.replace("package P\n", "package P\nimport Q\n", 1)
        files = files[:-1] + [("q.trlc", there)] + files[-1:]
    return dict(chk.case(files[:-1] + [("a.rsl", text + extra), ("a.trlc", out)]), finding=finding)


def main(c):
    return [f["text"] for f in c["files"] if f["name"] == "a.rsl"][0]


def judge(c, e, o):
    """The example has to fail where the finding is."""
    line, col, kind, shown = c["finding"]
    if e["open"]:
        return []
    what = "the object given as example for %d:%d %s " % (line, col, kind)
    errors = [m for m in impl.spec_messages(c, e) if m[3] == "error"]
    if e["given"] != 1 or len(errors) > 1:
        return [("example", what + "is not valid: %s\n%s" % ([m[:3] for m in errors], shown))]
    place = lambda f: (f["at"] if f["at"][0] else f["chk"])[1:]
    hit = [f for f in e["facts"] if f["r"] == kind and place(f) == [line, col]]
    if not hit and re.search(r"\b(forall|exists)\b", main(c).split("\n")[line - 1]):
        # the verifier knows no order of elements, so that an element
        # before the one that fails may have settled the expression
        return []
    if not hit:
        return [("example", what + "does not fail there: %s\n%s" % (
            [(f["r"], place(f)) for f in e["facts"] if f["chk"][1] <= line], shown))]
    # Of the checks of other types only the values are taken for granted
    lines = main(c).split("\n")
    own = max(i for i in range(line) if lines[i].startswith("checks "))
    before = [f for f in e["facts"] if f["i"] < hit[0]["i"] and f["sev"] == "fatal"
              and (f["r"] == "false" or f["r"] != "true" and f["chk"][1] > own)]
    if before:
        return [("example", what + "fails a fatal check before, at %s\n%s" % (before[0]["chk"][1:], shown))]
    return impl.compare(c, e, o)


def plain(r):
    """A program none of whose checks looks through a reference."""
    while True:
        t = pv.program(r, r.choice([1, 2, 2, 3]))
        checks = [x for x in t.split("\n") if re.search(r', \w* ?"c"$', x)]
        if not any(pv.deref(x) or WRONG.search(x) for x in checks):
            return t


TEXTS = ['"a"', '"a\\"b"', '"\\""', '"it\'s"', "'''a\"b'''", "'''a\nb'''", "'''a\n  \"b\nc'''", "\"\"\"a'''b\nc\"\"\"", "'''a\\b'''",
         "'''a\\'''", '"a b"', '"\u00fc"', '"a // b"', "'''\\\"'''"]
SPEAKS = ["s == %s implies 1 / a > 0", "s != %s or 1 / a > 0", "os == %s implies 1 / a > 0", "os == %s implies b > 0",
          "startswith(s, %s) implies 1 / a > 0", "s == %s and b > 0", "os != null and os == %s implies 1 / a > 0",
          "s + s == %s + %s implies 1 / a > 0", "endswith(s, %s) implies b > 0", "len(s) > 1 implies s == %s or 1 / a > 0",
          "ss[0] == %s implies 1 / a > 0", "%s in s implies 1 / a > 0", "tq.p == %s implies 1 / tq.q > 0"]


def speaking(r):
    """A program in which certain texts matter."""
    t = pv.PROLOG + "tuple Tq { p String q Integer }\n"
    t += "type R1 { s String os optional String a Integer b optional Integer ss String [1 .. 2] tq Tq }\n"
    form = r.choice(SPEAKS)
    return t + "checks R1 {\n  %s, \"c\"\n}\n" % form.replace("%s", r.choice(TEXTS))


FIGURES = ["d == %s implies 1 / a > 0", "d != %s or b > 0", "od == %s implies b > 0", "d + %s == 0.0 implies 1 / a > 0", "d * 2.0 == %s implies b > 0",
           "d < %s or d > %s or 1 / a > 0", "d / 4.0 == %s implies 1 / a > 0", "ds[0] == %s implies b > 0", "tz.k == %s implies 1 / a > 0",
           "tz.m != null implies tz.n > 0", "ty.m == null implies ty.n == null or 1 / a > 0", "tz.n != null or tz.m > 0", "ty.n > 0", "tz.o == null or b > 0",
           "ty.o != null implies ty.m + ty.n + ty.o > 0", "ty.m == null implies ty.o > 1", "oz != null and oz.n == null implies oz.o > 0",
           "a == %d implies b > 0", "a > %d implies 1 / (a - %d - 1) > 0", "a * 2 == %d implies 1 / (b + 1) > 0", "len(ds) == 3 implies b > 0",
           "tz == ty implies b > 0", "ty.m != null and ty.n == null implies b > 0", "f implies not g or b > 0", "not g implies b > 0",
           "tx.k == 3 implies b > 0", "tx.k == %d and tx.m != null implies b > 0", "tx.e == En.B implies b > 0", "tx.m == null or tx.e == En.A or b > 0",
           "tx.m == 0 and tx.k == 0 implies 1 / a > 0", "tx.s == \"a b\" and tx.e != null implies b > 0"]
DECIMALS = ["0.05", "-0.05", "10.25", "0.0000001", "-3.125", "123456789.000000001", "0.1234567890123456789", "100.0", "-100.010", "0.5", "99999999999999999999.5"]
INTEGERS = ["10", "-1", "1000000", "-123456789", "99999999999999999999"]


def figures(r):
    """A program in which certain numbers and fields of tuples matter."""
    t = pv.PROLOG + "tuple Ty { k Decimal separator : m optional Integer separator ; n optional Integer separator @ o optional Integer }\n"
    t += "tuple Tx { k Integer separator x m optional Integer separator from e optional En separator @ s optional String }\n"
    t += "type R1 { tx Tx d Decimal od optional Decimal a Integer b optional Integer ds Decimal [1 .. 3] tz Ty ty Ty oz optional Ty f Boolean g Boolean }\n"
    form = r.choice(FIGURES)
    return t + "checks R1 {\n  %s, \"c\"\n}\n" % form.replace("%s", r.choice(DECIMALS)).replace("%d", r.choice(INTEGERS))


ABROAD = ["qe == Q.Qe.M implies 1 / a > 0", "qe != Q.Qe.M or 1 / a > 0", "oq != Q.Qe.L implies 1 / a > 0", "oq == qe and b > 0",
          "es[0] == Q.Qe.M and b > 0", "tq.e == Q.Qe.L implies 1 / tq.n > 0", "r != null implies 1 / a > 0", "r == null or b > 0",
          "r == r2 implies 1 / a > 0", "r != r2 implies 1 / a > 0", "len(rs) > 1 implies rs[0] != rs[1] or b > 0", "rs[0] == r2 implies b > 0",
          "r2 in rs implies 1 / a > 0", "u == u2 implies b > 0", "u != u2 implies 1 / a > 0", "tq == tp implies b > 0"]


def abroad(r):
    """A program in which types of another package matter."""
    q = "package Q\nenum Qe { K L M }\ntuple Qt { e Qe separator ; n Integer }\ntype Ot { v Integer }\ntype Ua { v Integer }\n"
    t = "package P\nimport Q\nenum Qe { A }\ntype Ot { v Integer }\n"
    t += ("type R1 { qe Q.Qe oq optional Q.Qe a Integer b optional Integer es Q.Qe [1 .. 2] tq Q.Qt tp Q.Qt\n"
          "  r optional Q.Ot r2 Q.Ot rs Q.Ot [1 .. 2] u [Q.Ot, Q.Ua] u2 [Q.Ot, Q.Ua] }\n")
    if r.random() < 0.4:
        t += "type S1 extends R1 { }\n"
    return [("q.rsl", q), ("a.rsl", t + "checks %s {\n  %s, \"c\"\n}\n" % (r.choice(["R1", "S1"]) if "S1" in t else "R1", r.choice(ABROAD)))]


def C27(chk):
    def more(k):
        r = chk.rng
        some = lambda x: abroad(r) if x < 0.1 else [
            ("a.rsl", speaking(r) if x < 0.25 else figures(r) if x < 0.45 else plain(r))]
        progs = [chk.case(some(r.random())) for _ in range(chk.scale(240, 1200))]
        obs = harness.parallel(observe, [dict(c, verify=True, slow=60) for c in progs])
        cases = []
        for c, o in zip(progs, obs):
            if o.get("hang"):
                chk.count("verifier took too long")
                continue
            if o["crash"]:
                chk.violation("the verifier crashes: %s" % o["crash"], {"case": c})
                continue
            for f in o["found"]:
                if f[2] not in ("null", "zero", "index", "beyond"):
                    continue
                x = replayed(chk, [(x["name"], x["text"]) for x in c["files"]], f)
                if isinstance(x, str):
                    chk.count(x)
                else:
                    cases.append(x)
                    chk.count("examples for " + f[2])
        chk.conform(cases, {"example", "message", "result", "crash"}, module="Example", judge=judge)
    rounds(chk, more)
