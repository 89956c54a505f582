"""Checks on type declarations, objects, values and references (C05 to C08)."""
import itertools, random
import gen
from props import programs, rounds, sampled

# --------------------------------------------------------- C05 declarations

TUP_PRE = ("package P\nenum E { a b }\ntuple Plain { p Integer }\ntuple Sepd { p Integer separator @ q Integer }\n"
           "type R { x Integer }\nfinal type Fi { x Integer }\n")
FIELD_T = ["Integer", "Plain", "Sepd", "T", "R", "String"]


def tuple_decls():
    """Tuple declarations of up to three fields."""
    for n in (1, 2, 3):
        for ts in itertools.product(FIELD_T[:4] if n > 2 else FIELD_T, repeat=n):
            if n == 3 and len(set(ts)) == 3:
                continue
            for opts in itertools.product(("", "optional "), repeat=n):
                for gaps in itertools.product((" ", "@", ":", "x") if n == 2 else (" ", ";"), repeat=n - 1):
                    yield "tuple T { %s }" % "".join(
                        "%s%s %s%s " % ("" if k == 0 or gaps[k - 1] == " " else "separator %s " % gaps[k - 1],
                                        "abcd"[k], opts[k], t) for k, t in enumerate(ts))


def tuple_seps():
    for s in ["@", ":", ";", "x", "type", "separator", "optional", ",", ".", "..", "+", "1", "1.5", '"s"', "(", ")",
              "=", "=>", "", "X", "a", "b", "p", "separator separator", "@ @", "// c\n @", "Integer", "null"]:
        yield "tuple T { a Integer separator %s b Integer }" % s
        yield "tuple T { a Integer separator %s b optional Integer }" % s
        yield "tuple T { a Integer separator @ b Integer separator %s c Integer }" % s
    for o in itertools.product(("", "optional "), repeat=3):
        for s in itertools.product(("", "separator : "), repeat=3):
            yield "tuple T { a Integer %sb %sInteger %sc %sInteger %sd %sInteger }" % (s[0], o[0], s[1], o[1], s[2], o[2])
    for t in ["tuple T { }", "tuple { a Integer }", "tuple T a Integer", "tuple T { a }", "tuple T { Integer a }",
              "tuple T { a Integer", "tuple T { a Integer [0 .. 1] }", "tuple T { a [R] }", "tuple T { a [R, Fi] }",
              "tuple T { a [T] }", "tuple T { a optional [R] }", "tuple T { separator @ a Integer }",
              "tuple T { a Integer separator @ }", "tuple T { a Integer separator @ b }",
              "tuple T extends Plain { a Integer }", "abstract tuple T { a Integer }", "final tuple T { a Integer }",
              "tuple T { freeze a = 1 }", "tuple T { a Integer, b Integer }", "tuple T { a Integer; b Integer }",
              'tuple T "d" { a "e" Integer }', 'tuple T { a "e" optional Integer }',
              'tuple T { a Integer separator @ b "e" optional Integer }', 'tuple "d" T { a Integer }',
              "tuple T { a T }", "tuple T { a Integer b T }", "tuple T { a U } tuple U { a T }",
              "tuple T { a E }", "tuple T { a Boolean separator x b Decimal }", "tuple T { a Markup_String }",
              "tuple T { a len }", "tuple T { a P }", "tuple T { a P.Plain }", "tuple T { a P.T }",
              "tuple T { a Integer } tuple T2 { a T separator @ b T }",
              "tuple T { a Sepd b Sepd }", "tuple T { a Plain separator @ b Sepd }",
              "tuple T { b Sepd separator @ a Sepd }"]:
        yield t


REC_HEADS = ["", "abstract ", "final ", "abstract final ", "final abstract "]


def record_chains(r, n):
    """Chains and trees of records with freezes."""
    for _ in range(n):
        k = r.randint(2, 5)
        names, out, comps, fro, fin = [], [], {}, {}, {}
        for i in range(k):
            me = "T%d" % i
            par = r.choice(names) if names and r.random() < 0.85 else None
            if r.random() < 0.05:
                par = r.choice(["E", "Plain", "Integer", "T%d" % i, "T%d" % (i + 1), "P.R", "P", "len", "Fi"])
            inh = dict(comps.get(par, {}))
            frz = set(fro.get(par, ()))
            head = r.choice(["", "", "", "abstract ", "final "] if r.random() < 0.97 else REC_HEADS)
            body = []
            isfin = fin.get(par, par == "Fi")
            for j in range(r.randint(0, 2)):
                if isfin and r.random() < 0.8:
                    break
                c = "c%d%d" % (i, j)
                ty = r.choice(["Integer", "String", "Plain", "Sepd", "E", "Integer [0 .. 2]", "optional Integer", "R",
                               "Decimal", "Boolean", "Markup_String", "[R, Fi]", "optional Sepd"])
                body.append("%s %s" % (c, ty))
                inh[c] = ty.replace("optional ", "")
            for c in sorted(inh):
                if r.random() < 0.3 and (c not in frz or r.random() < 0.15):
                    good = {"Integer": ["1", "-2"], "String": ['"s"'], "Plain": ["(1)", "(-1)"], "Sepd": ["1@2"],
                            "E": ["E.a", "P.E.b"], "Integer [0 .. 2]": ["[]", "[1, 2]", "[1]"], "R": ["rr", "P.rr"],
                            "Decimal": ["1.5"], "Boolean": ["true"], "Markup_String": ['"[[rr]]"'],
                            "[R, Fi]": ["rr"]}[inh[c]]
                    bad = ["1", "1.5", "(1)", "1@2", "null", '"s"', "[1]", "E.c", "[1, 2, 3]", "true", "x", "(1, 2)",
                           "zz", "-1.0", "1:2", "Q.rr"]
                    v = r.choice(good) if r.random() < 0.85 else r.choice(bad)
                    body.append("freeze %s = %s" % (c, v))
                    frz.add(c)
                    if r.random() < 0.08:
                        body.append("freeze %s = %s" % (c, r.choice(good)))
            if r.random() < 0.08:
                body.append(r.choice(["freeze zz = 1", "freeze C00 = 1", "freeze = 1", "freeze c00", "freeze x = 1",
                                      "c00 Integer", "freeze E = 1", "C_00 Integer"]))
            if r.random() < 0.3:
                r.shuffle(body)
            names.append(me)
            comps[me], fro[me], fin[me] = inh, frz, isfin or head.startswith("final")
            out.append("%stype %s%s { %s }" % (head, me, " extends " + par if par else "", " ".join(body)))
        if r.random() < 0.25:
            j = r.randrange(len(out) - 1)
            out[j], out[j + 1] = out[j + 1], out[j]
        yield out


MISC_DECLS = [
    "enum T { }", "enum T { a }", "enum T { a b }", "enum T { a a }", "enum T { a, b }", "enum T { a A }",
    'enum T "d" { a "x" b }', "enum T { a b", "enum { a }", "enum T a", "enum T { 1 }", "enum T { type }",
    "enum T { E }", "enum T { Integer }", "enum T extends E { c }", "abstract enum T { a }", "enum T { a = 1 }",
    "enum T { a_b ab }", "enum T { T }", 'enum T { "a" }', 'enum T "d" "e" { a }',
    "type T { }", "type T", "type { x Integer }", "type T { x }", "type T { Integer }", "type T { x Integer", "type T }",
    "type T extends { }", "type T extends R { }", "type T extends R { x Integer }", "type T extends R { y Integer }",
    "type T extends R extends Fi { }", "type T extends R, Fi { }", "type T extends E { }", "type T extends Plain { }",
    "type T extends T { }", "type T extends Integer { }", "type T extends Markup_String { }", "type T extends P { }",
    "type T extends P.R { }", "type T extends Q.R { }", "type T extends len { }", "type T extends U { } type U { }",
    "type T extends Fi { }", "type T extends Fi { y Integer }", "type T extends Fi { freeze x = 1 }",
    "type T extends Fi { freeze x = 1 y Integer }", "type T extends Fi { y Integer freeze x = 1 }",
    "final type T extends Fi { }", "final type T extends Fi { y Integer }", "abstract type T extends Fi { }",
    "abstract type T extends R { } final type U extends T { y Integer } type V extends U { z Integer }",
    "type T extends Fi { } type U extends T { y Integer }", "final type T { } type U extends T { y Integer }",
    "final type T { x Integer y optional String }", "abstract type T { x Integer }", "abstract type T { }",
    "type T { x Integer } type U extends T { freeze x = 1 } type V extends U { freeze x = 1 }",
    "type T { x Integer } type U extends T { freeze x = 1 } type V extends U { } type W extends V { freeze x = 2 }",
    "type T { x Integer } type U extends T { freeze x = 1 } type V extends T { freeze x = 2 }",
    "type T { x Integer freeze x = 1 }", "type T { x Integer freeze x = 1 freeze x = 1 }", "type T { freeze x = 1 x Integer }",
    "type T extends R { freeze x = 1 freeze x = 2 }", "type T extends R { freeze X = 1 }", "type T extends R { freeze y = 1 }",
    "type T extends R { freeze x }", "type T extends R { freeze x = }", "type T extends R { freeze x 1 }",
    "type T extends R { freeze x = 1.0 }", 'type T extends R { freeze x = "s" }', "type T extends R { freeze x = -1 }",
    "type T extends R { freeze x == 1 }", "type T extends R { freeze R = 1 }", "type T extends R { freeze P.x = 1 }",
    "type T extends R { freeze x = null }", "type T { x optional Integer } type U extends T { freeze x = 1 }",
    "type T { optional x Integer }", "type T { x Integer optional }", "type T { x optional optional Integer }",
    "type T { x optional Integer }", "type T { x optional }", "type T { x Integer y Integer }", "type T { x Integer, y Integer }",
    "type T { x Integer; y Integer }", "type T { x: Integer }", "type T { x = Integer }", "type T { x Integer x Integer }",
    'type T "d" { x "e" Integer }', 'type T "d" extends R { y "e" optional Integer }', 'type T { x optional "e" Integer }',
    'type T { x Integer "e" }', 'type "d" T { }', 'type T extends R "d" { }', "type T { x 'd' Integer }",
    "type T { x T }", "type T { x U } type U { y Integer }", "type T { x optional T }", "type T { x T [1 .. 2] }",
    "type T { x [T] }", "type T { x [T, R] }", "type T { x [R, R] }", "type T { x [R, T, R, Fi] }", "type T { x [R] }",
    "type T { x [] }", "type T { x [R,] }", "type T { x [R Fi] }", "type T { x [E] }", "type T { x [Plain] }",
    "type T { x [Integer] }", "type T { x [R, E] }", "type T { x [Q.R] }", "type T { x [P.R] }", "type T { x [[R]] }",
    "type T { x [R, P.R] }", "type T { x [R, P.R, R] }", "type T { x [P] }", "type T { x [U] } type U { }",
    "type T { x [R] [0 .. 1] }", "type T { x optional [R, Fi] [0 .. 1] }",
    "type T { x Integer [0 .. 1] [0 .. 1] }", "type T { x Integer [0 .. *] }", "type T { x Integer [* .. *] }",
    "type T { x Integer [1 .. 0] }", "type T { x Integer [0 .. 0] }", "type T { x Integer [1 .. 1] }",
    "type T { x Integer [5 .. *] }", "type T { x Integer [0..1] }", "type T { x Integer[0 .. 1] }",
    "type T { x Integer [0 .. 1 }", "type T { x Integer [0 ..] }", "type T { x Integer [.. 1] }", "type T { x Integer [-1 .. 1] }",
    "type T { x Integer [0 .. -1] }", "type T { x Integer [0 .. 1.0] }", "type T { x Integer [0.0 .. 1] }",
    "type T { x Integer [0 .. +] }", "type T { x Integer [0x1 .. 0b11] }", "type T { x Integer [0 .. 99999999999999999999] }",
    "type T { x Integer [0, 1] }", "type T { x Integer [1] }", "type T { x Integer [] }", "type T { x Integer [0 . . 1] }",
    "type T { x Integer [0 .. **] }", "type T { x Integer [0 ... 1] }", "type T { x Integer [E .. 1] }",
    "type T { x E }", "type T { x E.a }", "type T { x P.E }", "type T { x P }", "type T { x len }", "type T { x Q.E }",
    "type T { x Boolean y Decimal z String m Markup_String }", "type T { type Integer }", "type T { x type }",
    "type T { T Integer }", "type T { Integer Integer }", "type T { R Integer y R }", "type T { E E }", "type T { P P.E }",
    "final final type T { }", "abstract abstract type T { }", "final abstract type T { }", "type final T { }",
    "final T { }", "abstract { }", "record T { }", "Type T { }", "type T { } }", "type T { { } }", "type T { type U { } }",
    "checks R { }", "checks Plain { }", "checks Sepd { }", "checks E { }", "checks U { }", "checks Integer { }", "checks { }",
    "checks P.R { }", "checks R", "checks R { x > 0 }", 'checks R { x > 0 "m" }', 'checks R { x > 0, }',
    'checks R { x > 0, "m" }', 'checks R { x > 0, "m", x }', 'checks R { x > 0, "m", "n", x }', 'checks R { x > 0, "m", "n" }',
    'checks R { x > 0, "m", x, "n" }', 'checks R { x > 0, "m", y }', 'checks R { x > 0, "m", "n", y }', 'checks R { x > 0, "m", X }',
    'checks R { x > 0, "m", R }', 'checks R { x > 0, "m", }', 'checks R { x > 0, "m", 1 }', 'checks R { x > 0, "m", "n", }',
    'checks R { x > 0, "m", "n", "o" }', 'checks R { x > 0, warning "m" }', 'checks R { x > 0, error "m" }',
    'checks R { x > 0, fatal "m" }', 'checks R { x > 0, note "m" }', 'checks R { x > 0, type "m" }', 'checks R { x > 0, Warning "m" }',
    'checks R { x > 0, warning error "m" }', 'checks R { x > 0, warning, "m" }', 'checks R { x > 0, warning }',
    'checks R { x > 0, fatal "m", "n", x x < 9, warning "o", x }', 'checks R { x > 0, """m\nn""" }', "checks R { x > 0, '''m''' }",
    'checks R { x > 0, "m", """n\no""" }', 'checks R { x > 0, 1 }', 'checks R { , "m" }', 'checks R { "m" }', 'checks R { x, "m" }',
    'checks Plain { p > 0, "m", p }', 'checks Sepd { q > p, fatal "m", q }', 'checks Sepd { q > p, fatal "m", r }',
    'type T extends R { y Integer } checks T { x > y, "m", x }', 'type T extends R { y Integer } checks R { x > 0, "m", y }',
    'checks T { x > 0, "m" } type T { x Integer }', 'abstract type T { x Integer } checks T { x > 0, "m" }',
    'checks R { x > 0, "m" } checks R { x > 0, "n" }', 'checks R { x > 0, "m" } checks Sepd { q > p, "n" } checks R { x > 1, "o" }',
    "package Q", "import Q", "T x { }", "section \"a\" { }", "1", ";", "R", "checks", "enum", "tuple", "type", "abstract", "final",
]


def C05(chk):
    cases = []
    decls = list(tuple_decls())
    for d in sampled(chk, decls, 900):
        cases.append(chk.case([("a.rsl", TUP_PRE + d + "\n")], rec=chk.rng.random() < .3))
        chk.count("tuple declarations")
    for d in list(tuple_seps()) + MISC_DECLS:
        cases.append(chk.case([("a.rsl", TUP_PRE + d + "\n")]))
        chk.count("declarations from a list")
        if chk.thorough or chk.rng.random() < 0.4:
            cases.append(chk.case([("a.rsl", TUP_PRE + d + "\ntype After { x Integer }\n"),
                                   ("a.trlc", "package P\nAfter oo { x = 1 }\n")], rec=True, lint=True))
    # two declarations, the first of which may be wrong
    for d, e in sampled(chk, itertools.product(MISC_DECLS + list(tuple_seps()), repeat=2), 250):
        cases.append(chk.case([("a.rsl", TUP_PRE + d + "\n" + e.replace("T", "T_") + "\n")],
                              rec=chk.rng.random() < .7))
        chk.count("pairs of declarations")

    def more(k):
        new = []
        for out in record_chains(random.Random(chk.rng.random()), chk.scale(450, 3000)):
            obj = "package P\nR rr { x = 1 }\n"
            new.append(chk.case([("a.rsl", TUP_PRE + "\n".join(out) + "\n"), ("a.trlc", obj)],
                                rec=chk.rng.random() < .4))
            chk.count("record hierarchies")
        new += programs(chk, chk.scale(60, 500), mutants=0.6, chars=0.1, types=6, objects=1, checks=1, depth=1,
                        freeze=0.8, final=0.3, tuples=0.4)
        chk.conform((cases if k == 0 else []) + new)
    rounds(chk, more)


# --------------------------------------------------------------- C06 objects

HIER = [
    ("type T { a Integer b optional Integer }\n", "T"),
    ("type S { a Integer }\ntype T extends S { b optional Integer }\n", "T"),
    ("type S { b optional Integer }\ntype T extends S { a Integer }\n", "T"),
    ("type S { a Integer b Integer }\ntype T extends S { freeze b = 7 c Integer }\n", "T"),
    ("type S { a Integer b optional Integer }\ntype M extends S { freeze b = 7 }\ntype T extends M { c optional Integer }\n", "T"),
    ("abstract type S { a Integer b Integer }\ntype M extends S { freeze a = -1 }\nfinal type T extends M { freeze b = 2 }\n", "T"),
    ("abstract type S { a Integer }\nabstract type T extends S { b Integer }\n", "T"),
    ("abstract type S { a Integer }\nfinal type T extends S { b Integer c optional Integer }\n", "T"),
    ("type S { a Integer }\nabstract type T extends S { }\n", "T"),
    ("type S { a Integer }\nabstract type M extends S { b Integer }\ntype T extends M { }\n", "T"),
    ("type S { b Integer }\ntype T extends S { a optional Integer freeze b = 1 freeze a = 2 }\n", "T"),
    ("type S { a Integer }\ntype M extends S { freeze a = 1 }\ntype N extends S { b Integer }\ntype T extends N { }\n", "T"),
    ("type S { a Integer }\ntype M extends S { freeze a = 1 }\ntype T extends S { b Integer }\n", "S"),
    ("type T { }\n", "T"),
    ("enum T { a b }\n", "T"),
    ("tuple T { a Integer }\n", "T"),
    ("type S { a Integer }\n", "T"),
    ("type S { a Integer }\n", "Integer"),
    ("type S { a Integer }\n", "P"),
]
ASSIGN = ["a", "b", "c", "A"]


def objects_of(r):
    """A hierarchy of records, and objects with all sorts of assignments."""
    kinds = {"Integer": ["1", "-5", "0x10"], "Boolean": ["true", "false"], "String": ['"s"'], "Decimal": ["0.5", "-1.25"],
             "U": ["(1, 2)"], "V": ["1;2", "1"], "E": ["E.x", "E.y"], "Integer [0 .. 3]": ["[]", "[1]", "[1, 2, 3]"],
             "V [0 .. *]": ["[1;2, 3]", "[]"], "R": ["rr"]}
    rsl = "package P\nenum E { x y }\ntuple U { p Integer q Integer }\ntuple V { p Integer separator ; q optional Integer }\ntype R { z Integer }\n"
    types, par_of, comp_of, fro_of, abs_of = [], {}, {}, {}, {}
    count = itertools.count()
    for i in range(r.randint(1, 4)):
        t = "T%d" % i
        par = r.choice(types) if types and r.random() < .8 else None
        comps = dict(comp_of.get(par, {}))
        fro = set(fro_of.get(par, ()))
        body = ""
        for _ in range(r.randint(0, 3)):
            c = "c%d" % next(count)
            k, opt = r.choice(sorted(kinds)), r.random() < .4
            comps[c] = (k, opt)
            body += " %s %s%s\n" % (c, "optional " if opt else "", k)
        for c in comps:
            if c not in fro and r.random() < .25:
                fro.add(c)
                body += " freeze %s = %s\n" % (c, r.choice(kinds[comps[c][0]]))
        ab = r.random() < .25
        rsl += "%stype %s%s {\n%s}\n" % ("abstract " if ab else "", t, " extends " + par if par else "", body)
        types.append(t)
        par_of[t], comp_of[t], fro_of[t], abs_of[t] = par, comps, fro, ab
    objs = "R rr { z = 1 }\n"
    for n in range(r.randint(1, 5)):
        t = r.choice([x for x in types if not abs_of[x]] or types) if r.random() < .92 else r.choice(types + ["E", "U", "T9"])
        comps = comp_of.get(t, {})
        todo = [c for c in comps if c not in fro_of[t] and not (comps[c][1] and r.random() < .4)]
        x = r.random()
        if x < 0.08 and todo:
            todo.remove(r.choice(todo))
        elif x < 0.14 and todo:
            todo.append(r.choice(todo))
        elif x < 0.2 and comps:
            todo.append(r.choice(sorted(comps)))
        elif x < 0.25:
            todo.append(r.choice(["zz", "C0", "E", t]))
        if r.random() < .5:
            r.shuffle(todo)
        body = ""
        for c in todo:
            v = r.choice(kinds[comps[c][0]]) if c in comps else "1"
            if r.random() < 0.02:
                v = r.choice(["null", "", "1", '"s"'])
            body += " %s = %s\n" % (c, v)
        objs += "%s o%d {\n%s}\n" % (t, n, body)
    return rsl, objs


def C06(chk):
    cases = []
    for rsl, t in HIER:
        for n in range(0, 4):
            for names in itertools.product(ASSIGN, repeat=n):
                if n == 3 and (len(set(names)) == 1 or "A" in names) and not chk.thorough:
                    continue
                if "type T {" not in rsl and "extends" not in rsl and n > 1:
                    continue
                body = " ".join("%s = %d" % (c, k) for k, c in enumerate(names))
                cases.append(chk.case([("a.rsl", "package P\n" + rsl), ("a.trlc", "package P\n%s o { %s }\n" % (t, body))]))
                chk.count("assignments to small hierarchies")
    cross = [
        ("package P\nabstract type S { a Integer }\n", "package Q import P\ntype T extends P.S { b Integer }\n",
         ["package Q\nT o { a = 1 b = 2 }\n", "package Q import P\nP.S o { a = 1 }\n", "package Q\nS o { a = 1 }\n",
          "package P import Q\nQ.T o { a = 1 b = 2 }\n", "package P\nS o { a = 1 }\n", "package R import P import Q\nQ.T o { a = 1 }\n",
          "package R import P import Q\nQ.T o { b = 1 a = 2 }\n", "package R import P\nQ.T o { b = 1 a = 2 }\n"]),
        ("package P\ntype S { a Integer }\ntype M extends S { freeze a = 9 }\n", "package Q import P\ntype T extends P.M { b Integer }\n",
         ["package Q\nT o { b = 2 }\n", "package Q\nT o { a = 9 b = 2 }\n", "package Q\nT o { }\n", "package P\nM o { }\n",
          "package P\nS o { a = 3 }\nM p { }\n", "package P\nM o { a = 9 }\nS p { a = 1 }\n"])]
    for a, b, ts in cross:
        for t in ts:
            for rec in (False, True):
                cases.append(chk.case([("a.rsl", a), ("b.rsl", b), ("c.trlc", t)], rec=rec))
                chk.count("objects across packages")
    forms = ["T", "T o", "T o {", "T o }", "T { a = 1 }", "o { a = 1 }", "T o { a }", "T o { a = }", "T o { a 1 }", "T o { = 1 }",
             "T o { a = 1, }", "T o { a = 1; b = 2 }", "T o { a = 1, b = 2 }", "T o { a == 1 }", "T o { T.a = 1 }", "T o { a = null }",
             "T o { a = 1 b = null }", "T o (a = 1)", "T T { a = 1 }", "T o o { a = 1 }", "P.T o { a = 1 }", "P T o { a = 1 }",
             "Q.T o { a = 1 }", "T P.o { a = 1 }", "T \"o\" { a = 1 }", "T o \"d\" { a = 1 }", "type T o { a = 1 }", "T o { freeze a = 1 }",
             "T o { a = 1 } }", "{ T o { a = 1 } }", "T o { a = 1 } ;", "T o { T p { a = 1 } }", "T o { section \"s\" { } a = 1 }",
             "T o { a = 1 } T p { a = 2 }", "T a { a = 1 }", "T Integer { a = 1 }", "T len { a = 1 }", "t o { a = 1 }", "T 1 { a = 1 }",
             "T o { 1 = a }", "T o { a = 1 a }", "checks T { }", "type U { }", "import P", "package P"]
    for f in forms:
        for rec in (False, True):
            cases.append(chk.case([("a.rsl", "package P\ntype T { a Integer b optional Integer }\n"),
                                   ("a.trlc", "package P\n%s\nT z { a = 5 b = 6 }\n" % f)], rec=rec))
            chk.count("forms of objects")

    def more(k):
        new = []
        for _ in range(chk.scale(350, 3000)):
            rsl, objs = objects_of(random.Random(chk.rng.random()))
            new.append(chk.case([("a.rsl", rsl), ("a.trlc", "package P\n" + objs)], rec=chk.rng.random() < .5))
            chk.count("random hierarchies with objects")
        new += programs(chk, chk.scale(40, 500), mutants=0.4, chars=0.1, checks=0, objects=8, freeze=0.7)
        chk.conform((cases if k == 0 else []) + new)
    rounds(chk, more)


# ---------------------------------------------------------------- C07 values

VAL_PRE = ("package P\nenum E { a b }\nenum F { a c }\ntuple Plain { p Integer q Decimal }\ntuple One { p Integer }\n"
           "tuple Sep { p Integer separator @ q optional Integer separator : r optional Integer }\n"
           "tuple Let { p Integer separator x q Integer separator x r optional Boolean }\n"
           "tuple Str { p String separator ; q optional Plain separator : r optional E }\n"
           "tuple Nest { p Plain q One }\n"
           "type R { n optional Integer }\ntype R2 extends R { }\ntype R3 { n optional Integer }\ntuple Rf { p R separator ; q optional R }\ntuple InS { s Sep t Sep }\n")
VAL_TYPES = ["Integer", "Decimal", "Boolean", "String", "Markup_String", "E", "F", "R", "R2", "[R, R3]", "[R2]", "Plain", "One", "Sep",
             "Let", "Str", "Nest", "Rf", "InS", "Integer [0 .. *]", "Decimal [1 .. 2]", "E [2 .. 2]", "R [0 .. 1]", "[R2, R3] [0 .. 2]",
             "Plain [0 .. 2]", "Sep [0 .. 3]", "Str [1 .. *]", "String [0 .. 2]", "Boolean [0 .. 2]", "Markup_String [0 .. 2]"]
VALUES = ["1", "-1", "+1", "--1", "- 1", "0x1F", "1.5", "-1.5", "+0.0", "1.", ".5", "true", "false", "True", "TRUE", "not true", '"s"', '""', "'''s'''",
          '"""t"""', "'s'", "E.a", "E.b", "E.c", "F.a", "P.E.a", "P.F.c", "E", "a", "e.a", "E.A", "E..a", "Q.E.a", "E.a.b", "o1", "o2", "o3", "o4",
          "P.o1", "Q.o1", "O1", "o9", "P", "P.o9", "o1.n", "R", "null", "(1, 1.5)", "(1, 1)", "(1.5, 1)", "(1)", "(1, 1.5, 2)", "(1,)", "()", "(1 1.5)",
          "(-1, +1.5)", "((1, 1.5), (2))", "((1, 1.5), 2)", "(1, 1.5), (2)", "1@2", "1@2:3", "1:3", "1@", "1@2:", "1@:3", "1 @ 2 : 3", "1@2@3", "1@-2", "1x2",
          "1 x 2", "1 x 2 x true", "1 X 2", "1x2xtrue", "1 x true", "0x2 x 3", '"s";(1, 1.5):E.a', '"s";(1, 1.5)', '"s":E.a', '"s";', '"s";E.a', '"s":F.a',
          "o1;o2", "o1;o3", "P.o1;P.o2", "(1@2, 1)", "(1@2:3, 4:5)", "(1, 2)", "(1:2, 3@4)", "[]", "[1]", "[1, 2]", "[1, 2, 3]", "[1,]", "[,1]", "[1 2]", "[1; 2]",
          "[[1]]", "[-1, +2]", "[1, 1.5]", "[1.5]", "[1.5, 2.5]", "[1.5, 2.5, 3.5]", "[E.a]", "[E.a, E.b]", "[E.a, F.a]", "[E.a, E.a, E.a]", "[o1]", "[o1, o2]", "[o2, o3]",
          "[P.o2]", "[o3, o3, o3]", "[(1, 1.5)]", "[(1, 1.5), (2, 2.5)]", "[(1, 1.5), 1]", "[1@2, 3]", "[1@2:3, 4:5, 6]", "[1, 2@3]", '["s"]', '["s", "t"]', '["s", "t", "u"]',
          '["s";(1, 1.5), "t"]', "[true]", "[true, false]", "[true false]", "[null]", "[", "]", "[1", "[1, ", "(1", "1 2", "1 + 1", "(1 + 1)", "abs 1", "2 * 3", '"a" + "b"',
          '"[[o1]]"', '"[[o9]]"', '"[[o1"', '"]] x"', '"[[o1, P.o2]]"', '"[[E.a]]"', '"[[]]"', "1_000", "1e5", "E . a", "P . o1", "/* c */ 1", "1 // c\n"]


def tuple_values(r):
    """A tuple with separators, and values with some parts left out or wrong."""
    n = r.randint(2, 4)
    seps = [r.choice("@:;") if r.random() < .75 else r.choice(["x", "of", "b", "to"]) for _ in range(n - 1)]
    if r.random() < 0.3:
        seps = [seps[0]] * (n - 1)
    kinds = [r.choice(["Integer", "String", "E", "Decimal", "Boolean", "Pair"]) for _ in range(n)]
    if r.random() < 0.4:
        kinds = [kinds[0]] * n
    first = r.randint(1, n)
    decl = "enum E { a b }\ntuple Pair { u Integer v Integer }\ntuple T { %s }\ntype X { t T ts optional T [0 .. 3] }\n" % " ".join(
        "%s%s %s%s" % ("" if k == 0 else "separator %s " % seps[k - 1], "pqrs"[k], "optional " if k >= first else "", kinds[k])
        for k in range(n))
    sample = {"Integer": ["1", "-2", "30"], "String": ['"a"', '"b"'], "E": ["E.a", "E.b"], "Decimal": ["0.5", "-1.0"],
              "Boolean": ["true", "false"], "Pair": ["(1, 2)"]}

    def one():
        give = [k == 0 or r.random() < .75 for k in range(n)]
        if r.random() < 0.7:
            m = r.randint(first, n)
            give = [k < m for k in range(n)]
        s = ""
        for k in range(n):
            if give[k]:
                sp = r.choice([" ", ""]) if k == 0 or seps[k - 1] in "@:;" else " "
                s += (sp + (seps[k - 1] if r.random() < .95 else r.choice(["@", ":", "", "x", ","])) + sp if k else "") + \
                    r.choice(sample[kinds[k] if r.random() < .96 else r.choice(kinds)])
        return s
    objs = "".join("X o%d { t = %s }\n" % (k, one()) for k in range(2))
    objs += "X o2 { t = %s ts = [%s] }\n" % (one(), ", ".join(one() for _ in range(r.randint(0, 3))))
    return "package P\n" + decl, "package P\n" + objs


def array_values(r):
    lo, hi = r.randint(0, 3), r.choice([None, 0, 1, 2, 3, 3, 4])
    k = r.choice(["Integer", "E", "R", "[R, S]", "T", "V", "String"])
    vals = {"Integer": ["1", "-1", "2"], "E": ["E.a", "E.b"], "R": ["r1", "r2", "r3"], "[R, S]": ["r1", "s1", "r3"], "T": ["(1, 2)", "(3, 4)"],
            "V": ["1;2", "3"], "String": ['"a"', '"b"']}
    rsl = ("package P\nenum E { a b }\ntuple T { p Integer q Integer }\ntuple V { p Integer separator ; q optional Integer }\n"
           "type R { }\ntype S { }\ntype X { v %s%s [%d .. %s] }\n" % (r.choice(["", "optional "]), k, lo, "*" if hi is None else hi))
    trlc = "package P\nR r1 { }\nR r2 { }\nS s1 { }\n"
    for j in range(3):
        n = max(0, r.choice([lo - 1, lo, lo, lo + 1, (hi if hi is not None else 4), (hi if hi is not None else 4) + 1, r.randint(0, 6)]))
        xs = [r.choice(vals[k][:-1] if r.random() < .95 else vals[r.choice(sorted(vals))]) for _ in range(n)]
        sep = ", " if r.random() < .93 else r.choice([" ", ",, ", "; "])
        trlc += "X o%d { v = [%s%s] }\n" % (j, sep.join(xs), "," if r.random() < .05 else "")
    trlc += "R r3 { }\n" if r.random() < .7 else "S r3 { }\n"
    return rsl, trlc


TWIN_PRE = [("q.rsl", "package Q\nenum E { a q }\ntuple U { p Integer q String }\ntuple V { p Integer separator : q Integer }\ntype R { }\ntype S extends R { }\n"),
            ("a.rsl", "package P import Q\nenum E { a p }\ntuple U { p Integer q Decimal }\ntuple V { p Integer separator ; q Integer }\ntype R { }\ntype S extends Q.R { }\n"
             "tuple W { e E separator @ f Q.E }\n")]
TWIN_TYPES = ["E", "Q.E", "P.E", "U", "Q.U", "V", "Q.V", "R", "Q.R", "[R, Q.R]", "[Q.S, R]", "[Q.R, S]", "S", "Q.S", "W", "E [0 .. 2]", "Q.E [0 .. 2]",
              "Q.R [0 .. 2]", "R [0 .. 2]", "Q.V [0 .. 2]"]
TWIN_VALUES = ["E.a", "Q.E.a", "P.E.a", "E.p", "E.q", "Q.E.p", "Q.E.q", "(1, 1.5)", '(1, "s")', "1;2", "1:2", "ro", "Q.ro", "P.ro", "so", "Q.so", "P.so", "qo",
               "E.a@Q.E.a", "Q.E.a@E.a", "E.a@E.a", "Q.E.q@Q.E.q", "[E.a]", "[Q.E.a]", "[E.p, Q.E.q]", "[ro]", "[Q.ro]", "[so]", "[Q.so, qo]", "[1;2]", "[1:2]"]


def twins(chk):
    """Types of the same name in two packages."""
    for home, imp in (("P", " import Q"), ("P", ""), ("Q", ""), ("Q", " import P"), ("Z", " import P import Q")):
        for t in TWIN_TYPES if home == "P" and imp else chk.rng.sample(TWIN_TYPES, 8):
            rsl = TWIN_PRE[:1] + [("a.rsl", TWIN_PRE[1][1] + "type X { v %s }\n" % t)]
            vs = list(TWIN_VALUES)
            chk.rng.shuffle(vs)
            x = "X" if home == "P" else "P.X"
            yield chk.case(rsl + [("b.trlc", "package Q import P\nR ro { }\nS so { }\n"), ("c.trlc", "package P import Q\nR ro { }\nS so { }\nQ.R qo { }\n"),
                                  ("d.trlc", "package %s%s\n%s" % (home, imp, "".join("%s w%d { v = %s }\n" % (x, k, v) for k, v in enumerate(vs))))], rec=True)
            chk.count("values for types of the same name", len(vs))


def C07(chk):
    cases = list(twins(chk))
    comps = ["type X%d { v %s }\n" % (k, t) for k, t in enumerate(VAL_TYPES)]
    head = "package P\nR o1 { }\nR2 o2 { }\nR3 o3 { }\n"
    # every value for every type: several objects to a file, with recovery
    for v in VALUES:
        ks = list(range(len(VAL_TYPES)))
        chk.rng.shuffle(ks)
        for part in (ks[:15], ks[15:]):
            cases.append(chk.case([("a.rsl", VAL_PRE + "".join(comps)),
                                   ("a.trlc", head + "".join("X%d w%d { v = %s }\n" % (k, k, v) for k in part) + "R o4 { }\n")], rec=True))
            chk.count("values by types", len(part))
    # and alone
    for v, k in sampled(chk, itertools.product(VALUES, range(len(VAL_TYPES))), 330):
        cases.append(chk.case([("a.rsl", VAL_PRE + comps[k]),
                               ("a.trlc", head + "X%d w { v = %s }\nR o4 { }\n" % (k, v))]))
        chk.count("values by types, alone")

    def more(k):
        new = []
        for _ in range(chk.scale(200, 2000)):
            for fn in (tuple_values, array_values):
                rsl, trlc = fn(random.Random(chk.rng.random()))
                new.append(chk.case([("a.rsl", rsl), ("a.trlc", trlc)], rec=chk.rng.random() < .5))
                chk.count(fn.__name__)
        new += programs(chk, chk.scale(50, 600), mutants=0.5, chars=0.1, checks=0, objects=8, freeze=0.2, tuples=0.5, arrays=0.5)
        chk.conform((cases if k == 0 else []) + new)
    rounds(chk, more)


# ------------------------------------------------------------ C08 references

def references(r, rec=None):
    """Objects of a few types in a few files referring to each other."""
    pk = ["Pa", "Qb"] if r.random() < .75 else ["Pa", "Qb", "Rc"]
    late = r.random() < .25                   # one more package without a model
    rsl = {}
    types = []                                # (package, name, parent)
    for i, p in enumerate(pk):
        rsl[p] = "package %s\n%s" % (p, "".join("import %s\n" % q for q in pk[:i]))
        for k in range(r.randint(1, 3)):
            n = "T%s%d" % (p[1], k)
            cand = [t for t in types if t[0] in pk[:i + 1]]
            par = r.choice(cand) if cand and r.random() < .5 else None
            types.append((p, n, par))
            rsl[p] += "%stype %s%s { }\n" % ("abstract " if par is None and r.random() < .02 else "",
                                            n, " extends " + q_(par, p) if par else "")
    home = pk[-1]
    fields = []
    vis = types
    for k in range(r.randint(1, 4)):
        x = r.random()
        if x < 0.4:
            t = q_(r.choice(vis), home)
        elif x < 0.75:
            t = "[%s]" % ", ".join(q_(m, home) for m in r.sample(vis, r.randint(1, min(3, len(vis)))))
        else:
            t = "Markup_String"
        form = r.choice(["", "", "arr", "tup", "seps", "arr tup", "arr seps", "tup tup", "tup seps"])
        if form[-3:] == "tup" or form[-4:] == "seps":
            rsl[home] += "tuple U%d { a %s %s b %s%s }\n" % (k, t, "separator ;" if form[-4:] == "seps" else "",
                                                           "optional " if form[-4:] == "seps" else "", t)
        if form[:4] == "tup ":
            rsl[home] += "tuple V%d { i Integer u U%d }\n" % (k, k)
        fields.append((k, t, form))
    rsl[home] += "type Node { %s self optional Node }\n" % " ".join(
        "f%d optional %s" % (k, {"": t, "arr": t + " [0 .. 3]", "tup": "U%d" % k, "seps": "U%d" % k}.get(fm, "U%d [0 .. 3]" % k if fm[:3] == "arr" else "V%d" % k)) for k, t, fm in fields)
    if r.random() < 0.2:
        k, t, fm = r.choice(fields)
        rsl[home] += "type Fro extends Node { freeze f%d = @%d@ }\n" % (k, k)
    pks = pk + (["Lat"] if late else [])
    files = {}
    objs = []
    for n in range(r.randint(2, 5)):
        t = r.choice(types)
        p = r.choice([q for q in pks])
        objs.append((p, "o%d" % n, t))
    fl = r.sample("abcdefgh", 5)
    names = {}
    imps = {}
    for k in range(r.randint(2, 4)):
        p = r.choice(pks) if k else home
        names[fl[k]] = p
        imps[fl[k]] = [q for q in pks if q != p and r.random() < .9]
        files[fl[k]] = ""

    fault = r.choice([0, 0, 0.03, 0.3])

    def below(t, u):
        while t is not None:
            if q_(t, home) == u:
                return True
            t = t[2]
        return False

    def ref(f, want=None):
        good = [o for o in objs if (o[0] == names[f] or o[0] in imps[f]) and o[0] in names.values() and
                (want is None or any(below(o[2], u.strip()) for u in want.strip("[]").split(",")))]
        p, n, t = r.choice(good) if good and r.random() >= fault else r.choice(objs)
        if r.random() < fault * 0.3:
            n = r.choice(["o99", n.upper(), n + "_", t[1], "Node"])
        if p == names[f]:
            return n if r.random() < .8 else p + "." + n
        return p + "." + n if r.random() >= fault * 0.2 else n

    def value(f, t, fm):
        one = (lambda: '"%s"' % r.choice(["[[%s]]" % ref(f), "see [[%s, %s]] ok" % (ref(f), ref(f)), "no", "[[%s]] [[%s]]" % (ref(f), ref(f))])) \
            if t == "Markup_String" else (lambda: ref(f, t))
        if " " in fm:
            inner = lambda: value(f, t, fm[4:])
            return "[%s]" % ", ".join(inner() for _ in range(r.randint(0, 2))) if fm[:3] == "arr" else "(%d, %s)" % (r.randint(0, 3), inner())
        if fm == "arr":
            return "[%s]" % ", ".join(one() for _ in range(r.randint(0, 3)))
        if fm == "tup":
            return "(%s, %s)" % (one(), one())
        if fm == "seps":
            return one() + (" ; " + one() if r.random() < .6 else "")
        return one()
    for o in objs:
        where = [f for f in names if names[f] == o[0]]
        if where and r.random() >= fault * 0.3 and (o[2][0] == o[0] or any(o[2][0] in imps[f] for f in where)):
            f = r.choice([f for f in where if o[2][0] == o[0] or o[2][0] in imps[f]])
            files[f] += "%s %s { }\n" % (q_(o[2], o[0]), o[1])
    cnt = itertools.count()
    for f in list(names):
        for _ in range(r.randint(0, 2)):
            fs = [x for x in fields if r.random() < .7]
            if names[f] != home and home not in imps[f]:
                break
            node = "%s n%d {%s }\n" % ("Node" if names[f] == home else home + ".Node", next(cnt),
                                       "".join(" f%d = %s" % (k, value(f, t, fm)) for k, t, fm in fs))
            files[f] = files[f] + node if r.random() < .5 else node + files[f]
    for k, t, fm in fields:
        rsl[home] = rsl[home].replace("@%d@" % k, value(next(iter(names)), t, fm))
    out = [(p.lower() + ".rsl", rsl[p]) for p in pk]
    for f in names:
        body = files[f]
        if r.random() < .2 and body:
            body = 'section "s" {\n%s}\n' % body
        out.append((f + ".trlc", "package %s\n%s%s" % (names[f], "".join("import %s\n" % q for q in imps[f]), body)))
    return out


def q_(t, home):
    return t[1] if t[0] == home else t[0] + "." + t[1]


MARKUPS = ["[[o]]", "[[ o ]]", "[[o,p]]", "[[o , p]]", "[[P.o]]", "[[P . o]]", "[[Q.q]]", "[[q]]", "[[o q]]", "[[o,]]", "[[,o]]", "[[]]", "[[", "]]", "[", "]", "[o]",
           "[[o", "[[o]", "[[o]] x ]]", "[[ [[o]]", "[[o]] [[p]]", "[[o]][[p]]", "[[o]]]", "[[[o]]]", "[[o.p]]", "[[P.Q.o]]", "[[P.]]", "[[.o]]", "[[P.T]]", "[[T]]", "[[P]]",
           "[[9]]", "[[o-p]]", "[[O]]", "[[o_]]", "[[oo]]", "[[Q.o]]", "[[R.o]]", "[[Integer]]", "[[len]]", "[[ o,\tp ]]", "a [[o]] b [[p]] c", "\\\"[[o]]", "[[\\\"o]]",
           "[[null]]", "[[type]]", "[[o;p]]", "[[E.a]]", "[[E]]", "\u00e9[[o]]", "[[o\u00a0]]", "[[o,p,Q.q,o]]", "[ [o] ]", "[[o] ]", "[[ ]]", "[[o]] [[", "[[o]] ]] [["]


def C08(chk):
    cases = []
    rsl = [("p.rsl", "package P\nenum E { a }\ntype T { m optional Markup_String r optional T }\n"), ("r.rsl", "package R\ntype T { }\n")]
    for m in MARKUPS:
        for q in ('"%s"', '"""%s"""', "'''%s'''", '"""x\n  %s\n  y"""'):
            s = q % (m.replace('\\"', '"') if q[1] in "\"'" else m)
            for imp in ("", " import Q"):
                cases.append(chk.case(rsl + [("a.trlc", "package P%s\nT u { m = %s }\nT o { }\n" % (imp, s)),
                                             ("b.trlc", "package P\nT p { }\n"), ("q.trlc", "package Q import P\nP.T q { }\n")]))
                chk.count("markup strings")
    # chains and cycles of references, in every order of declaration
    for perm in itertools.permutations([("a", "b"), ("b", "c"), ("c", "a"), ("d", "d")]):
        for split in range(0, 4):
            t1 = "package P\n" + "".join("T %s { r = %s m = \"[[%s]]\" }\n" % (x, y, y) for x, y in perm[:split])
            t2 = "package P\n" + "".join("T %s { r = %s }\n" % (x, y) for x, y in perm[split:])
            cases.append(chk.case(rsl[:1] + [("a.trlc", t1), ("b.trlc", t2)]))
            chk.count("orders of referring objects")

    def more(k):
        new = []
        for _ in range(chk.scale(550, 5000)):
            new.append(chk.case(references(random.Random(chk.rng.random())), rec=chk.rng.random() < .4, lint=chk.rng.random() < .2))
            chk.count("reference graphs")
        new += programs(chk, chk.scale(40, 500), mutants=0.3, chars=0, checks=0, objects=8, refs=.6, unions=.4, markup=.4)
        chk.conform((cases if k == 0 else []) + new)
    rounds(chk, more)
