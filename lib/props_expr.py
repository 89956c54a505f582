"""Checks on check expressions (C09 to C12)."""
import itertools, random
import gen
from props import programs, rounds, sampled

# ----------------------------------------------------------------- C09 typing

EXP_PRE = ("package P\nenum E { a b }\nenum F { a c }\ntuple Tup { p Integer s String }\ntuple Sep { p Integer separator @ s optional String }\n"
           "type R { n Integer x optional Integer y Integer }\ntype R2 extends R { }\ntype R4 extends R2 { }\ntype R3 { n Integer x String z optional Integer [0 .. 2] }\n")
EXP_T = ("type T {\n i Integer\n oi optional Integer\n d Decimal\n s String\n m Markup_String\n b Boolean\n e E\n f F\n r optional R\n r2 optional R2\n"
         " r3 optional R3\n u optional [R, R2]\n w optional [R, R3]\n ai Integer [0 .. *]\n bi Integer [0 .. *]\n ad Decimal [1 .. 3]\n ar R [0 .. 2]\n aw [R, R3] [0 .. 2]\n"
         " r4 optional R4\n ar2 R2 [0 .. 2]\n ar4 R4 [0 .. 2]\n aw2 [R2, R3] [0 .. 2]\n u2 optional [R2, R4]\n"
         " ae E [0 .. 2]\n as String [0 .. 2]\n am Markup_String [0 .. 2]\n at Tup [0 .. 2]\n t Tup\n ts Sep\n}\n")
CLASSES = ["1", "i", "1.0", "d", '"s"', "s", "m", "true", "b", "E.a", "e", "F.a", "f", "r", "r2", "r3", "u", "w", "ai", "bi", "ad", "ar", "aw", "ae", "as", "am",
           "at", "t", "ts", "null"]
SOME = ["1", "i", "d", '"s"', "s", "m", "b", "E.a", "f", "r", "r3", "u", "w", "ai", "ad", "ar", "aw", "as", "t", "ts", "null"]
OPS = ["==", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/", "%", "**", "and", "or", "xor", "implies", "in", "not in"]
BOOLEAN = {"==", "!=", "<", "<=", ">", ">=", "and", "or", "xor", "implies", "in", "not in"}


def as_bool(e, op=None):
    return e if op in BOOLEAN else "(%s) != null" % e


def unary_exprs():
    for x in CLASSES + ["(1)", "(1 + 1)", "i + 1", "i * 2", "- 1", "abs i", "not b", "r.n", "t.p"]:
        for u in ("-", "+", "abs", "not", "not not", "- -", "-+", "abs abs", "- abs", "abs -", "not -", "-"):
            yield as_bool("%s %s" % (u, x))
        yield x
        yield "not %s" % x
        yield "not (%s)" % x
        for f in ("len", "Integer", "Decimal", "startswith", "endswith", "matches", "oneof", "foo", "Len", "String", "Boolean", "T", "E", "P", "i", "in", "not"):
            yield as_bool("%s(%s)" % (f, x))
        for f in ("Integer", "Decimal", "String"):
            yield "%s(%s) > 0" % (f, x)
            yield "%s(%s) > 0.0" % (f, x)
        yield "len(%s) > 1" % x
        yield "len(%s) > 1.0" % x
    for f in ("len", "Integer", "Decimal", "startswith", "endswith", "matches", "oneof"):
        for args in ("", "b, b", "b, b, b", '"s", "t"', "s, m", "1, 2", '"s", "t", "u"', "s,", ",s", "s s", "s; s", "null, s", "s, null", "s, E.a", "e, s", "(s, s)"):
            yield as_bool("%s(%s)" % (f, args))
        yield f
        yield f + " == 1"
        yield f + ".n == 1"
        yield "P.%s(s)" % f
        yield "%s (b)" % f


def index_exprs():
    for x in SOME + ["ae", "am", "at"]:
        for i in ("0", "i", "-1", "+1", "1 + 1", "1.0", "d", '"s"', "b", "null", "ai[0]", "oi", "", "0, 1", "0 .. 1", "len(ai)", "E.a"):
            if x in ("ai", "aw", "at", "1", "s", "r", "t", "null") or i in ("0", "i"):
                yield as_bool("%s[%s]" % (x, i))
    for x in ("ai", "aw", "ar", "at", "ae", "as"):
        for y in ("", "[0]", ".n", ".p", ".s", "[0].n", ".n[0]", ".z", ".x", ".z[0]", ".x.y", ".p.q"):
            yield as_bool("%s[0]%s" % (x, y))
            yield as_bool("%s%s" % (x, y))
            yield "%s[0]%s == 1" % (x, y)
            yield '%s[0]%s == "s"' % (x, y)


def field_exprs():
    for x in SOME + ["e", "E", "T", "P", "R", "Tup", "P.E", "P.T", "(r)", "(t)", "r.n", "t.p", "ts.s", "w.z", "u.x", "ar[0]", "aw[0]"]:
        for y in ("n", "x", "y", "z", "p", "s", "a", "b", "N", "zz", "i", "len", "E", "1", "type"):
            yield as_bool("%s.%s" % (x, y))
        yield "%s.n > 1" % x
        yield "%s.x == 1" % x
        yield '%s.x == "s"' % x
        yield "%s.n.n > 1" % x
        yield "%s..n > 1" % x
    for x in ("E", "E.a", "E.c", "e.a", "F.b", "P.E.a", "P.E", "P.F.c", "Q.E.a", "E.a.b", "P", "P.P.E.a", "Integer", "String.a", "Integer.a", "T", "T.i", "R.n", "P.R.n",
              "len", "oneof", "zz", "I", "ee", "P.i", "P.zz"):
        yield "e == " + x
        yield x + " == null"
        yield x


def quan_exprs():
    for q in ("forall", "exists"):
        for src in SOME + ["ae", "am", "at", "t.p", "r.z", "r3.z", "ai[0]", "aa", "E", "P", "T", "(ai)", "ai, bi", "len", "Ai", "w.z", "P.ai"]:
            yield "(%s v in %s => true)" % (q, src)
        for src, preds in (("ai", ["v > 1", "v > 1.0", "v == null", "v == i", "v", "true", "1", "v.n > 1", "v[0] > 1", "v in ai", "v in 1 .. 2", "u", "v > v", "null",
                                   "(forall v in bi => true)", "(exists v2 in bi => v2 > v)", "(exists V in bi => true)", "(forall i in bi => true)", "V > 1", "v_ > 1"]),
                           ("ar", ["v.n > 1", "v == r", "v == r3", "v == u", "v.x == null", "v in ar", "v in aw", "v.zz", "v == v"]),
                           ("aw", ["v.n > 1", "v.x == null", "v.x == 1", "v.z == null", "v == w", "v in aw", "v == r2", "v == r3", "(exists k in v.z => true)"]),
                           ("ae", ["v == e", "v == f", "v == E.a", "v == F.a", "v != null"]), ("as", ["v == s", "v == m", "len(v) > 1", 'v in "abc"', '"a" in v', "v + v == s", "matches(v, s)", 'matches(s, v)']),
                           ("am", ["v == m", "v == s"]), ("at", ["v.p > 1", "v == t", "v == ts", "v.s == s", "v.q == 1", "v"])):
            for p in preds:
                yield "(%s v in %s => %s)" % (q, src, p)
        for v in ("v", "V", "i", "I", "E", "P", "T", "len", "Integer", "zz", "a_i", "ai", "type", "1", "_v", ""):
            yield "(%s %s in ai => true)" % (q, v)
        for t in ("%s v in ai => true", "(%s v in ai true)", "(%s v in ai -> true)", "(%s v : ai => true)", "(%s in ai => true)", "(%s v ai => true)", "(%s v in ai => )",
                  "(%s v in ai = true)", "(%s v in ai, true)", "(%s (v) in ai => true)", "((%s v in ai => v > 1))", "not (%s v in ai => v > 1)", "(%s v in ai => true) and b",
                  "b and (%s v in ai => v > i)", "(%s v in ai => true) == b", "(%s v in ai => v > 1) and v > 1", "(%s v in ai => v > 1) and (%s v in bi => v > 1)",
                  "(%s v in ai => (%s v2 in bi => v == v2))", "(%s v in ai => (%s v in bi => true))", "(if (%s v in ai => b) then b else b)"):
            yield t.replace("%s", q)


def cond_exprs():
    some = ["1", "i", "d", "s", "m", "b", "e", "f", "r", "r2", "u", "w", "ai", "bi", "t", "null"]
    for x, y in itertools.product(some, repeat=2):
        yield "(if b then %s else %s) != null" % (x, y)
    for c in some + ["not b", "i > 1", "b and b", "1 > 2"]:
        yield "(if %s then i else i) > 1" % c
        yield "(if b then i elsif %s then i else i) > 1" % c
    for x in some:
        yield "(if b then b elsif b then %s else b)" % x
        yield "(if b then %s else %s)" % (x, x)
        yield "(if b then i elsif b then %s else i) > 1" % x
    for t in ("if b then b else b", "(if b then b)", "(if b else b)", "(if b then b elsif b)", "(if b then b elsif b then b)", "(if b then b elsif b then b else b)", "(if b then b else b else b)",
              "(if b then b else)", "(if then b else b)", "(if b b else b)", "(if b then b elsif b then b elsif b then b else b)", "((if b then b else b))", "(if (b) then (b) else (b))",
              "(if b then (if b then i else i) else i) > 1", "(if b then i else (if b then 1 else 2)) == 1", "(if b then i else i) + 1 > 1", "1 + (if b then i else i) > 1", "(if b then r else r).n > 1",
              "(if b then ai else ai)[0] > 1", "not (if b then b else b)", "-(if b then i else i) > 1", "(if b then i else i) in 1 .. 2", "(if b then b else b) implies b",
              "(if b then b then b else b)", "(elsif b then b else b)", "(if b then b else b, b)", "(if b then b elseif b then b else b)"):
        yield t


def range_exprs():
    some = ["1", "i", "d", "1.5", "s", "b", "e", "ai", "null"]
    for x, y, z in itertools.product(some, repeat=3):
        if sum(v in ("s", "b", "e", "ai", "null") for v in (x, y, z)) < 2:
            yield "%s in %s .. %s" % (x, y, z)
    for t in ("i in 1 .. 2", "i not in 1 .. 2", "not i in 1 .. 2", "i in 1..2", "i in 1", "i in (1 .. 2)", "i in 1 .. ", "i in .. 2", "i in 1 .. 2 .. 3", "i in i + 1 .. i * 2", "i + 1 in 1 .. 2",
              "(i in 1 .. 2) == b", "i in 1 .. 2 == b", "i in 1 .. 2 and b", "b and i in 1 .. 2", "i in -1 .. +2", "i in (1) .. (2)", "i in ai", "i in ai .. bi", "i in abs 1 .. abs 2", "-i in 1 .. 2",
              "i in 1 .. 2 + 3", "i in 1 .. 2 * 3 - 4", "i in len(s) .. len(ai)", "i in 1 , 2", "i not in ai", "i not ai", "i not 1", "not in ai", "i in not ai", "i in [1, 2]", "i in (if b then 1 else 2) .. 3",
              "s in s", "m in s", "s in m", '"a" in "abc"', "s not in m", "1 in s", "s in 1", "s in as", "m in as", "s in am", "m in am", "e in ae", "f in ae", "E.a in ae", "F.a in ae", "t in at", "ts in at",
              "r in ar", "r2 in ar", "r3 in ar", "u in ar", "w in ar", "r in aw", "r3 in aw", "u in aw", "w in aw", "ai in ai", "ai in at", "null in ai", "null in aw", "b in ai", "d in ad", "i in ad", "1.0 in ad", "1 in ad",
              "null in s", "s in null", "i in null", "null in null", "i in null .. null", "i in i .. null", "E in ae", "e in E", "e in E.a .. E.b"):
        yield t


def family_exprs():
    """Records of a family of types with one another."""
    recs = ["r", "r2", "r3", "r4", "u", "u2", "w", "ar[0]", "ar2[0]", "ar4[0]", "aw2[0]", "null"]
    for x in recs:
        for a in ("ar", "ar2", "ar4", "aw", "aw2"):
            yield "%s in %s" % (x, a)
            yield "%s not in %s" % (x, a)
            yield "(exists v in %s => v == %s)" % (a, x)
            yield "(exists v in %s => %s != v)" % (a, x)
        for y in recs:
            yield "%s == %s" % (x, y)
            yield "(if b then %s else %s) != null" % (x, y)
    for x in ("ar", "ar2", "ar4", "aw", "aw2"):
        for y in ("ar", "ar2", "ar4", "aw", "aw2"):
            yield "%s == %s" % (x, y)
            yield "(if b then %s else %s) != null" % (x, y)


def chain_exprs():
    for x, y, z in itertools.product(["r", "r2", "r3", "r4"], repeat=3):
        yield "(if b then %s elsif i == 1 then %s elsif i == 2 then %s else %s) != null" % (x, y, z, x)


def branch_exprs():
    """Conditionals of three and four branches of records of a family."""
    recs = ["r", "r2", "r3", "r4", "u", "w", "ar[0]", "ar2[0]"]
    for x, y, z in itertools.product(recs, repeat=3):
        yield "(if b then %s elsif i == 1 then %s else %s) != null" % (x, y, z)
    for x, y in itertools.product(recs, repeat=2):
        for z in recs[4:]:
            yield "(if b then %s elsif i == 1 then %s elsif i == 2 then %s else %s) == %s" % (x, y, z, x, y)
    for x in ("1", "1.0", '"a"', "E.a", "F.a", "true", "ai", "t", "ts", "i", "d"):
        for y in ("1", "1.0", '"a"', "E.a", "true", "ai", "t", "i", "s"):
            for z in (x, y, "m"):
                yield "(if b then %s elsif i == 1 then %s else %s) != null" % (x, y, z)


TWINS = ["e", "qe", "E.a", "E.p", "Q.E.a", "Q.E.q", "P.E.a", "u", "qu", "r", "qr", "qs", "ae", "aqe", "au", "aqu", "ar", "aqr"]
TWIN_Q = "package Q\nenum E { a q }\ntuple U { p Integer s String }\ntype R { n Integer }\ntype S { n Integer }\n"
TWIN_P = ("package P import Q\nenum E { a p }\ntuple U { p Integer t String }\ntype R { n Integer }\ntype S extends Q.R { }\n"
          "type T {\n b Boolean e E qe Q.E u U qu Q.U r optional R qr optional Q.R qs optional S\n"
          " ae E [0 .. 2] aqe Q.E [0 .. 2] au U [0 .. 2] aqu Q.U [0 .. 2] ar R [0 .. 2] aqr Q.R [0 .. 2]\n}\n")


def twin_exprs():
    """Types of the same name in two packages."""
    for x in TWINS:
        for y in TWINS:
            for t in ("%s == %s", "%s in %s", "(if b then %s else %s) != null", "(exists v in %s => v == %s)"):
                yield t % (x, y)
        for f in ("a", "p", "q", "s", "t", "n"):
            yield "%s.%s == null" % (x, f)


def static_exprs():
    for x in ("0", "1", "2", "-1", "(-1)", "+1", "(1 + 1)", "1 + 1", "(1 - 2)", "(2 - 1)", "i", "(i)", "1.0", "d", "1.5", "abs (-2)", "abs -2", "len(\"ab\")", "len(s)", "len(ai)", "(if true then 1 else 2)",
              "(if b then 1 else 2)", "2 ** 3", "(2 ** 3)", "(1 / 0)", "(0 / 1)", "(7 % 4)", "(7 % 0)", "Integer(1.5)", "Integer(-1.5)", "Integer(d)", "null", "s", "b", "E.a", "r.n", "ai[0]", "0x2", "0b11",
              "(1 * 0)", "(-0)", "(3 - 3)", "Decimal(2)", "Integer(2)"):
        for y in ("i", "d", "2", "2.0", "0", "(-2)", "s", "null", "ai[0]", "t.p"):
            yield "(%s ** %s) != null" % (y, x)
        yield "-2 ** %s == 4" % x
        yield "2 ** %s ** 2 == 4" % x
        yield "- i ** %s > 1" % x
    for p in ('"a"', '"^a$"', '"("', '")"', '"[a"', '"a]"', '"*"', '"a**"', '"a{2}"', '"a{2"', '"a{,2}"', '"a{3,2}"', '"|"', '""', '"a|"', '"(a|b)*"', '"[b-a]"', '"[^a]"', '"\\\\"', '"\\"',
              '"a" + "b"', '"(" + ")"', '"(" + "a"', "s", "m", '"a" + s', '(if true then "a" else "b")', '(if b then "a" else "b")', '(if true then "a" else "(")', '(if false then "(" else "a")', "1", "null", "E.a",
              "b", '"+"', '"?"', '"a+?"', '"a??"', '"(?:a)"', '"(?a)"', '"[]"', '"[]a]"', '"[^]"', '"."', '"a.b"', "'''a'''", '"""(a"""'):
        yield "matches(s, %s)" % p
        yield "matches(m, %s)" % p
        yield "matches(%s, s)" % p
        yield "matches(1, %s)" % p


def shape_exprs():
    """Binding of operators and places of parentheses."""
    bo = ["and", "or", "xor", "implies"]
    for o, p in itertools.product(bo, repeat=2):
        yield "b %s b %s b" % (o, p)
        yield "(b %s b) %s b" % (o, p)
        yield "b %s (b %s b)" % (o, p)
        yield "b %s not b %s b" % (o, p)
        yield "not b %s b %s not b" % (o, p)
        yield "b %s i > 1 %s d < 1.0" % (o, p)
    ar = ["+", "-", "*", "/", "%", "**"]
    for o, p in itertools.product(ar, repeat=2):
        yield "i %s 2 %s 3 > 1" % (o, p)
        yield "(i %s 2) %s 3 > 1" % (o, p)
        yield "i %s (2 %s 3) > 1" % (o, p)
        yield "- i %s 2 %s 3 > 1" % (o, p)
        yield "i %s - 2 %s 3 > 1" % (o, p)
        yield "i %s abs 2 %s 3 > 1" % (o, p)
        yield "abs i %s 2 %s 3 > 1" % (o, p)
        yield "i %s 2 %s (-3) > 1" % (o, p)
    for o in ar + ["==", "!=", "<", ">=", "in", "and"]:
        for p in ["==", "!=", "<", ">="]:
            yield "i %s 1 %s b" % (o, p)
            yield "i %s 1 %s 2" % (o, p)
            yield "(i %s 1) %s b" % (o, p)
            yield "i %s (1 %s b)" % (o, p)
    for t in ("", "()", "b b", "b, b", "(b", "b)", "((b))", "(b) (b)", "and b", "b and", "b or or b", "b not b", "b and not", "not", "i >", "> i", "i > > 1", "i > 1 > 2", "i => 1", "i = 1", "i =< 1", "i <> 1",
              "b && b", "b || b", "!b", "i ! = 1", "i + ", "+", "i + + 1 > 0", "i - - 1 > 0", "i -- 1 > 0", "i +- 1 > 0", "i * - 1 > 0", "i * * 1 > 0", "i // 1 > 0", "i ** ** 1", "i ** - 1 > 0", "i mod 2 > 0", "i rem 2",
              "b and then b", "b or else b", "b implies b implies b", "b implies (b implies b)", "b and (b or b) and b", "b and b or b", "b or b or b and b", "-i > 1", "- - i > 1", "-(-i) > 1", "abs -i > 1", "abs abs i > 1",
              "-abs i > 1", "not not b", "not (not b)", "not b == b", "not (b == b)", "(not b) == b", "b == not b", "b == (not b)", "not i > 1", "i > -1", "i > - 1", "i + -1 > 0", "i == +1", "1 == i == b", "i != 1 != b",
              "null == null", "null", "null != i", "i == null and b", "null > 1", "null and b", "null + 1 > 0", "- null > 0", "not null", "abs null > 0", "null.n", "null[0] == 1", "len(null) > 0", "true", "false", "true and 1", "\"s\"",
              "1", "1.0", "i", "s", "b", "E.a", "t", "E.a == E.a", "E.a == E.b", "E.a == F.a", "t == t", "t == ts", "ts == ts", "ai == ai", "ai == bi", "at == at", "r == r", "r == r2", "r == r3", "r == u", "u == w", "w == r3", "r2 == w",
              "r3 == u", "s == m", "m == m", "\"a\" == m", "s + m == s", "m + s == s", "m + m == m", "s + 1 == s", "1 + s == s", "s * 2 == s", "s - s == s", "s < s", "b < b", "e < e", "s + s + s == s", "\"a\" + \"b\" == s"):
        yield t


def packed(chk, exprs, size=14, pre=None, **kw):
    """Each expression in a block of its own, several blocks to a file."""
    exprs = list(exprs)
    first, pre = pre or ([], EXP_PRE + EXP_T)
    for k in range(0, len(exprs), size):
        body = "".join('checks T { %s, "m" }\n' % e for e in exprs[k:k + size])
        yield chk.case(first + [("a.rsl", pre + body)], rec=True, **kw)


def C09(chk):
    cases = []
    binary = [as_bool("%s %s %s" % (x, o, y), o) for x in CLASSES for y in CLASSES for o in OPS
              if o != "**" or y in ("1", "i", "1.0", "null")]
    allx = []
    for label, xs in (("binary operators", sampled(chk, binary, 5000)), ("unary operators and functions", unary_exprs()),
                      ("index expressions", index_exprs()), ("names and fields", field_exprs()), ("quantifiers", quan_exprs()),
                      ("conditionals", cond_exprs()), ("ranges and membership", range_exprs()), ("families of records", family_exprs()),
                      ("conditionals of more branches", [*chain_exprs(), *sampled(chk, branch_exprs(), 250)]),
                      ("static operands", static_exprs()), ("shapes", shape_exprs())):
        xs = list(dict.fromkeys(xs))
        chk.count(label, len(xs))
        cases += packed(chk, xs, lint=chk.rng.random() < .3)
        allx += xs
    twins = sampled(chk, twin_exprs(), 450)
    chk.count("types of the same name", len(twins))
    cases += packed(chk, twins, pre=([("q.rsl", TWIN_Q)], TWIN_P))
    # alone, in tuples, and without recovery
    for e in sampled(chk, [x for x in allx if "//" not in x], 150):
        cases.append(chk.case([("a.rsl", EXP_PRE + EXP_T + 'checks T {\n i > 0, "a"\n %s, warning "b", i\n i > 2, "c" }\n' % e)]))

    def more(k):
        new = programs(chk, chk.scale(180, 2500), mutants=0.3, chars=0.05, wrong=chk.rng.choice([0.03, 0.1]), types=5, checks=8,
                       objects=1, sections=0, depth=4, desc=0, rec=True)
        chk.conform((cases if k == 0 else []) + new)
    rounds(chk, more)


# ------------------------------------------------------------- C10 evaluation

def grid(chk, decl, checks, rows, obj="v", extra="", per=40, pre="package P\n"):
    """Every check on every row of values, as warnings."""
    for k in range(0, len(checks), per):
        cs = "\n".join('  %s, warning "c%d"' % (c, j) for j, c in enumerate(checks[k:k + per]))
        yield chk.case([("a.rsl", pre + "type T { %s }\nchecks T {\n%s\n}\n" % (decl, cs)),
                        ("a.trlc", "package P\n" + extra + "".join("T o%d { %s }\n" % (j, r) for j, r in enumerate(rows)))])


def int_grid(chk):
    vals = [-7, -3, -2, -1, 0, 1, 2, 3, 5, 10000, -9999]
    rows = ["a = %d b = %d" % (x, y) for x in vals for y in vals if y]
    checks = []
    for op in ("+", "-", "*", "/", "%"):
        e = "(a %s b)" % op
        checks += ["%s < %s" % (e, t) for t in ("-3", "-1", "0", "1", "2", "4")] + ["%s == %s" % (e, t) for t in ("0", "-1", "1")] + \
            ["(%s) %% 2 == 0" % e, "(%s) %% 3 == 1" % e]
    for op in ("<", "<=", ">", ">=", "==", "!="):
        checks += ["a %s b" % op, "(a %s b) == (b %s a)" % (op, op)]
    checks += ["a / b * b + a % b == a" + "", "-a < b", "- a ** 2 < 0", "-a + b > 1", "abs a > b", "abs (a - b) == abs (b - a)", "a in 1 .. b", "a in b .. 3", "a not in -2 .. 2", "-a / b == - (a / b)", "-a % b == - (a % b)",
               "(-a) / b == - (a / b)", "a - b - 1 > 0", "a - (b - 1) > 0", "a / b / 2 == 0", "a / (b * 2) == 0", "a * b / 2 == 0", "a % b % 2 == 0", "2 * a / b > 1", "a ** 2 > 9", "a ** 3 < 0", "(a + b) ** 2 == a * a + 2 * a * b + b * b",
               "a ** 0 == 1", "(-2) ** 3 == -8", "-2 ** 2 == -4", "-2 ** 2 == 4", "2 ** 3 * a > b", "a + 2 * b > 3", "a * 2 + b > 3", "a - 2 * b > 3", "a > b implies a != b", "Integer(a) == a", "Decimal(a) / Decimal(b) < 0.5",
               "Integer(Decimal(a) / Decimal(b)) == a / b", "Decimal(a / b) == Decimal(a) / Decimal(b)", "Decimal(a) < Decimal(b)", "Integer(Decimal(a) / 2.0) == a / 2"]
    return list(grid(chk, "a Integer b Integer", checks, sampled(chk, rows, 45), per=24))


def big_grid(chk):
    vals = [2 ** 63, -2 ** 63, 2 ** 64 - 1, 10 ** 20 + 1, -10 ** 30, 3, -7, 2 ** 31, 99999999, 10 ** 8]
    rows = ["a = %d b = %d" % (x, y) for x in vals for y in vals]
    checks = ["(a / b) %% %d == %d" % (m, k) for m, k in ((7, 3), (2, 0), (10, -1), (9, 5))] + \
        ["(a %% b) %% %d == %d" % (m, k) for m, k in ((7, 3), (2, 0), (10, -1))] + ["(a * b) % 11 == 4", "(a - b) % 13 == 1", "(a + b) % 17 == 0", "a * b > a + b", "a / b * b + a % b == a",
                                                                          "a / b < a", "abs a > abs b", "a ** 2 == a * a", "(a * a - b * b) == (a + b) * (a - b)", "a in b .. 9223372036854775808",
                                                                          "Integer(Decimal(a) / 3.0) % 10 == 1", "Decimal(a) / Decimal(b) * Decimal(b) == Decimal(a)"]
    return list(grid(chk, "a Integer b Integer", checks, sampled(chk, rows, 30), per=25))


def dec_grid(chk):
    vals = ["0.5", "-0.5", "1.5", "-1.5", "2.5", "-2.5", "0.49", "-0.49", "0.51", "-0.51", "1.0", "-1.0", "0.0", "0.1", "0.2", "0.3", "3.25", "-3.75", "100.0", "0.001", "4503599627370496.5", "1.4999999999999999999", "-2.5000000001"]
    rows = ["a = %s b = %s" % (x, y) for x in vals for y in vals if y != "0.0"]
    checks = ["Integer(a) == %d" % k for k in (-4, -3, -2, -1, 0, 1, 2, 3)] + ["Integer(a) % 2 == 0", "Integer(a) == - Integer(-a)", "Decimal(Integer(a)) == a", "Decimal(a) == a", "Integer(-a) == 2"] + \
        ["a + b == 0.3", "a - b == 0.1", "a * b == 0.03", "a / b == 0.5", "a + b < 1.0", "a - b > 0.0", "a * b < 0.25", "a / b > 1.0", "a ** 2 == 0.25", "a ** 3 < 0.0", "a ** 0 == 1.0", "a < b", "a <= b", "a > b", "a >= b", "a == b",
         "a != b", "abs a < abs b", "-a == b", "- a * b < 0.0", "a in b .. 1.5", "a not in -0.5 .. 0.5", "a in -0.5 .. b", "(a + b) / 2.0 in a .. b or a > b", "a * 10.0 == b", "a / 3.0 * 3.0 == a", "Integer(a + b) == Integer(a) + Integer(b)",
         "Integer(a * b) > 0", "Integer(a / b) == 1"]
    return list(grid(chk, "a Decimal b Decimal", checks, sampled(chk, rows, 45), per=22))


def str_grid(chk):
    vals = ["", "a", "b", "ab", "ba", "aba", "abab", "A", "aa", "b a", "\u00e9", "a.b"]
    rows = ['a = "%s" b = "%s" m = "%s"' % (x, y, x + y) for x in vals for y in vals]
    checks = ["a in b", "b in a", "a not in b", "startswith(a, b)", "startswith(b, a)", "endswith(a, b)", "endswith(b, a)", "a == b", "a != b", "len(a) == len(b)", "len(a) > len(b)", "len(a) == 0", "len(a + b) == len(a) + len(b)",
              "a + b == b + a", "a + b == \"aba\"", "a in a + b", "startswith(a + b, a)", "endswith(a + b, b)", "a + \"\" == a", "\"\" in a", "matches(a, \"^a\")", "matches(a, \"b$\")", "matches(a, \"^(ab)*$\")", "matches(a, \"a.b\")",
              "matches(a, \"[a-b]+\")", "matches(a, \"^[^a]*$\")", "matches(a, \"ba?\")", "matches(a, \"^a|b$\")", "matches(a, \"a{2}\")", "matches(a + b, \"^ab+a\")", "matches(a, \"\")", "matches(a, \"^$\")", "matches(a, \"A\")",
              "startswith(a, \"\")", "endswith(a, \"\")", "(if a == b then a else b) == \"a\"", "a + b + a == b + a + b", "(a + b) in \"abab\"", "m in a", "a in m", "startswith(m, a)", "endswith(m, b)", "len(m) == len(a)", "m == m", "matches(m, \"^a\")", "a + m == m + a"]
    return list(grid(chk, "a String b String m Markup_String", checks, sampled(chk, rows, 50), per=20))


def bool_grid(chk):
    rows = ["x = %s y = %s z = %s" % t for t in itertools.product(("true", "false"), repeat=3)]
    ops = ["and", "or", "xor", "implies"]
    checks = ["%s" % e for o in ops for e in ("x %s y" % o, "(x %s y) %s z" % (o, o), "x %s (y %s z)" % (o, o), "not x %s y" % o, "not (x %s y)" % o, "x %s not y" % o)]
    for o, p in itertools.product(ops, repeat=2):
        checks += ["(x %s y) %s z" % (o, p), "x %s (y %s z)" % (o, p)]
    checks += ["x and y and z", "x or y or z", "x == y", "x != y", "(x == y) == z", "not x", "not (not x)", "not (x == y)", "oneof(x)", "oneof(x, y)", "oneof(x, y, z)", "oneof(x, x)", "oneof(x, y, z, true)", "oneof(not x, y, not z)",
               "(if x then y else z)", "(if x then y elsif y then z else x)", "(if x then false elsif y then true elsif z then false else true)", "(if x then 1 else 2) == 1", "(if x then 1 elsif y then 2 else 3) == 2",
               "(if x then (if y then 1 else 2) else (if z then 3 else 4)) % 2 == 1", "x implies (y implies x)", "(x implies y) or (y implies z)", "(x xor y) xor z"]
    return list(grid(chk, "x Boolean y Boolean z Boolean", checks, rows, per=50))


def array_grid(chk):
    arrs = ["[]", "[1]", "[2]", "[1, 2]", "[2, 1]", "[1, 1]", "[0, 1, 2]", "[3, 2, 1, 0]", "[-1, -2]", "[1, 2, 3, 4, 5]"]
    rows = ["a = %s b = %s k = %d" % (x, y, z) for x in arrs for y in arrs for z in (0, 1, 2, 3)]
    checks = ["k in a", "k not in a", "k in b", "-k in a", "a == a", "a != a", "len(a) == len(b)", "len(a) > k", "len(a) + len(b) == 4", "(forall v in a => v > k)", "(exists v in a => v > k)", "(forall v in a => v in b)", "(exists v in a => v in b)",
              "(forall v in a => (exists w in b => v == w))", "(exists v in a => (forall w in b => v >= w))", "(forall v in a => (forall w in b => v != w))", "not (forall v in a => v > k)", "not (exists v in a => v == k)",
              "(exists v in a => not (v == k))", "(forall v in a => v % 2 == k % 2)", "(exists v in a => v * v > 4)", "len(a) > k implies a[k] > 0", "len(a) > k implies a[k] in b", "len(a) > k + 1 implies a[k] < a[k + 1]",
              "(len(a) > 1 and len(b) > 0) implies a[len(a) - 1] >= b[0]", "len(a) > 0 implies a[0] == k", "len(a) == 0 or a[len(a) - 1] == k", "(forall v in a => v in 0 .. k)", "(exists v in a => v in k .. k + 1)",
              "(forall v in a => v > 0) xor (exists v in b => v < 2)", "(if len(a) > k then a[k] else 0 - 1) > 0", "(forall v in a => (if v > k then v in b else true))"]
    return list(grid(chk, "a Integer [0 .. *] b Integer [0 .. *] k Integer", checks, sampled(chk, rows, 60), per=16))


def ref_grid(chk):
    pre = ("package P\nenum E { p q }\ntuple U { n Integer s String }\ntuple V { n Integer separator : m optional Integer }\ntype R { n Integer e E next optional R l Integer [0 .. *] }\ntype Rx extends R { k Integer }\ntype S { n Integer t U }\n")
    extra = ("R r1 { n = 1 e = E.p next = r2 l = [1, 2] }\nR r2 { n = 2 e = E.q l = [] }\nRx r3 { n = 1 e = E.p next = r1 l = [3] k = 5 }\nS s1 { n = 1 t = (1, \"a\") }\nS s2 { n = 7 t = (2, \"b\") }\n")
    decl = "r R s [R, S] u U v V e E rs R [0 .. *] ss [R, S] [0 .. *] us U [0 .. *] vs V [0 .. *] es E [0 .. *] o optional Integer"
    r = random.Random(chk.rng.random())
    R, S = ["r1", "r2", "r3"], ["r1", "r2", "r3", "s1", "s2"]
    U, Vv, E = ['(1, "a")', '(1, "b")', '(2, "a")', '(2, "b")'], ["1", "1:2", "2:1", "1:1"], ["E.p", "E.q"]
    lst = lambda xs: "[%s]" % ", ".join(r.choice(xs) for _ in range(r.randint(0, 3)))
    rows = ["r = %s s = %s u = %s v = %s e = %s rs = %s ss = %s us = %s vs = %s es = %s %s" % (
        r.choice(R), r.choice(S), r.choice(U), r.choice(Vv), r.choice(E), lst(R), lst(S), lst(U), lst(Vv), lst(E), r.choice(["", "o = 1"])) for _ in range(chk.scale(24, 80))]
    checks = ["r == s", "r != s", "r == r", "s == s", "u == u", "v != v", "r in rs", "s in ss", "r not in rs", "u in us", "u not in us", "v in vs", "e in es", "e not in es", "E.p in es", "e == E.p", "e != r.e", "r.e == e", "r.n == 1", "s.n == r.n",
              "s.n > u.n", "u.n == v.n", "u.s == \"a\"", "v.m == null", "v.m != null", "v.m == null or v.m > 1", "v.m != null and v.m == v.n", "r.next == null", "r.next != null implies r.next.n == u.n", "r.next == null or r.next.next == null or r.next.next.n == 2",
              "r.next == null or r.next.next == r", "len(r.l) > 0", "len(r.l) > 0 implies r.l[0] == s.n", "s.n in r.l", "(forall x in rs => x.n == r.n)", "(exists x in rs => x == r)", "(exists x in ss => x == r)", "(exists x in ss => x == s)",
              "(forall x in ss => x.n > 0)", "(forall x in us => x.n == u.n)", "(exists x in us => x == u)", "(forall x in vs => x.m == null)", "(exists x in vs => x == v)", "(forall x in es => x == e)", "(exists x in rs => x.e == e)",
              "(exists x in rs => x.next != null and x.next.e == e)", "(exists x in rs => (exists y in ss => x == y))", "len(rs) == len(ss)", "len(rs) > 1 implies rs[0] != rs[1]", "len(rs) > 0 implies rs[0].n == r.n", "len(ss) > 0 implies ss[0] == r",
              "len(us) > 1 implies us[0] == us[1]", "len(us) > 0 implies us[0].s == u.s", "o == null", "o != null", "null == o", "o == null or o == r.n", "o != null implies o > 0", "(if o != null then o else 0) == r.n", "o == r.n", "o != s.n", "v.m == o", "rs == rs", "us == us",
              "oneof(r == s, u.n == 1, v.n == 1)", "(if e == E.p then u.n else v.n) == 1", "null == null", "null != null"]
    return list(grid(chk, decl, checks, rows, extra=extra, per=18, pre=pre))


GRIDS = [int_grid, big_grid, dec_grid, str_grid, bool_grid, array_grid, ref_grid]


def C10(chk):
    def more(k):
        cases = []
        for g in GRIDS:
            cs = g(chk)
            chk.count("cases of " + g.__name__, len(cs))
            cases += cs
        for _ in range(chk.scale(130, 1500)):
            r = random.Random(chk.rng.random())
            g = gen.Gen(r, packages=r.choice([1, 1, 2]), types=4, objects=6, checks=5, depth=r.choice([2, 3, 4]), probes=r.random() < .75, warn=1.0, sections=0, desc=0, lits=0.02,
                        unused_import=0, late=0, null=.2, weird=0.03)
            cases.append(chk.case(g.program()))
            chk.count("generated programs with checks")
        chk.conform(cases)
    rounds(chk, more)


# ------------------------------------------------- C11 undefined and guarded

def partial_exprs():
    """Expressions over x, y, z (optional Boolean) and n, k (optional Integer)."""
    ops = ["and", "or", "xor", "implies", "==", "!="]
    for o in ops:
        yield "x %s y" % o
        yield "not x %s y" % o if o not in ("==", "!=") else "(not x) %s y" % o
        yield "(1 / n > 0) %s y" % o
        yield "x %s (1 / n > 0)" % o
        yield "(n != null) %s (1 / n > 0)" % o
        yield "(n == null) %s (10 %% n == k)" % o
        yield "(n != 0) %s (1 / n > 0)" % o
        for p in ops[:4]:
            yield "(x %s y) %s z" % (o, p)
            yield "x %s (y %s z)" % (p, o)
    for t in ("x", "not x", "(if x then y else z)", "(if x then y elsif y then z else x)", "(if x == null then y else z)", "(if x then 1 / n > 0 else z)", "(if x then y else k > n)", "oneof(x, y)", "oneof(x, y, z)",
              "oneof(x, 1 / n > 0, z)", "oneof(1 / n > 0)", "oneof(x)", "(if x then 1 elsif y then 1 / n else k) > 0", "(if x then 1 elsif 1 / n > 0 then 2 else 3) == 2", "(if x then null else y)", "(if x then y else null)", "(if x then null elsif y then z else null)",
              "n > k", "n < k", "n <= k", "n >= k", "n == k", "n != k", "n + k > 0", "n - k > 0", "n * k > 0", "n / k > 0", "n % k == 0", "n ** 2 > 0", "-n > 0", "+n > 0", "abs n > 0", "n in 0 .. k", "n in k .. 9", "1 in n .. k", "n in n .. n", "Integer(n) > 0",
              "Decimal(n) > 0.0", "1.0 / Decimal(n) > 0.0", "Decimal(k) / Decimal(n) == 1.0", "n / (k - 1) > 0", "n % (k - 1) > 0", "1 / (n - k) > 0", "1 / 0 > 0", "1 % 0 > 0", "1.0 / 0.0 > 0.0", "0 / n == 0", "0 % n == 0", "k != null and k != 0 and n / k > 0",
              "(k != null and n != null and k != 0) implies n / k > 0", "k == null or n == null or k == 0 or n / k > 0", "x != null and x", "x == null or x", "x != null implies x", "null != n and n > 0",
              "(n == null) == (k == null)", "n == null xor k == null" + "", "(n == null xor k == null) implies x", "s == null", "len(s) > 1", "s + s == s", "s in s", "\"a\" in s", "s in \"abc\"", "startswith(s, \"a\")", "startswith(\"abc\", s)", "endswith(s, \"a\")",
              "endswith(\"abc\", s)", "matches(s, \"a\")", "s == \"a\"", "s + \"a\" == \"aa\"", "s != null and len(s) > 0", "a[n] > 0", "a[k] > 0", "a[n - k] > 0", "a[-1] > 0", "a[0] > 0", "a[5] > 0", "len(a) > 0", "len(a) > n", "a == null", "a != null and len(a) > n",
              "a != null and n != null and n >= 0 and len(a) > n and a[n] > 0", "n in a", "1 in a", "n not in a", "(forall v in a => v > 0)", "(exists v in a => v > n)", "(forall v in a => 1 / v > 0)", "(exists v in a => 1 / v > 0)", "(forall v in a => v == n)",
              "(exists v in a => v == null)", "(forall v in a => x)", "(exists v in a => x)", "a != null implies (forall v in a => v != 0 implies 1 / v >= 0)", "(exists v in a => (if v == 0 then x else v > n))", "(forall v in a => a[v] > 0)", "(exists v in a => a[v] == 1)",
              "t == null", "t.p > 0", "t.q > 0", "t.q == null", "t.q == n", "t != null and t.p > 0", "t != null and t.q != null and t.q > 0", "t == null or t.q == null or 1 / t.q > 0", "r == null", "r.n > 0", "r.n == null", "r.r == null", "r.r.n > 0", "r.r.r.n > 0",
              "r != null and r.n != null and r.n > 0", "r != null and r.r != null and r.r.n == n", "r != null implies r.r == null", "r == r.r", "r.r == r", "r.a[0] > 0", "n in r.a", "(if r == null then 0 else r.n) > 0", "w.n > 0", "w.z", "w == null", "w != null and w.n == n",
              "w == r", "c[n] == 1", "c[2] > 0", "c[0] > 0", "c[1] > 0", "c != null and c[0] > 0", "(exists v in c => v > n)"):
        yield t


def orders():
    """Expressions any part of which may be the one which fails, whatever the others come to."""
    parts = ["n", "k", "1", "-3", "7", "1 / n", "5 % k", "a[k]", "t.q"]
    for x, y, z in itertools.product(parts, repeat=3):
        for f in ("%s in %s .. %s", "%s not in %s .. %s", "(%s) + (%s) > (%s)", "(%s) * (%s) == (%s)", "(%s) - (%s) != (%s)", "(%s) <= (%s) and (%s) > 1", "(%s) > (%s) or (%s) > 1",
                  "(%s) > 1 implies (%s) > (%s)", "(if (%s) > 1 then (%s) else (%s)) > 1", "oneof((%s) > 1, (%s) > 1, (%s) > 1)"):
            yield f % (x, y, z)


PART_PRE = ("package P\ntype W { n optional Integer z optional Boolean }\ntuple U { p Integer separator : q optional Integer }\ntype T { x optional Boolean y optional Boolean z optional Boolean n optional Integer k optional Integer\n"
            "s optional String a optional Integer [0 .. *] c optional Integer [0 .. 2] t optional U r optional T w optional [T, W] }\n")


def partial_objects(r, n):
    out = "W w1 { n = 1 z = true }\nW w2 { }\nT l1 { n = 1 r = l2 a = [1] }\nT l2 { r = l3 }\nT l3 { n = 0 a = [] }\n"
    for k in range(n):
        f = []
        for c, vs in (("x", ["true", "false"]), ("y", ["true", "false"]), ("z", ["true", "false"]), ("n", ["0", "1", "2", "-1"]), ("k", ["0", "1", "3"]), ("s", ['"a"', '""', '"ba"']),
                      ("a", ["[]", "[0]", "[1, 0]", "[0, 1]", "[1, 2, 3]", "[-1]"]), ("c", ["[]", "[1]", "[1, 2]"]), ("t", ["1", "1:0", "1:2"]), ("r", ["l1", "l2", "l3"]), ("w", ["w1", "w2", "l1", "l2"])):
            if r.random() < .62:
                f.append("%s = %s" % (c, r.choice(vs)))
        out += "T o%d { %s }\n" % (k, " ".join(f))
    return out


def all_bools(names, vals):
    k = 0
    for combo in itertools.product(["", "true", "false"], repeat=3):
        yield "T b%d { %s }\n" % (k, " ".join("%s = %s" % (n, v) for n, v in zip("xyz", combo) if v) + vals)
        k += 1


def C11(chk):
    def more(k):
        cases = []
        r = random.Random(chk.rng.random())
        exprs = list(partial_exprs())
        exprs += r.sample(list(orders()), chk.scale(70, 900))
        for e in exprs:
            objs = partial_objects(r, chk.scale(12, 25))
            if all(w not in e for w in ("n", "k", "s", "a[", "t.", "r.", "w.", " a", "c[")) or ("x" in e and chk.rng.random() < .2):
                objs = "".join(all_bools("xyz", r.choice(["", " n = 0", " n = 1", " n = 0 k = 1"])))
            cases.append(chk.case([("a.rsl", PART_PRE + 'checks T { %s, %s"m" }\n' % (e, r.choice(["warning ", "error ", "fatal ", ""]))),
                                   ("a.trlc", "package P\n" + objs)]))
            chk.count("expressions")
        # several checks: an error ends those of the object
        for _ in range(chk.scale(60, 400)):
            cs = "".join(' %s, %s"m%d"%s\n' % (r.choice(exprs), r.choice(["warning ", "error ", "fatal ", ""]), j, r.choice(["", ", n", ", \"x\", s"])) for j in range(r.randint(2, 5)))
            cases.append(chk.case([("a.rsl", PART_PRE + "checks T {\n%s}\n" % cs), ("a.trlc", "package P\n" + partial_objects(r, 8))]))
            chk.count("blocks of expressions")
        # in tuples
        for _ in range(chk.scale(25, 200)):
            e = r.choice([x for x in exprs if not any(w in x for w in ("a[", " a", "r.", "w.", "t.", "c[", "r ", "w ", "t ", "(a)"))])
            cases.append(chk.case([("a.rsl", "package P\ntuple T { m Integer %s }\nchecks T { %s, \"m\" }\ntype H { v T [0 .. *] u optional T }\n" % (
                " ".join("separator %s %s optional %s" % (sp, n, t) for sp, n, t in zip("@:;@:;", "nksxyz", ["Integer", "Integer", "String", "Boolean", "Boolean", "Boolean"])), e)),
                ("a.trlc", "package P\n" + "".join("H o%d { v = [%s] %s }\n" % (j, ", ".join(part_tuple(r) for _ in range(r.randint(0, 2))), r.choice(["", "u = " + part_tuple(r)])) for j in range(6)))]))
            chk.count("tuples")
        cases += programs(chk, chk.scale(40, 500), types=5, objects=8, checks=6, depth=3, opt=0.7, null=0.5, guard=0.5, warn=0.5, sections=0, desc=0, refs=.4)
        chk.conform(cases)
    rounds(chk, more)


def part_tuple(r):
    s = "1"
    for sp, vs in zip("@:;@:;", (["0", "1", "-1"], ["0", "2"], ['"a"', '""'], ["true", "false"], ["true", "false"], ["true", "false"])):
        if r.random() < .15:
            break
        s += " %s %s" % (sp, r.choice(vs))
    return s


# ---------------------------------------------------------- C12 applied checks

def applied(r):
    """Checks that are easily evaluated, in hierarchies and nested tuples."""
    rsl = "package P\n"
    n = itertools.count()

    def block(t, comps):
        cs = ""
        for _ in range(r.randint(1, 4)):
            c = r.choice(comps) if comps else "1"
            e = r.choice(["%s > %d" % (c, r.randint(-1, 3)), "%s < %d" % (c, r.randint(0, 4)), "%s != %d" % (c, r.randint(0, 3)), "true", "false",
                          "%s in 0 .. 2" % c, "10 / %s > 3" % c if r.random() < .25 else "%s > 1" % c])
            sev = r.choice(["warning ", "warning ", "error ", "", "fatal "])
            cs += '  %s, %s"m%d"%s%s\n' % (e, sev, next(n), ', "extra %d"' % next(n) if r.random() < .15 else "",
                                            ", " + r.choice(comps).split(".")[0] if comps and r.random() < .4 else "")
        return "checks %s {\n%s}\n" % (t, cs)
    blocks = []
    tuples = []

    def parts(t):
        """The integers always in a tuple."""
        _, _, fields, opt = tuples[int(t[1:])]
        for f, ft in fields[:opt]:
            if ft == "Integer":
                yield f
            else:
                yield from (f + "." + x for x in parts(ft))
    for k in range(r.randint(0, 4)):
        seps = r.random() < .5
        some = [t[0] for t in tuples if not (seps and t[1])]
        fields = [(chr(97 + i), r.choice(some) if some and r.random() < (.5 if i else .2) else "Integer")
                  for i in range(r.choice([1, 2, 3, 3, 4, 5]))]
        opt = r.randint(1, len(fields)) if seps else len(fields)          # the first one that may be left out
        rsl += "tuple U%d { %s }\n" % (k, " ".join(
            ("separator %s " % ";:@;"[i - 1] if seps and i else "") + f + " " + ("optional " if i >= opt else "") + t
            for i, (f, t) in enumerate(fields)))
        tuples.append(("U%d" % k, seps, fields, opt))
        ints = list(parts("U%d" % k))
        for _ in range(r.choice([0, 1, 1, 2])):
            blocks.append(block("U%d" % k, ints))
    def tv(tt):
        _, seps, fields, opt = tuples[int(tt[1:])]
        vs = [str(r.randint(-1, 3)) if t == "Integer" else tv(t) for _, t in fields]
        if not seps:
            return "(%s)" % ", ".join(vs)
        n = len(vs) if r.random() < .5 else r.randint(opt, len(vs))
        return "".join((";:@;"[i - 1] if i else "") + v for i, v in enumerate(vs[:n]))
    types, comps_of, t_of, fixed = [], {}, {}, {}
    for k in range(r.randint(1, 4)):
        par = r.choice(types) if types and r.random() < .75 else None
        name = "T%d" % k
        body = ""
        own = []
        for j in range(r.randint(0 if par else 1, 2)):
            own.append("i%d%d" % (k, j))
            body += " %s Integer" % own[-1]
        tus = []
        for j in range(r.randint(0, 2)):
            if tuples:
                tt = r.choice(tuples)[0]
                form = r.choice(["", " [0 .. *]", "?"])
                tus.append(("t%d%d" % (k, j), tt, form))
                body += " t%d%d %s%s%s" % (k, j, "optional " if form == "?" else "", tt, form.replace("?", ""))
        fixed[name] = set(fixed[par] if par else ())
        comps_of[name] = (comps_of[par] if par else []) + own
        t_of[name] = (t_of[par] if par else []) + tus
        frz = ""
        for c in list(comps_of[name]):
            if c not in own and c not in fixed[name] and r.random() < .2:
                frz += " freeze %s = %d" % (c, r.randint(-1, 3))
                fixed[name].add(c)
        for c, tt, form in t_of[name]:
            if form != " [0 .. *]" and c not in fixed[name] and (c, tt, form) not in tus and r.random() < .3:
                frz += " freeze %s = %s" % (c, tv(tt))
                fixed[name].add(c)
        rsl += "type %s%s {%s%s }\n" % (name, " extends " + par if par else "", body, frz)
        types.append(name)
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            blocks.append(block(name, comps_of[name] if r.random() < .8 or not own else own))
    r.shuffle(blocks) if r.random() < .6 else None
    rsl += "".join(blocks)

    out = "package P\n"
    for k in range(r.randint(1, 5)):
        t = r.choice(types)
        fs = ["%s = %d" % (c, r.randint(-1, 3)) for c in comps_of[t] if c not in fixed[t]]
        for c, tt, form in t_of[t]:
            if c in fixed[t] or form == "?" and r.random() < .5:
                continue
            fs.append("%s = %s" % (c, tv(tt) if form != " [0 .. *]" else "[%s]" % ", ".join(tv(tt) for _ in range(r.randint(0, 3)))))
        if r.random() < .5:
            r.shuffle(fs)
        out += "%s o%d {\n%s\n}\n" % (t, k, "\n".join("  " + f for f in fs))
    return rsl, out


def C12(chk):
    cases = []
    # severities of two checks on an object, and what follows on another one
    sev = ["", "error ", "warning ", "fatal "]
    for a, b in itertools.product(sev, repeat=2):
        for va, vb in itertools.product((0, 1), repeat=2):
            for place in range(4):
                one, two = 'i == %d, %s"one"' % (va, a), 'j == %d, %s"two", j' % (vb, b)
                blocks = ["checks T { %s\n %s }\n" % (one, two), "checks T { %s }\nchecks T { %s }\n" % (one, two),
                          "checks S { %s }\nchecks T { %s }\n" % (one, two), "checks T { %s }\nchecks S { %s }\n" % (two, one)][place]
                cases.append(chk.case([("a.rsl", "package P\ntype S { i Integer j Integer }\ntype T extends S { }\n" + blocks),
                                       ("a.trlc", "package P\nT o { i = 0 j = 0 }\nS p { i = 0 j = 0 }\nT q { i = 1 j = 1 }\n")]))
                chk.count("pairs of severities")
    # where the checks of a type apply
    for rsl, trlc in [
            ("tuple U { a Integer }\nchecks U { a > 0, \"u\", a }\ntype T { u U v U [0 .. *] w optional U }\n", "T o { u = (0) v = [(0), (1), (0)] }\nT p { u = (1) v = [] w = (0) }\n"),
            ("tuple U { a Integer }\nchecks U { a > 0, fatal \"u\" }\ntuple V { u U b Integer }\nchecks V { b > 0, \"v\" u.a > 5, warning \"w\" }\ntype T { v V }\nchecks T { v.b > 0, \"t\" }\n", "T o { v = ((0), 0) }\nT p { v = ((1), 0) }\n"),
            ("type R { n Integer }\nchecks R { n > 0, \"r\" }\ntype T { r R }\nchecks T { r.n > 0, \"t\", r }\n", "R a { n = 0 }\nT o { r = a }\nT p { r = a }\n"),
            ("abstract type A { n Integer }\nchecks A { n > 0, \"a\" }\ntype B extends A { }\nchecks B { n > 1, \"b\" }\ntype C extends A { }\nchecks C { n > 2, \"c\" }\n", "B o { n = 0 }\nC p { n = 0 }\nB q { n = 1 }\n"),
            ("type A { n Integer }\nchecks A { n > 0, \"a\", n }\ntype B extends A { freeze n = 0 }\nchecks B { n > 1, \"b\", n }\n", "B o { }\nA p { n = 0 }\n"),
            ("type A { n optional Integer }\nchecks A { n != null, \"a\", n }\n", "A o { }\nA p { n = 0 }\n")]:
        for lint in (False, True):
            cases.append(chk.case([("a.rsl", "package P\n" + rsl), ("a.trlc", "package P\n" + trlc)], lint=lint))
    # checks in several files of a package, and of an imported one
    for fs in [[("a.rsl", "package P\ntype T { n Integer }\nchecks T { n > 0, \"a\" }\n"), ("b.rsl", "package P\nchecks T { n > 0, \"b\" }\n"), ("c.rsl", "package Q import P\ntype U extends P.T { }\nchecks U { n > 0, \"c\" }\n"),
                ("d.trlc", "package Q import P\nU o { n = 0 }\nP.T p { n = 0 }\n")]]:
        for rec in (False, True):
            cases.append(chk.case(fs, rec=rec))

    def more(k):
        new = []
        for _ in range(chk.scale(480, 4000)):
            rsl, trlc = applied(random.Random(chk.rng.random()))
            new.append(chk.case([("a.rsl", rsl), ("a.trlc", trlc)], lint=chk.rng.random() < .2, rec=chk.rng.random() < .3))
            chk.count("hierarchies with checks")
        new += programs(chk, chk.scale(50, 500), types=5, objects=8, checks=8, depth=1, warn=.4, fatal=.25, anchor=.6, tuples=.5, extends=.8, sections=0)
        chk.conform((cases if k == 0 else []) + new)
    rounds(chk, more)
