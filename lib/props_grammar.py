"""C19: the grammar."""
import itertools, json, os, random
import gen, tlc

TERMINAL = {"{": "C_BRA", "}": "C_KET", "(": "BRA", ")": "KET", "[": "S_BRA", "]": "S_KET", ",": "COMMA", ".": "DOT",
            "..": "RANGE", "=": "ASSIGN", "=>": "ARROW", "@": "AT", ":": "COLON", ";": "SEMICOLON"}


def terminal(tok):
    if tok in TERMINAL:
        return TERMINAL[tok]
    if tok[0] in "\"'":
        return "STRING"
    if tok[0].isdigit():
        return "DECIMAL" if "." in tok else "INTEGER"
    if tok[0].isalpha() and tok not in gen.KEYWORDS:
        return "IDENTIFIER"
    return tok


BASE = ("package P enum E { A B } tuple Tu { v Integer separator x w optional Integer } tuple Tp { p Integer q Integer }\n"
        "type R { n optional Integer }\ntype T { a Integer b Boolean c optional T xs Integer [0 .. 3] t Tu u [R, T] s String e E }\n")
RSL, TRLC = "a.rsl", "a.trlc"
# (file, what comes first, tokens, length, what follows)
SPOTS = [
    (RSL, "", "package P import Q type T { } enum tuple checks abstract final x", 5, [""]),
    (RSL, "package P ", "import Q enum E tuple T type R checks { } abstract final \"d\" extends", 4, ["", "{ x Integer }", "{ }"]),
    (RSL, "package P enum E {", 'a b "d" , } { enum a1', 4, ["", "}"]),
    (RSL, "package P type R { } tuple T {", 'a b optional Integer [ R , ] separator ; x "d" . P }', 4, ["", "}", "Integer }"]),
    (RSL, "package P type R { } tuple T { a Integer separator", '@ x : ; b Integer separator optional }', 5, ["", "}", "Integer }"]),
    (RSL, "package P type R { n Integer } type T extends R {", 'a b optional Integer [ ] 0 1 .. * R , freeze n = - } "d" . P', 4, ["", "}", "Integer }", "1 ] }"]),
    (RSL, "package P type R { n Integer } type T {", 'a Integer [ ] 0 2 .. * , 1.5', 7, ["}"]),
    (RSL, "package P type R { n Integer } type T {", 'a R [ ] . P , optional', 6, ["", "}"]),
    (RSL, "package P type R { }", 'type abstract final T extends R . P { } "d" , checks', 5, ["", "}"]),
    (RSL, BASE + "checks T {", 'b , "m" warning error fatal a } b and', 6, ["", "}", ', "m" }']),
    (RSL, BASE + "checks", 'T { } P . , b "m" E', 4, ["", "}", ', "m" }']),
    (RSL, BASE + "checks T {", 'b not and or xor implies == ( ) true null a', 4, [', "m" }', ') , "m" }', ' b , "m" }']),
    (RSL, BASE + "checks T {", 'a + - * / % ** abs ( ) 2 < == 1.5', 4, [' == 1 , "m" }', ', "m" }', ' a , "m" }']),
    (RSL, BASE + "checks T { b == ", 'a + - * ** not abs ( ) 2 < == in .. b', 4, [', "m" }', ' 1 , "m" }']),
    (RSL, BASE + "checks T { a", '+ - * / % ** < <= == != in not .. 2 a and b', 4, [', "m" }', ' 2 , "m" }']),
    (RSL, BASE + "checks T { a", 'in not .. 2 a xs s - ( ) and', 5, [', "m" }', ' 2 , "m" }']),
    (RSL, BASE + "checks T { (", 'if then else elsif b not a ) forall exists x in xs => true', 4, [', "m" }', ') , "m" }', ' else b ) , "m" }']),
    (RSL, BASE + "checks T { ( if b then b", 'if then else elsif b ) , and', 5, [', "m" }', ' else b ) , "m" }', ' b ) , "m" }']),
    (RSL, BASE + "checks T { ( forall", 'x in xs => b ) forall not . [ 0 ]', 6, [', "m" }', ') , "m" }', ' > 0) , "m" }']),
    (RSL, BASE + "checks T { ( ( ", 'x in xs => b ) forall exists (', 4, [', "m" }', ') , "m" }', ')) , "m" }']),
    (RSL, BASE + "checks T { ", 'xs [ 0 ] . t u v c P E A ( ) len , a', 4, [', "m" }', ' == 1 , "m" }', ']== 1, "m" }', ')== 1, "m" }']),
    (RSL, BASE + "checks T { len (", 'xs , ) s ( [ ] . a "x"', 4, [', "m" }', ' > 1 , "m" }', ') > 1 , "m" }']),
    (RSL, BASE + "checks T { oneof ", '( ) b , . [', 5, [', "m" }', ') , "m" }']),
    (RSL, BASE + "checks T { matches ", '( ) s , "x" + "y"', 5, [', "m" }', ') , "m" }']),
    (TRLC, "", 'package P import Q section "s" { } T o x type', 5, ["", "}"]),
    (TRLC, "package P ", 'section "s" { } T o P . Q , "d" import [', 5, ["", "}", "{ }"]),
    (TRLC, "package P R o {", 'n = 1 1.5 + - } m , { null', 5, ["", "}"]),
    (TRLC, "package P T o { xs = ", '[ ] 1 , - ( ) } a .. "s"', 6, ["", "}"]),
    (TRLC, "package P V o { t = ", '( ) 1 , x - } p = 2 : [', 5, ["", "}"]),
    (TRLC, "package P V o { p = ", '( ) 1 , x - } t = 2 [', 6, ["", "}"]),
    (TRLC, "package P V o { e = ", 'E . A P , } ( 1 e', 5, ["", "}"]),
    (TRLC, "package P V o { r = ", 'o . P , } ( 1 e = [ ]', 5, ["", "}"]),
    (TRLC, "package P V o { rs = ", 'o . P , [ ] } ( = null true', 6, ["", "}"]),
    (TRLC, "package P V o { f = ", 'true false null not ( ) } f = "s" b', 3, ["", "}"]),
    (TRLC, "package P V o { s = ", "'s' \"t\" '''u''' + , } s = 1", 4, ["", "}"]),
]
MODEL = ("a.rsl", BASE + "type V { t optional Tu p optional Tp e optional E r optional R rs optional R [0 .. 2] f optional Boolean "
         "s optional String m optional Markup_String }")


def judge_grammar(chk, cases, rows):
    """The files that are cases' own, against the grammar."""
    import impl
    outs, res = tlc.by_id(tlc.run_rows([{"id": c["id"], "kind": c["main"].rsplit(".", 1)[1],
                                         "text": tlc.codes(dict((f["name"], f["text"]) for f in c["files"])[c["main"]])}
                                        for c in cases], "GrammarRun"))
    chk.states += res.distinct
    chk.transitions += res.states
    for c, _, o in rows:
        end = outs[c["id"]][0]
        chk.count("grammar: " + end["res"] + (" after a slip" if end["slip"] != [0, 0] else ""))
        if end["res"] == "lexer" or o["crash"]:
            continue
        errors = [m for m in o["msgs"] if m[3] == "error"]
        if end["res"] == "yes":
            continue                         # whether it is right to complain is judged elsewhere
        if not errors:
            if end["res"] == "extra":
                chk.known_seen.add("trailing-comma")
                chk.count("lists with a comma too many")
            else:
                chk.violation("accepted, though no sentence (%s at %s)" % (end["res"], end["at"]), {"case": c, "said": end})
            continue
        m = errors[0]
        if end["res"] == "no" and m[0] == c["main"] and (m[1], m[2]) > tuple(end["at"]):
            chk.violation("first error at %s, though %s:%d:%d cannot continue a sentence" % (m[:3], c["main"], *end["at"]),
                          {"case": c, "said": end, "observed": o["msgs"]})


def errors_only(c, e, o):
    import impl
    if e["open"]:
        return []
    if o["crash"]:
        return [("crash", o["crash"])]
    exp = [m for m in impl.spec_messages(c, e) if m[3] == "error"]
    got = [m for m in o["msgs"] if m[3] == "error"]
    missing, extra, _ = impl.match_messages(exp, got)
    if e["brk"]:
        extra = []
    res = [("syntax", "missing %s" % (m[:6],)) for m in missing] + [("syntax", "unexpected %s" % (m,)) for m in extra]
    if not exp and (o["res"] == "none") != (e["res"] == "none") and not any(m[3] == "check error" for m in impl.spec_messages(c, e)):
        res.append(("result", "expected %s, got %s" % (e["res"], o["res"])))
    return res


def single(chk, main, text):
    fs = [MODEL, (TRLC, text)] if main == TRLC else [(RSL, text)]
    return chk.case(fs, main=main)


def run(chk, cases):
    rows = chk.conform(cases, judge=errors_only)
    judge_grammar(chk, cases, rows)


def after_prefixes(chk, quota, each):
    """Any token after any beginning of a sentence: in every situation the grammar knows (the last token and the next
    symbols of all ways to go on), each token of the alphabet, after some of the beginnings that lead there; and a
    sample of all the rest."""
    rows = [{"id": i, "kind": f.rsplit(".", 1)[1], "text": tlc.codes(first), "alpha": [terminal(t) for t in toks.split()],
             "n": n - 1 + chk.thorough} for i, (f, first, toks, n, _) in enumerate(SPOTS)]
    outs, res = tlc.by_id(tlc.run_rows(rows, "GrammarGen"))
    chk.states += res.distinct
    chk.transitions += res.states
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "beginnings.json")) as f:
        fine = {k: {tuple(w) for w in ws} for k, ws in json.load(f).items()}
    cases, classes, texts = [], {}, set()
    for i, (f, first, toks, n, ends) in enumerate(SPOTS):
        toks = toks.split()
        seen = set()
        for o in outs.get(i, []):
            pre = [toks[k - 1] for k in o["w"]]
            where = (terminal(pre[-1]) if pre else "") + repr(sorted(o["q"]))
            bad = tuple(o["w"]) not in fine.get(SPOTS[i][1] + "|" + SPOTS[i][2], ())
            for t in [""] + toks:
                classes.setdefault((where, terminal(t) if t else ""), []).append((bad, len(pre), i, " ".join(pre + [t])))
                seen.update(" ".join(pre + [t]) + " " + e for e in ends)
        chk.count("beginnings of sentences", len(outs.get(i, [])))
        chk.count("texts after beginnings", len(seen))
        seen = sorted(seen)
        texts.update((i, s) for s in (chk.rng.sample(seen, quota) if len(seen) > quota else seen))
    for c in sorted(classes):
        # those without an earlier error, and short ones, first
        some = sorted(classes[c], key=lambda x: (x[:2], chk.rng.random()))
        some = some[:3 * each]
        for _, _, i, s in chk.rng.sample(some, min(each, len(some))):
            texts.add((i, s + " " + chk.rng.choice(SPOTS[i][4])))
    chk.count("situations of the grammar and next tokens", len(classes))
    for i, s in sorted(texts):
        cases.append(single(chk, SPOTS[i][0], SPOTS[i][1] + " " + s))
    return cases


def broken(chk, n):
    """Programs with tokens left out, put in, replaced or swapped."""
    import props
    cases = []
    while len(cases) < n:
        r = random.Random(chk.rng.random())
        files = gen.Gen(r, packages=r.choice([1, 1, 2]), types=r.choice([1, 2, 3]), objects=2, checks=1, depth=2).program()
        for _ in range(6):
            k = r.randrange(len(files))
            toks = gen.tokens(files[k][1])
            i = r.randrange(len(toks))
            m = r.choice("diiirrs")
            if m == "d":
                toks[i:i + 1] = []
            elif m == "i":
                toks.insert(i, r.choice(toks + gen.EXTRA))
            elif m == "r":
                toks[i] = r.choice(toks + gen.EXTRA)
            elif i:
                toks[i - 1:i + 1] = [toks[i], toks[i - 1]]
            fs = [list(f) for f in files]
            fs[k][1] = " ".join(toks)
            cases.append(chk.case(fs, main=fs[k][0]))
    return cases


# -------------------------------------------------------------------- binding

def binding(chk):
    """Values of unbracketed expressions, which tell how operators bind."""
    num = ["+", "-", "*", "/", "%"]
    exprs = []
    for n in (2, 3):
        for ops in itertools.product(num, repeat=n):
            vals = [17, 5, 3, 2][:n + 1]
            exprs.append(" ".join(str(x) for p in zip(vals, list(ops) + [""]) for x in p).strip())
    for op in num:
        exprs += ["-7 %s 2" % op, "- 7 %s 2 %s 3" % (op, op), "2 ** 3 %s 5" % op, "5 %s 2 ** 3" % op, "-2 ** 2 %s 3" % op,
                  "abs (-7) %s 2" % op, "9 %s abs (2)" % op, "+ 7 %s 2" % op]
    exprs += ["-2 ** 2", "2 ** 3", "abs (2 - 5) ** 2" if False else "(abs (2 - 5)) ** 2", "(2 ** 3) ** 2", "len(\"ab\") ** 3 - 1"]
    for i in range(0, len(exprs), 5):
        lines = []
        for e in exprs[i:i + 5]:
            for k in values(e):
                lines.append("  %s == %d, error \"%d\"" % (e, k, len(lines)))
                lines.append("  %d != %s, warning \"%d\"" % (k, e, len(lines)))
        yield "type T { x Integer }\nchecks T {\n%s\n}\n" % "\n".join(lines), ["T o { x = 1 }\n"]
    rel = ["x and y and z", "x or y or z", "x xor y", "x implies y", "not x and y", "not x or y", "x and not y", "x implies not y",
           "x == y and z", "x or y == z", "x == (y and z)", "not x == y", "x != y implies z", "x and (y or z)", "(x and y) or z",
           "x implies (y implies z)", "(x implies y) implies z", "not x xor y", "1 < 2 and x", "1 + 1 < 3 and y", "x and 1 + 1 == 2",
           "1 + 1 in 1 .. 2 and x", "x or 2 not in 1 .. 1 + 1", "x and y and z and not x", "x or y or z or not x", "not x != y",
           "(if x then y else z) and y", "(if x then y elsif z then x else y)", "(if x then y elsif y then z else x) == z",
           "(forall v in b => v or x) and y", "(exists v in b => v and x or y) or z" if False else "(exists v in b => (v and x) or y) or z",
           "x == y xor z", "x implies y == z", "x == not y", "(not x) == y and z", "2 * 3 == 6 implies x", "-1 + 2 == 1 and x"]
    objs = []
    for k, (x, y, z) in enumerate(itertools.product(["true", "false"], repeat=3)):
        objs.append("T o%d { x = %s y = %s z = %s b = [%s, %s] }\n" % (k, x, y, z, x, z))
    for i in range(0, len(rel), 6):
        yield ("type T { x Boolean y Boolean z Boolean b Boolean [0 .. *] }\nchecks T {\n%s\n}\n" % "\n".join(
            "  %s, error \"%s\"" % (e, e) for e in rel[i:i + 6])), objs


def values(e):
    """What an expression might be, however it is bracketed."""
    toks = [t for t in e.replace("(", " ( ").replace(")", " ) ").split()]
    res = set()
    import re
    py = re.sub(r"len\(\"ab\"\)", "2", e).replace("abs", "abs ").replace("+ 7", "7")

    def div(s):
        return s.replace("/", "//")
    try:
        res.add(eval(div(py), {"abs": abs}))
    except Exception:
        pass
    nums = re.findall(r"\*\*|[-+*/%]|\d+", re.sub(r"abs\s*\(-?(\d+)\)", r"\1", py))
    ns, os_ = [], []
    for t in nums:
        (ns if t.isdigit() else os_).append(int(t) if t.isdigit() else t)
    if len(os_) == len(ns) - 1 and len(ns) <= 4:
        def rem(a, b):
            return abs(a) % abs(b) * (1 if a >= 0 else -1)
        f = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a // b,
             "%": rem, "**": lambda a, b: a ** b if 0 <= b < 9 else 0}

        def go(i, j):
            if i == j:
                return {ns[i]}
            out = set()
            for k in range(i, j):
                for a in go(i, k):
                    for b in go(k + 1, j):
                        try:
                            out.add(f[os_[k]](a, b))
                        except ZeroDivisionError:
                            pass
            return out
        res |= go(0, len(ns) - 1)
    else:
        res |= {4, -4, 1, -1, 7, -7, 3, -3, 8, 9, 64}
    return sorted(res)[:12]


def C19(chk):
    import props
    cases = [chk.case([("a.rsl", "package P\n" + m), ("a.trlc", "package P\n" + "".join(objs))]) for m, objs in binding(chk)]
    chk.conform(cases)
    run(chk, after_prefixes(chk, chk.scale(20, 400), chk.scale(1, 8)))

    def more(k):
        run(chk, broken(chk, chk.scale(250, 1500)))
    props.rounds(chk, more)
