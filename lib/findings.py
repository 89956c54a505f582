"""One probe for each finding in known_findings.json: does it still show?"""
import io, json, sys
import impl


def run(files, verify=False, lint=False):
    c = dict(id=0, lint=lint, rec=False, trlc=True, verify=verify,
             files=[dict(name=n, prim=True, text=t) for n, t in files])
    return impl.observe(c)


def nonfatal(_):
    o = run([("a.rsl", "package A\ntype T { x Integer [2 .. *] }\n"),
             ("a.trlc", "package A\nT o { x = [1] }\n")])
    return o["res"] == "stab" and any(m[3] == "error" for m in o["msgs"])


def two_phases(_):
    o = run([("a.rsl", "package A\ntype R { n Integer }\ntype T {\n  a Integer\n  r R\n}\n"
              "checks T {\n  1 / a + r.n > 0, \"one\"\n  a != 0, fatal \"two\"\n}\n")],
            verify=True, lint=True)
    return not any(m[3] == "issue" and "division" in m[5] for m in o["msgs"])


def long_decimal(_):
    o = run([("a.rsl", "package A\ntype T { x Decimal }\n"),
             ("a.trlc", "package A\nT o { x = 1.%s }\n" % ("3" * 4400))])
    return bool(o["crash"]) and "ValueError" in o["crash"]


def long_integer(_):
    o = run([("a.rsl", "package A\ntype T { x Integer }\n"),
             ("a.trlc", "package A\nT o { x = %s }\n" % ("3" * 4400))])
    return bool(o["crash"]) and "ValueError" in o["crash"]


def long_literals(_):
    return long_decimal(_) or long_integer(_)


def deep_nesting(_):
    o = run([("a.rsl", "package A\ntype T { x Integer }\nchecks T { %sx%s > 0, \"m\" }\n"
              % ("(" * 300, ")" * 300))])
    return o["crash"] == "RecursionError"


def deep_sections(_):
    o = run([("a.rsl", "package A\ntype T { x Integer }\n"),
             ("a.trlc", "package A\n%s T o { x = 1 } %s\n" % ('section "s" {\n' * 900, "}\n" * 900))])
    return o["crash"] == "RecursionError"


def long_chain(_):
    o = run([("a.rsl", "package A\ntype T { x Integer }\nchecks T { %s > 0, \"m\" }\n" % " - ".join(["1"] * 2500)),
             ("a.trlc", "package A\nT o { x = 1 }\n")])
    return o["crash"] == "RecursionError"


def huge_decimal(_):
    o = run([("a.rsl", "package A\ntype T { x Decimal }\n"),
             ("a.trlc", "package A\nT o { x = %s.0 }\n" % ("9" * 400))])
    return bool(o["crash"]) and "OverflowError" in o["crash"]


def repeated_inputs(_):
    import cli
    v = dict(lint=True, rec=True, trlc=True, nuw=False, eow=False, list=False, bazel=False, incs=[],
             dirs=["d"], tree=[["d/a.rsl", "package A\n"]], items=["d/a.rsl", "d"])
    return "AssertionError" in (cli.observe(v)["crash"] or "")


def trailing_comma(_):
    o = run([("a.rsl", "package A\ntype T { x Integer [0 .. *] }\nchecks T { len(x,) > 0, \"m\" }\n"),
             ("a.trlc", "package A\nT o { x = [1, 2,] }\n")])
    return o["res"] == "stab"


if __name__ == "__main__":
    for n in ("nonfatal two_phases long_decimal long_integer deep_nesting deep_sections long_chain huge_decimal repeated_inputs trailing_comma").split():
        print(n, globals()[n](None))
