"""Running cases on the real code and comparing with the specification."""
import io, os, re, shutil, sys, tempfile, traceback
from fractions import Fraction

REPO = os.environ.get("TRLC_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
# The interpreter's own recursion limit is part of the observed behaviour
MSG = re.compile(r"^(?P<file>[^\n]*?)(?::(?P<line>\d+))?(?::(?P<col>\d+))?: trlc "
                 r"(?P<sv>error|issue|warning|check error|check warning): (?P<tx>.*)$", re.S)
CAT = re.compile(r" \[([a-z0-9_-]+)\]$")


def parse_messages(out, prefix=""):
    """Brief output to messages (file, line, column, severity, category, text)."""
    msgs = []
    for ln in out.split("\n")[:-1] if out.endswith("\n") else out.split("\n"):
        m = MSG.match(ln)
        if m:
            name = m.group("file")
            if prefix and name.startswith(prefix):
                name = name[len(prefix):]
            tx, cat = m.group("tx"), ""
            if m.group("sv") in ("issue",):
                c = CAT.search(tx)
                if c:
                    cat, tx = c.group(1), tx[:c.start()]
            msgs.append([name, int(m.group("line") or 0), int(m.group("col") or 0),
                         m.group("sv"), cat, tx])
        elif msgs:
            msgs[-1][5] += "\n" + ln
        elif ln:
            msgs.append(["", 0, 0, "?", "", ln])
    return msgs


def scratch():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix="vtrlc.", dir=base)


def write_files(root, files):
    for f in files:
        name = os.path.join(root, f["name"])
        os.makedirs(os.path.dirname(name), exist_ok=True)
        with open(name, "w", encoding="UTF-8", errors="surrogateescape", newline="") as fd:
            fd.write(f["text"])


def observe(case, keep=False, process=True):
    """What the real code makes of a case."""
    from trlc.errors import Message_Handler
    from trlc.trlc import Source_Manager
    root = scratch()
    obs = {"res": None, "msgs": [], "crash": None, "objs": None, "types": None, "walk": None}
    out = io.StringIO()
    stab = None
    base = root
    try:
        write_files(root, case["files"])
        try:
            if "strip" in case:              # files by relative names
                os.chdir(root)
                base = ""
            mh = Message_Handler(brief=not case.get("wordy"), out=out,
                                 detailed_info=not case.get("wordy") or case["wordy"] > 1,
                                 strip_prefix=case.get("strip"))
            told = obs["prog"] = []

            class Followed(Source_Manager):
                def callback_parse_begin(self):
                    told.append("begin")

                def callback_parse_progress(self, progress):
                    told.append(progress)

                def callback_parse_end(self):
                    told.append("end")
            sm = Followed(mh, lint_mode=case["lint"], parse_trlc=case["trlc"],
                          error_recovery=case["rec"],
                          verify_mode=case.get("verify", False))
            ok = True
            if any(not f["prim"] for f in case["files"]):
                sm.register_include(root)
            for f in case.get("order", case["files"]):
                if f["prim"] and case.get("inline"):
                    ok &= bool(sm.register_file(os.path.join(base, f["name"]), f["text"]))
                elif f["prim"]:
                    ok &= bool(sm.register_file(os.path.join(base, f["name"])))
            if not ok:
                obs["res"] = "refused"
            else:
                stab = sm.process()
                obs["res"] = "none" if stab is None else "stab"
                if stab is not None:
                    obs["objs"] = dump_objects(stab, root)
                    obs["walk"] = dump_walk(stab, root)
                    obs["walk2"] = dump_walk(stab, root)
                    try:
                        obs["types"] = dump_types(stab)
                    except AttributeError:
                        pass             # parts of the syntax tree go by another name
                    obs["errors"] = mh.errors
                    if "ask" in case:
                        import props_api
                        shown = out.getvalue()
                        try:
                            obs["api"] = props_api.dump_api(stab, root, case, mh, out)
                        except Exception as e:
                            obs["api"] = "%s(%s)" % (type(e).__name__, e)
                        out = io.StringIO()
                        out.write(shown)
        except RecursionError:
            obs["crash"] = "RecursionError"
        except (Exception, SystemExit) as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [t for t in tb if "/trlc/" in t.filename] or tb
            obs["crash"] = "%s(%s) at %s:%s" % (type(e).__name__, e, os.path.basename(where[-1].filename),
                                                where[-1].name)
    finally:
        os.chdir("/")
        shutil.rmtree(root, ignore_errors=True)
    if case.get("wordy"):
        obs["raw"] = out.getvalue().replace(root + "/", "")
    else:
        obs["msgs"] = parse_messages(out.getvalue(), root + "/")
    if keep:
        obs["stab"] = stab
    return obs


def rel(name, root):
    return name[len(root) + 1:] if name.startswith(root + "/") else name


def dump_objects(stab, root):
    objs = []
    for o in stab.iter_record_objects():
        objs.append({"n": [o.n_package.name, o.name],
                     "l": [rel(o.location.file_name, root), o.location.line_no, o.location.col_no],
                     "t": [o.n_typ.n_package.name, o.n_typ.name],
                     "sec": [s.name for s in o.section or []],
                     "fld": o.to_python_dict(), "exact": exact_fields(o)})
    return objs


def exact_fields(o):
    """The values of an object, numbers exactly; None if the syntax tree is
    not made as expected."""
    from trlc import ast

    def value(e):
        if isinstance(e, ast.Decimal_Literal):
            return Fraction(e.value)
        if isinstance(e, ast.Unary_Expression):
            v = value(e.n_operand)
            return -v if e.operator == ast.Unary_Operator.MINUS else v
        if isinstance(e, ast.Array_Aggregate):
            return [value(x) for x in e.value]
        if isinstance(e, ast.Tuple_Aggregate):
            return {n: value(x) for n, x in e.value.items()}
        return e.to_python_object()
    try:
        return {n: value(e) for n, e in o.field.items()}
    except (AttributeError, TypeError, KeyError):
        return None


def dump_walk(stab, root):
    rows = []
    for item in stab.iter_record_objects_by_section():
        if isinstance(item, str):
            rows.append(["file", rel(item, root)])
        elif isinstance(item[0], str):
            rows.append(["section", item[0], item[1]])
        else:
            rows.append(["object", item[0].name, item[1]])
    return rows


def type_name(t):
    from trlc import ast
    if isinstance(t, ast.Array_Type):
        return {"k": "arr", "el": type_name(t.element_type), "lo": t.lower_bound,
                "hi": t.upper_bound}
    if isinstance(t, ast.Union_Type):
        return {"k": "uni", "ts": [[x.n_package.name, x.name] for x in t.types]}
    pkg = getattr(t, "n_package", None)
    return {"k": "ent", "n": [pkg.name if pkg else "", t.name]}


def dump_types(stab):
    from trlc import ast
    res = {}
    for pkg in stab.values(ast.Package):
        for t in pkg.symbols.values(ast.Concrete_Type):
            d = {"d": t.description or ""}
            if isinstance(t, ast.Enumeration_Type):
                d["k"] = "enum"
                d["lits"] = [[x.name, x.description or ""] for x in t.literals.table.values()]
            else:
                d["comps"] = [[c.name, type_name(c.n_typ), c.optional, c.description or ""]
                              for c in t.components.table.values()]
                d["chks"] = [[c.severity, c.message, c.n_anchor.name if c.n_anchor else "",
                              c.extrainfo or ""] for c in t.checks]
                if isinstance(t, ast.Tuple_Type):
                    d["k"] = "tup"
                    d["seps"] = [s.token.value if s.token.kind == "IDENTIFIER" else s.token.kind
                                 for s in t.separators]
                else:
                    d["k"] = "rec"
                    d["abs"], d["fin"] = bool(t.is_abstract), bool(t.is_final)
                    d["fro"] = sorted(t.frozen)
                    d["par"] = [t.parent.n_package.name, t.parent.name] if t.parent else []
            res[pkg.name + "." + t.name] = d
    return res


# ---------------------------------------------------------------- comparison

LIMB = 10000


def big(x):
    """A number of the specification: sign and little endian limbs."""
    v = 0
    for limb in reversed(x["m"]):
        v = v * LIMB + limb
    return -v if x["g"] else v


def text(codes):
    return "".join(map(chr, codes))


def same_value(x, v):
    """Does the Python object stand for the value of the specification?"""
    k = x["k"]
    if k == "null":
        return v is None
    if k == "b":
        return isinstance(v, bool) and v == x["b"]
    if k == "i":
        return isinstance(v, int) and not isinstance(v, bool) and v == big(x["i"])
    if k == "q":
        q = Fraction(big(x["q"]["n"]), big(x["q"]["d"]))
        if isinstance(v, bool) or not isinstance(v, (int, float, Fraction)):
            return False
        if isinstance(v, Fraction):
            return v == q
        if v != v or v in (float("inf"), float("-inf")):
            return False
        return abs(Fraction(v) - q) * 2 ** 53 <= abs(q) or \
            (abs(q) < Fraction(1, 2 ** 1020) and abs(Fraction(v) - q) < Fraction(1, 2 ** 1070))
    if k == "s":
        return isinstance(v, str) and v == text(x["s"])
    if k == "e":
        return v == x["e"]
    if k == "r":
        return v == ".".join(x["r"])
    if k == "a":
        return isinstance(v, list) and len(v) == len(x["a"]) and \
            all(same_value(a, b) for a, b in zip(x["a"], v))
    if k == "t":
        return isinstance(v, dict) and set(v) == set(x["t"]) and \
            all(same_value(x["t"][n], v[n]) for n in v)
    raise AssertionError(k)


def spec_type(t):
    if t["k"] == "arr":
        return {"k": "arr", "el": spec_type(t["el"]), "lo": big(t["lo"]),
                "hi": None if t["inf"] else big(t["hi"])}
    return t


def spec_types(out):
    res = {}
    for t in out["types"]:
        d = {"k": t["k"], "d": text(t["d"])}
        if t["k"] == "enum":
            d["lits"] = [[x["n"], text(x["d"])] for x in t["lits"]]
        else:
            d["comps"] = [[c["n"], spec_type(c["t"]), c["opt"], text(c["d"])] for c in t["comps"]]
            d["chks"] = [[c["sev"], text(c["tx"]), c["anc"], text(c["x"])] for c in t["chks"]]
            if t["k"] == "tup":
                d["seps"] = t["seps"]
            else:
                d["abs"], d["fin"] = t["abs"], t["fin"]
                d["fro"] = sorted(t["fro"])
                d["par"] = t["par"]
        res[".".join(t["n"])] = d
    return res


def spec_messages(case, out):
    names = [f["name"] for f in sorted(case["files"], key=lambda f: f["name"])]
    return [(names[m["f"] - 1], m["l"], m["c"], m["sv"], m["cat"], text(m["tx"]), m["blk"])
            for m in out["msgs"]]


def fits(e, o):
    """Is the observed message o the expected one e?"""
    name, line, col, sv, cat, tx, _ = e
    return (name == o[0] and line == o[1] and (col == 0 or col == o[2]) and sv == o[3]
            and (sv != "issue" or cat == o[4])
            and (not sv.startswith("check") or tx == o[5]))


def in_blocks(exp, obs):
    """Can the observed messages be cut into the expected blocks, each in its
    order?  What belongs to one construct appears without interruption; the
    constructs themselves may come in any order.  Lint findings do not count."""
    blocks = {}
    for e in exp:
        if e[3] != "issue":
            blocks.setdefault(e[6], []).append(e)
    kinds = {}
    for b in blocks.values():
        key = tuple(x[:6] for x in b)
        kinds.setdefault(key, [0, b])[0] += 1
    kinds = sorted(kinds.values(), key=lambda k: -len(k[1]))
    obs = [o for o in obs if o[3] != "issue"]
    seen = set()

    def cut(at):
        if at == len(obs):
            return all(k[0] == 0 for k in kinds)
        state = (at, tuple(k[0] for k in kinds))
        if state in seen:
            return False
        seen.add(state)
        for k in kinds:
            b = k[1]
            if k[0] and at + len(b) <= len(obs) and all(fits(e, o) for e, o in zip(b, obs[at:])):
                k[0] -= 1
                if cut(at + len(b)):
                    return True
                k[0] += 1
        return False
    return cut(0)


def match_messages(exp, obs):
    """Which expected messages are missing, which observed ones are left over,
    and is the order within each block kept?"""
    left = list(range(len(obs)))
    missing = []
    # exact columns first, then those that are open
    for e in sorted(range(len(exp)), key=lambda i: exp[i][2] == 0):
        for o in left:
            if fits(exp[e], obs[o]):
                left.remove(o)
                break
        else:
            missing.append(exp[e])
    order = bool(missing or left) or in_blocks(exp, obs)
    return missing, [obs[o] for o in left], order


def compare(case, out, obs):
    """Differences between an outcome of the specification and an observation.
    Each is (aspect, description); aspect 'known:...' for recorded findings."""
    if out["open"]:
        return []
    if obs["crash"]:
        return [("crash", obs["crash"])]
    diffs = []
    exp = spec_messages(case, out)
    soft = any(m[4] == "nonfatal" for m in exp)
    hard = any(m[3] == "error" and m[4] != "nonfatal" or m[3] == "check error" for m in exp)
    missing, extra, order = match_messages(exp, obs["msgs"])
    if out["brk"]:
        extra = [e for e in extra if e[3] != "error"]
    for m in missing:
        diffs.append(("message", "missing %s" % (m[:6],)))
    for e in extra:
        diffs.append(("message", "unexpected %s" % (e,)))
    if not order:
        diffs.append(("order", "messages of one construct out of order"))
    if not out["brk"]:
        prog = [] if out["res"] == "refused" else ["begin"] + list(out["prog"]) + ["end"]
        if prog != obs["prog"]:
            diffs.append(("progress", "expected %s, got %s" % (prog, obs["prog"])))
    # A file set with errors has no result
    want = "none" if out["res"] == "stab" and (soft or hard) else out["res"]
    if obs["res"] != want:
        if want == "none" and obs["res"] == out["res"] and soft and not hard:
            diffs.append(("known:C13-nonfatal", "result in spite of an error message"))
        else:
            diffs.append(("result", "expected %s, got %s" % (want, obs["res"])))
    if out["res"] == "stab" and obs["res"] == "stab":
        names = [f["name"] for f in sorted(case["files"], key=lambda f: f["name"])]
        if len(out["objs"]) != len(obs["objs"]):
            diffs.append(("objects", "%d objects expected, got %d" % (len(out["objs"]), len(obs["objs"]))))
        for e, o in zip(out["objs"], obs["objs"]):
            loc = [names[e["l"]["f"] - 1], e["l"]["l"], e["l"]["c"]]
            if e["n"] != o["n"] or e["t"] != o["t"] or loc != o["l"]:
                diffs.append(("objects", "expected %s %s %s, got %s" % (e["n"], e["t"], loc, o)))
                continue
            if [text(s) for s in e["sec"]] != o["sec"]:
                diffs.append(("sections", "%s: %s" % (e["n"], o["sec"])))
            if list(e["ord"]) != list(o["fld"]):
                diffs.append(("objects", "%s: fields %s" % (e["n"], list(o["fld"]))))
                continue
            fld = e["fld"] if isinstance(e["fld"], dict) else {}
            for n in e["ord"]:
                if not same_value(fld[n], o["fld"][n]):
                    diffs.append(("value", "%s.%s: expected %s, got %r" % (
                        e["n"], n, fld[n], o["fld"][n])))
                elif o["exact"] is not None and not same_value(fld[n], o["exact"].get(n)):
                    diffs.append(("value", "%s.%s: expected exactly %s, got %r" % (
                        e["n"], n, fld[n], o["exact"].get(n))))
        walk = [[w[0], names[w[1] - 1]] if w[0] == "file" else
                [w[0], text(w[1]), w[2]] if w[0] == "section" else list(w) for w in out["walk"]]
        for key in ("walk", "walk2"):
            if walk != obs[key]:
                diffs.append(("walk", "%s: expected %s, got %s" % (key, walk, obs[key])))
        types = spec_types(out)
        if obs["types"] is not None and types != obs["types"]:
            for n in sorted(set(types) | set(obs["types"])):
                if types.get(n) != obs["types"].get(n):
                    diffs.append(("types", "%s: expected %s, got %s" % (n, types.get(n), obs["types"].get(n))))
    return diffs


# --------------------------------------------------------------------- lexer

def observe_lex(text):
    """Tokens (with comments) the real lexer finds, and its first error."""
    from trlc.errors import Message_Handler, TRLC_Error
    from trlc.lexer import TRLC_Lexer
    out = io.StringIO()
    res = {"toks": [], "crash": None, "err": None}
    try:
        mh = Message_Handler(brief=True, out=out)
        lex = TRLC_Lexer(mh, "f", text)
        try:
            while True:
                t = lex.token()
                if t is None:
                    break
                loc = t.location
                end = loc.get_end_location()
                res["toks"].append([t.kind, loc.line_no, loc.col_no, loc.text(), t.value, end.line_no, end.col_no])
                if len(res["toks"]) > len(text):
                    res["crash"] = "more tokens than characters"
                    break
        except TRLC_Error:
            pass
        msgs = parse_messages(out.getvalue())
        if msgs:
            res["err"] = msgs[0][1:4] + [len(msgs)]
    except RecursionError:
        res["crash"] = "RecursionError"
    except (Exception, SystemExit) as e:
        res["crash"] = "%s(%s)" % (type(e).__name__, e)
    return res


def compare_lex(text_, exp, obs):
    """First difference between expected and observed tokens, or None."""
    if obs["crash"]:
        return "crash: " + obs["crash"]
    want = list(exp["toks"])
    bad = want.pop() if want and want[-1]["k"] == "ERR" else None
    for w, o in zip(want, obs["toks"]):
        val = o[4]
        k = w["k"]
        if o[0] != k:
            return "%s expected at %d:%d, got %s" % (k, w["l"], w["c"], o)
        if (o[1], o[2]) != (w["l"], w["c"]):
            return "%s expected at %d:%d, got %s" % (k, w["l"], w["c"], o)
        piece = text_[w["p"] - 1:w["e"]]
        if o[3] != piece:
            return "%s with the text %r expected, got %s" % (k, piece, o)
        if w["last"] != [0, 0] and o[5:7] != w["last"]:
            return "%s at %d:%d ends at %s expected, got %s" % (k, w["l"], w["c"], w["last"], o[5:7])
        if k == "INTEGER" and not (isinstance(val, int) and val == big(w["x"])):
            return "value of %r: %r" % (piece, val)
        if k == "DECIMAL" and not (isinstance(val, (int, Fraction))
                                   and val == Fraction(big(w["x"]["n"]), big(w["x"]["d"]))):
            return "value of %r: %r" % (piece, val)
        if k == "STRING" and val != text(w["x"]):
            return "value of %r: expected %r, got %r" % (piece, text(w["x"]), val)
        if k in ("IDENTIFIER", "KEYWORD", "OPERATOR") and val != piece:
            return "value of %r: %r" % (piece, val)
    if len(want) != len(obs["toks"]):
        return "%d tokens expected, got %d" % (len(want), len(obs["toks"]))
    if bad is None:
        if obs["err"]:
            return "unexpected error %s" % obs["err"]
    elif not obs["err"]:
        return "no error, one expected at %d:%d" % (bad["l"], bad["c"])
    elif obs["err"][0] != bad["l"] or obs["err"][1] != bad["c"] or obs["err"][2] != "error" \
            or obs["err"][3] != 1:
        return "error expected at %d:%d, got %s" % (bad["l"], bad["c"], obs["err"])
    return None
