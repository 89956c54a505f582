"""Running invocations of the command line tool on the specification (Cli.tla)
and on the real code."""
import io, json, os, re, shutil, subprocess, sys, traceback
from contextlib import redirect_stderr, redirect_stdout
import impl, tlc
from impl import REPO, big, text


def argv(v):
    """The arguments of an invocation."""
    a = []
    for on, opt in ((not v["lint"], "--no-lint"), (not v["rec"], "--no-error-recovery"),
                    (not v["trlc"], "--skip-trlc-files"), (v["nuw"], "--no-user-warnings"),
                    (v["eow"], "--error-on-warnings"), (v["list"], "--show-file-list"),
                    (v["bazel"], "--include-bazel-dirs"), (v.get("brief", True), "--brief"),
                    (v.get("plain"), "--no-detailed-info"), (v.get("api"), "--debug-api-dump"),
                    (v.get("verify"), "--verify")):
        if on:
            a.append(opt)
    for d in v["incs"]:
        a += ["-I", d]
    a += v["items"]
    if v.get("log"):
        a += ["--log", "out.log"] + ([v["prefix"]] if v.get("prefix") else [])
    return a


def put(root, v):
    for d in v["dirs"]:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for p, t in v["tree"]:
        n = os.path.join(root, p)
        os.makedirs(os.path.dirname(n), exist_ok=True)
        with open(n, "w", encoding="UTF-8", errors="surrogateescape", newline="") as f:
            f.write(t)


def state(root):
    res = {}
    for path, _, files in os.walk(root):
        for n in files:
            with open(os.path.join(path, n), "rb") as f:
                res[os.path.relpath(os.path.join(path, n), root)] = f.read()
    return res


def observe(v):
    root = impl.scratch()
    cwd = os.getcwd()
    obs = {"exit": None, "out": "", "err": "", "crash": None, "changed": []}
    try:
        put(root, v)
        before = state(root)
        if v.get("sub"):
            p = subprocess.run([sys.executable, "-B", os.path.join(REPO, "trlc.py"), *argv(v)], cwd=root,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60,
                               env=dict(os.environ, PYTHONPATH=REPO, PYTHONIOENCODING="utf-8"))
            obs["exit"] = p.returncode
            obs["out"], obs["err"] = p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
            if "Traceback (most recent call last)" in obs["err"]:
                obs["crash"] = obs["err"].strip().split("\n")[-1]
        else:
            import trlc.trlc
            out, err = io.StringIO(), io.StringIO()
            old = sys.argv
            os.chdir(root)
            sys.argv = ["trlc"] + argv(v)
            try:
                with redirect_stdout(out), redirect_stderr(err):
                    rv = trlc.trlc.main()
                obs["exit"] = 0 if rv is None else rv
            except SystemExit as e:
                obs["exit"] = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
            except RecursionError:
                obs["crash"] = "RecursionError"
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = [t for t in tb if "/trlc/" in t.filename] or tb
                obs["crash"] = "%s(%s) at %s:%s" % (type(e).__name__, e, os.path.basename(where[-1].filename),
                                                    where[-1].name)
            finally:
                sys.argv = old
                os.chdir(cwd)
            obs["out"], obs["err"] = out.getvalue(), err.getvalue()
        after = state(root)
        log = after.pop("out.log", None)
        if v.get("log"):
            obs["stdout"] = obs["out"]
            obs["out"] = log.decode("utf-8", "replace") if log is not None else None
        elif log is not None:
            obs["changed"].append("out.log")
        obs["changed"] += [n for n in set(before) | set(after) if before.get(n) != after.get(n)]
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)
    return obs


def expect(chk, invs):
    """Outcomes of the specification."""
    rows = [{"id": v["id"], "lint": v["lint"], "rec": v["rec"], "trlc": v["trlc"], "nuw": v["nuw"],
             "eow": v["eow"], "list": v["list"], "bazel": v["bazel"],
             "items": [tlc.codes(i) for i in v["items"]], "incs": [tlc.codes(i) for i in v["incs"]],
             "dirs": [tlc.codes(d) for d in v["dirs"]],
             "tree": [{"path": tlc.codes(p), "text": tlc.codes(t)} for p, t in v["tree"]]} for v in invs]
    try:
        res = tlc.run_rows(rows, "Cli")
    except tlc.TLC_Failed:
        if len(invs) == 1:
            raise
        half = len(invs) // 2
        return {**expect(chk, invs[:half]), **expect(chk, invs[half:])}
    chk.states += res.distinct
    chk.transitions += max(0, res.states - 1)
    return {o["id"]: o for o in res.lines}


WORDY = re.compile(r"^(?:\s*\^+ )?(?P<file>[^\s:]+?)(?::(?P<line>\d+))?(?::(?P<col>\d+))?: "
                   r"(?P<sv>error|issue|warning|check error|check warning): ")
SUMMARY = re.compile(r"^Processed \d")


def read(v, obs):
    """The output in parts: messages, dump, summary, file list."""
    lines = obs["out"].split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    at = [i for i, l in enumerate(lines) if SUMMARY.match(l)]
    res = {"summaries": len(at), "summary": lines[at[-1]] if at else "", "list": [], "dump": None, "msgs": []}
    body = lines[:at[-1]] if at else lines
    if at:
        res["list"] = lines[at[-1] + 1:]
    if v.get("api"):
        cut = [i for i, l in enumerate(body) if l in ("{", "{}")]
        if cut:
            try:
                res["dump"] = json.loads("\n".join(body[cut[0]:]))
                body = body[:cut[0]]
            except ValueError:
                pass
    if v.get("brief", True):
        res["msgs"] = impl.parse_messages("\n".join(body) + "\n" if body else "")
    else:
        for l in body:
            m = WORDY.match(l)
            if m:
                res["msgs"].append([m.group("file"), int(m.group("line") or 0), 0, m.group("sv"), "", ""])
    return res


def stripped(v, name):
    p = v.get("prefix") if v.get("log") else None
    return name[len(p):] if p and name.startswith(p) else name


def compare(v, exp, obs):
    """Differences [(aspect, text)]; aspects status, summary, list, message,
    dump, files (written), crash."""
    if exp["open"]:
        return []
    if obs["crash"]:
        return [("crash", obs["crash"])]
    d = []
    if obs["changed"]:
        d.append(("files", "the tool changed %s" % obs["changed"]))
    if v.get("log") and obs["out"] is None:
        if exp["res"] != "usage":
            return d + [("message", "no log file was written")]
        obs = dict(obs, out="")
    if v.get("log") and obs["stdout"]:
        d.append(("message", "output besides the log file: %r" % obs["stdout"][:200]))
    if obs["err"] and exp["res"] != "usage":
        d.append(("message", "unexpected output %r" % obs["err"][:200]))
    names = [text(n) for n in exp["names"]]
    msgs = [(stripped(v, names[m["f"] - 1]), m["l"], m["c"], m["sv"], m["cat"], text(m["tx"]), m["blk"])
            for m in exp["msgs"]]
    soft = any(m[4] == "nonfatal" for m in msgs)
    msgs += [(os.path.basename(text(n)), 0, 0, "error", "", "", 0) for n in exp["extra"]]
    shown = [m for m in msgs if not (v["nuw"] and m[3] == "check warning")]
    got = read(v, obs)
    if exp["res"] == "usage":
        if got["msgs"] or got["summary"]:
            d.append(("message", "output in spite of wrong arguments"))
    elif v.get("brief", True):
        missing, extra, order = impl.match_messages(shown, got["msgs"])
        if exp["brk"]:
            extra = [e for e in extra if e[3] != "error"]
        d += [("message", "missing %s" % (m[:6],)) for m in missing]
        d += [("message", "unexpected %s" % (m,)) for m in extra]
        if not order:
            d.append(("message", "messages of one construct out of order"))
    else:
        want = sorted((m[0], m[1], m[3]) for m in shown)
        have = sorted((m[0], m[1], m[3]) for m in got["msgs"])
        if want != have and not exp["brk"]:
            d.append(("message", "expected %s, got %s" % (want, have)))
    # the status
    if obs["exit"] != exp["exit"]:
        d.append(("status", "expected %d, got %s" % (exp["exit"], obs["exit"])))
    # the summary; the number of errors is open after a lexical error
    if got["summaries"] != (1 if exp["summary"] else 0):
        d.append(("summary", "%d summaries" % got["summaries"]))
    elif exp["brk"]:
        n = sum(m[3] in ("error", "check error") for m in got["msgs"])
        w = len([m for m in msgs if m[3] in ("warning", "check warning", "issue")])
        if not re.search(r"\b%d errors?\b" % n, got["summary"]) or \
           (w and not re.search(r"\b%d warnings?\b" % w, got["summary"])):
            d.append(("summary", "%d errors and %d warnings were issued: %s" % (n, w, got["summary"])))
    elif got["summary"] != exp["summary"]:
        d.append(("summary", "expected %r, got %r" % (exp["summary"], got["summary"])))
    # the files
    if not soft:
        want = ["> %s %s %s (Package %s)" % (x["status"], x["what"], names[x["f"] - 1], x["pkg"])
                for x in exp["list"]]
        if got["list"] != want:
            d.append(("list", "expected %s, got %s" % (want, got["list"])))
        if v.get("api"):
            d += dump(exp, got["dump"])
    return d


def dump(exp, got):
    if exp["exit"] == 2 or exp["errors"] or exp["res"] != "stab":
        return [("dump", "dump in spite of errors")] if got is not None else []
    if got is None:
        return [("dump", "no dump")]
    objs = {}
    for o in exp["objs"]:
        if o["n"][1] in objs:
            return []            # the form of the dump has no room for both
        objs[o["n"][1]] = o
    if set(objs) != set(got):
        return [("dump", "objects %s expected, got %s" % (sorted(objs), sorted(got)))]
    for n, o in objs.items():
        fld = o["fld"] if isinstance(o["fld"], dict) else {}
        if set(fld) != set(got[n]):
            return [("dump", "%s: components %s" % (n, sorted(got[n])))]
        for c, x in fld.items():
            if not impl.same_value(x, got[n][c]):
                return [("dump", "%s.%s: expected %s, got %r" % (n, c, x, got[n][c]))]
    return []


def conform(chk, invs, aspects=None):
    import harness
    invs = list(invs)
    obs = harness.parallel(observe, invs)
    outs = expect(chk, invs)
    for v, o in zip(invs, obs):
        e = outs.get(v["id"])
        if e is None:
            chk.count("not decided")
            continue
        if "exit" not in o:
            o.update(exit=None, out="", err="", changed=[])
        chk.traces += 1
        chk.count("invocations " + ("open" if e["open"] else e["res"]))
        bad = [x for x in compare(v, e, o) if aspects is None or x[0] in aspects]
        if bad:
            chk.violation("trlc %s: %s" % (" ".join(argv(v)), "; ".join("%s: %s" % b for b in bad[:4])),
                          {"invocation": v, "argv": argv(v), "expected": {k: e[k] for k in ("exit", "res", "summary", "list")},
                           "observed": o, "differences": bad})
        elif len(chk.samples) < 3 and e["res"] not in ("usage",):
            chk.sample({"argv": argv(v), "files": [p for p, _ in v["tree"]], "status": e["exit"],
                        "summary": e["summary"]})


# ----------------------------------------------------------------- generation

def options(r, **kw):
    p = lambda x: r.random() < x
    v = dict(lint=p(.6), rec=p(.7), trlc=p(.85), nuw=p(.3), eow=p(.35), list=p(.4), bazel=p(.25),
             brief=p(.75), plain=p(.3), api=p(.3), log=p(.25), items=[], incs=[], dirs=[], tree=[])
    v.update(kw)
    return v


def base(chk, v):
    chk.nid += 1
    v["id"] = chk.nid
    ds = set(v["dirs"])
    for p, _ in v["tree"]:
        while os.path.dirname(p):
            p = os.path.dirname(p)
            ds.add(p)
    v["dirs"] = sorted(ds)
    return v


DIRS = ["sub", "lib", "sub/deep", "bazel-out", "bazel-bin", "sub/bazel-x", "sub/bazel-y", "bazel", "lib/bazel-bin/in", "Bazel-out", "x-bazel-y"]


def spread(r, files):
    """Puts files into directories."""
    ds = r.sample(DIRS, r.randint(0, 4))
    tree = []
    for n, t in files:
        d = r.choice([""] * 2 + ds)
        tree.append([os.path.join(d, n), t])
    # things that do not belong there
    for n in ("README.txt", ".rsl", "sub/.trlc", "model.rsl.bak", "rsl", "lib/x.RSL", "sub/..rsl"):
        if r.random() < 0.12:
            tree.append([n, "no trlc"])
    if r.random() < 0.3:
        t = r.choice(tree)
        tree.append([os.path.join(r.choice(DIRS), "copy_" + os.path.basename(t[0])), t[1]])
    seen, res = set(), []
    for p, t in tree:
        if p not in seen:
            seen.add(p)
            res.append([p, t])
    return res


def spell(r, p):
    x = r.random()
    return p if x < .7 else "./" + p if x < .85 else p + "/" if x < .93 and not p.endswith(("rsl", "trlc")) else p


def invocation(chk, r, files, **kw):
    v = options(r, **kw)
    v["tree"] = spread(r, files)
    paths = [p for p, _ in v["tree"]]
    dirs = sorted({os.path.dirname(p) for p in paths if os.path.dirname(p)} |
                  {p.split("/")[0] for p in paths if "/" in p} |
                  {"/".join(p.split("/")[:2]) for p in paths if p.count("/") > 1})
    if r.random() < .2:
        v["dirs"] = ["empty"]
        dirs = dirs + ["empty"]
    v["dirs"] = sorted(set(v["dirs"]) | set(dirs))
    wanted = [p for p in paths if p.endswith((".rsl", ".trlc"))]
    x = r.random()
    if x < .2:
        pass
    elif x < .35:
        v["items"] = [r.choice([".", "./", "./."])]
    elif x < .75 or not dirs:
        v["items"] = [spell(r, p) for p in r.sample(wanted, r.randint(1, len(wanted)))] if wanted else []
        if r.random() < .1:
            v["items"].append(r.choice(paths))
    else:
        v["items"] = [spell(r, d) for d in r.sample(dirs, r.randint(1, min(2, len(dirs))))]
        if r.random() < .5 and wanted:
            v["items"].append(spell(r, r.choice(wanted)))
    if r.random() < .05:
        v["items"].insert(r.randint(0, len(v["items"])), r.choice(["missing", "missing.rsl", "sub/missing.trlc"]))
    if r.random() < .5:
        v["incs"] = [spell(r, d) for d in r.sample(dirs + ["."], r.randint(1, min(2, len(dirs) + 1)))]
        if r.random() < .05:
            v["incs"].append(r.choice(["missing", wanted[0] if wanted else "nothing"]))
    if v["log"] and r.random() < .5:
        v["prefix"] = r.choice(["./", "sub/", "a", "x", "sub"])
    return v if once(v) else None


def once(v):
    """Is no file selected twice under the same name?  (see known findings)"""
    names = []
    for i in v["items"] or ["."]:
        d = os.path.normpath(i)
        if any(os.path.normpath(p) == d for p, _ in v["tree"]):
            names.append(i)
            continue
        for p, _ in v["tree"]:
            if d == "." or os.path.normpath(p).startswith(d + "/"):
                names.append(os.path.join(i, os.path.relpath(p, d)))
    return len(names) == len(set(names))
