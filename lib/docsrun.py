"""Builds documentation with the Sphinx extension, in a process of its own: cases (JSON on stdin), each a history of
[docs, rounds], each round [files: [text or null], fresh, par]. For every round what was built (JSON on stdout)."""
import html, io, json, os, re, shutil, signal, sys, tempfile, time, traceback

EXT = os.path.join(os.environ.get("TRLC_REPO", "/repo"), "tools", "sphinx", "extensions", "trlc")
OPTIONS = {"extensions": ["trlc"], "html_theme": "basic", "html_copy_source": False, "suppress_warnings": ["app", "toc"],
           "html_domain_indices": True, "root_doc": "index", "smartquotes": False, "html_use_index": False,
           "exclude_patterns": [], "project": "x"}
WARNING = re.compile(r"^\x1b?(?:\[91m)?(?:(.*?): )?WARNING: (.*?)(?:\x1b\[39;49;00m)?$")


def plain(t):
    return html.unescape(re.sub(r"<[^>]*>", "", t))


def page(t):
    """Definitions and references of a page, in order."""
    res = []
    body = t.split('<div class="body"', 1)[1].split('<div class="sphinxsidebar"', 1)[0]
    for m in re.finditer(r'<dt class="sig sig-object requirement" id="([^"]*)">\s*<span class="sig-name descname">(.*?)</span></?a|'
                         r'(?:<a class="reference internal" href="([^"]*)" title="([^"]*)">)?'
                         r'<code class="xref requirement ([\w-]*)[^>]*>(.*?)</code>(</a>)?', body, re.S):
        if m.group(1) is not None:
            res.append(["def", html.unescape(m.group(1)), plain(m.group(2))])
        else:
            res.append(["ref", html.unescape(m.group(3) or ""), m.group(5), plain(m.group(6))])
    return res


def index(t):
    res = []
    body = t.split('class="indextable', 1)[-1].split('<div class="sphinxsidebar"', 1)[0]
    for m in re.finditer(r'<strong>(.*?)</strong>|<a href="([^"]*)"><code class="xref">(.*?)</code></a>', body, re.S):
        if m.group(1) is not None:
            res.append([plain(m.group(1)), []])
        else:
            res[-1][1].append([html.unescape(m.group(2)), plain(m.group(3))])
    return res


def build(src, tmp, par):
    from sphinx.application import Sphinx
    warn = io.StringIO()
    out = os.path.join(tmp, "out")
    shutil.rmtree(out, ignore_errors=True)
    app = Sphinx(src, None, out, os.path.join(tmp, "dt"), "html", confoverrides=OPTIONS, status=None, warning=warn,
                 parallel=4 if par else 1)
    app.build()
    res = {"data": sorted([str(y) for y in x] for x in app.env.get_domain("requirement").get_objects()), "warnings": [], "pages": {}}
    for ln in warn.getvalue().split("\n"):
        ln = re.sub(r"\x1b\[[0-9;]*m", "", ln)
        if ln:
            res["warnings"].append(ln.replace(src + "/", ""))
    for d in sorted(app.env.all_docs):
        with open(os.path.join(out, d + ".html"), encoding="utf-8") as f:
            res["pages"][d] = page(f.read())
    name = os.path.join(out, "requirement-requirement.html")
    res["index"] = None
    if os.path.exists(name):
        with open(name, encoding="utf-8") as f:
            res["index"] = index(f.read())
    return res


def history(case):
    tmp = tempfile.mkdtemp(prefix="vdocs.")
    src = os.path.join(tmp, "src")
    os.mkdir(src)
    old = [None] * len(case["docs"])
    res = []
    try:
        for k, rd in enumerate(case["rounds"]):
            time.sleep(.02)
            for d, t, o in zip(case["docs"], rd["files"], old):
                name = os.path.join(src, d + ".rst")
                if t is None:
                    if o is not None:
                        os.unlink(name)
                elif t != o:
                    os.makedirs(os.path.dirname(name), exist_ok=True)
                    with open(name, "w", encoding="utf-8") as f:
                        f.write(t)
            old = rd["files"]
            if rd["fresh"]:
                shutil.rmtree(os.path.join(tmp, "dt"), ignore_errors=True)
            res.append(build(src, tmp, rd["par"]))
    except Exception:
        res.append({"crash": traceback.format_exc()[-1500:]})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def part(pipe, cases):
    signal.alarm(600)
    for c in cases:
        pipe.send(history(c))
    pipe.close()


if __name__ == "__main__":
    sys.path.insert(0, EXT)
    import multiprocessing, multiprocessing.connection
    import sphinx.application, sphinx.builders.html, docutils.parsers.rst
    cases = json.load(sys.stdin)
    n = min(int(os.environ.get("VERIF_WORKERS", os.cpu_count() or 4)), len(cases)) or 1
    ctx = multiprocessing.get_context("fork")
    procs = []
    for w in range(n):
        here, there = ctx.Pipe(False)
        p = ctx.Process(target=part, args=(there, cases[w::n]))
        p.start()
        there.close()
        procs.append((p, here))
    res = [None] * len(cases)
    todo = {here: list(range(w, len(cases), n)) for w, (p, here) in enumerate(procs)}
    while todo:
        for here in multiprocessing.connection.wait(list(todo)):
            try:
                res[todo[here].pop(0)] = here.recv()
            except (EOFError, OSError):
                del todo[here]
            else:
                if not todo[here]:
                    del todo[here]
    json.dump([x or [{"crash": "the process died or did not end"}] for x in res], sys.stdout)
