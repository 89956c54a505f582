"""Running TLC."""
import json, os, re, shutil, subprocess, tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
CP = ("/opt/veriftools/tla/tla2tools.jar:"
      "/opt/veriftools/tla/CommunityModules-deps.jar")


class Spec_Wrong(Exception):
    """A property does not hold of the specification."""


class TLC_Failed(Exception):
    pass


class Result:
    def __init__(self, lines, states, distinct, raw):
        self.lines = lines            # printed JSON records
        self.states = states
        self.distinct = distinct
        self.raw = raw


def tlc(module, cfg=None, env=None, workers=None, timeout=800, mem="6g", extra=()):
    """Runs TLC on a module of the specification."""
    workers = workers or int(os.environ.get("VERIF_WORKERS", os.cpu_count() or 4))
    meta = tempfile.mkdtemp(prefix="vtlc.")
    try:
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", *os.environ.get("VJ","-Xss256m").split(), "-Xmx" + mem,
               "-DTLA-Library=" + SPEC, "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-config", os.path.join(SPEC, cfg or module + ".cfg")]
        cmd += list(extra)
        cmd += [os.path.join(SPEC, module + ".tla")]
        p = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode("utf-8", "replace")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    lines = []
    for ln in out.split("\n"):
        if ln.startswith('"{') and ln.rstrip().endswith('}"'):
            lines.append(json.loads(json.loads(ln.rstrip())))
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
    if p.returncode != 0 or not m:
        text = [l[:300] for l in out.split("\n") if not l.startswith('"{')]
        err = [i for i, l in enumerate(text) if l.startswith("Error:")]
        parts = [l for i in err for l in text[i:i + 8]] + ["..."] + text[-40:]
        if "is violated" in out:
            raise Spec_Wrong("\n".join(text[-60:]))
        raise TLC_Failed("TLC exit %d\n%s" % (p.returncode, "\n".join(parts)))
    return Result(lines, int(m.group(1)), int(m.group(2)), out)


def codes(text):
    return [ord(c) for c in text]


def run_cases(cases, workers=None, timeout=800, module="TrlcRun"):
    """Outcomes of the specification: case id -> list of outcomes, result.

    A case is a dict with id, lint, rec, trlc and files, a list in the order
    of file names of dicts with name, prim, text."""
    rows = []
    for c in cases:
        files = sorted(c["files"], key=lambda f: f["name"])
        rows.append({"id": c["id"], "lint": c["lint"], "rec": c["rec"], "trlc": c["trlc"],
                     "any": c.get("any", False), "ask": [codes(n) for n in c.get("ask", [])],
                     "files": [{"kind": f["name"].rsplit(".", 1)[1], "prim": f["prim"],
                                "text": codes(f["text"])} for f in files]})
    return by_id(run_rows(rows, module, workers, timeout))


def by_id(res):
    outs = {}
    for o in res.lines:
        outs.setdefault(o["id"], []).append(o)
    return outs, res


def run_rows(rows, module, workers=None, timeout=800, cfg=None):
    """Runs a module on rows of input."""
    cache = os.environ.get("VERIF_DEV_CACHE")     # development only
    if cache:
        import hashlib, pickle
        h = hashlib.sha256((module + (cfg or "") + json.dumps(rows)).encode())
        for m in sorted(os.listdir(SPEC)):
            h.update(open(os.path.join(SPEC, m), "rb").read())
        cached = os.path.join(cache, h.hexdigest())
        if os.path.exists(cached):
            return pickle.load(open(cached, "rb"))
    fd, name = tempfile.mkstemp(suffix=".ndjson", prefix="vcases.")
    try:
        with os.fdopen(fd, "w") as f:
            for r in rows:
                f.write(json.dumps(r) + "\n")
        res = tlc(module, cfg=cfg, env={"TRLC_CASES": name}, workers=workers, timeout=timeout)
    finally:
        os.unlink(name)
    res.raw = ""
    if cache:
        pickle.dump(res, open(cached, "wb"))
    return res
