"""What all checks have in common: running cases on the specification and on
the code, judging, reporting, evidence."""
import concurrent.futures, concurrent.futures.process, json, multiprocessing, os, random, signal, sys, time
import impl, tlc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SLOW = 20                                # seconds a single case may take


class Hang(BaseException):
    pass


def _alarm(_sig, _frame):
    raise Hang()


def guarded(fn, arg):
    """Runs fn(arg) with a time limit; the code under test may be broken."""
    old = signal.signal(signal.SIGALRM, _alarm)
    slow = arg.get("slow", 6 * SLOW if arg.get("verify") else SLOW) if isinstance(arg, dict) else SLOW
    signal.alarm(slow)
    try:
        return fn(arg)
    except Hang:
        return {"res": None, "msgs": [], "crash": "no answer within %d s" % slow, "objs": None,
                "types": None, "walk": None, "hang": True}
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _call(job):
    fn, arg = job
    return guarded(fn, arg)


DIED = {"res": None, "msgs": [], "crash": "the process died", "objs": None, "types": None, "walk": None}


def _piped(pipe, fn, arg):
    pipe.send(guarded(fn, arg))
    pipe.close()


def _alone(fn, arg):
    """fn(arg) in a process of its own, which may die."""
    ctx = multiprocessing.get_context("fork")
    here, there = ctx.Pipe(False)
    p = ctx.Process(target=_piped, args=(there, fn, arg))
    p.start()
    there.close()
    try:
        res = here.recv()
    except EOFError:
        res = dict(DIED)
    p.join()
    return res


def parallel(fn, args, procs=None):
    """fn over args in forked processes, in order."""
    args = list(args)
    if not args:
        return []
    procs = min(procs or int(os.environ.get("VERIF_WORKERS", os.cpu_count() or 4)), len(args))
    ctx = multiprocessing.get_context("fork")
    try:
        with concurrent.futures.ProcessPoolExecutor(procs, mp_context=ctx) as pool:
            return list(pool.map(_call, [(fn, a) for a in args],
                                 chunksize=max(1, min(16, len(args) // (4 * procs) or 1))))
    except concurrent.futures.process.BrokenProcessPool:
        return [_alone(fn, a) for a in args]


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.thorough = self.tier == "thorough"
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.counts = [], {}
        self.violations = []
        self.known_seen = set()
        self.nid = 0
        self.notes = []
        self.replays = os.path.join(VERIF, "replays")
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            self.known = [k for k in json.load(f)["findings"]
                          if prop in k["property"].split("+")]

    # ------------------------------------------------------------ bookkeeping
    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def left(self, budget_thorough=1500):
        """Is there time for another round of exploration?"""
        return self.thorough and time.time() - self.t0 < budget_thorough

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def sample(self, what):
        if len(self.samples) < 6:
            self.samples.append(what)

    def violation(self, what, data):
        self.violations.append(what)
        if len(self.violations) > 5:
            return
        os.makedirs(self.replays, exist_ok=True)
        name = os.path.join(self.replays, "%s-%d.json" % (self.prop, len(self.violations)))
        with open(name, "w") as f:
            json.dump({"property": self.prop, "what": what, "data": data}, f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (self.prop, name))
        print("  %s" % what.replace("\n", " ")[:600])
        sys.stdout.flush()

    # ------------------------------------------------------------------ cases
    def case(self, files, lint=False, rec=False, trlc=True, **kw):
        """files: list of (name, text) or (name, text, primary)"""
        self.nid += 1
        c = dict(id=self.nid, lint=lint, rec=rec, trlc=trlc,
                 files=[dict(name=f[0], text=f[1], prim=f[2] if len(f) > 2 else True)
                        for f in files])
        c.update(kw)
        return c

    def expect(self, cases, module="TrlcRun"):
        """Outcomes of the specification."""
        try:
            outs, res = tlc.run_cases(cases, module=module)
        except tlc.TLC_Failed as e:
            if len(cases) == 1 or "analysis failed" in str(e):
                raise
            half = len(cases) // 2
            outs = {}
            for part in (cases[:half], cases[half:]):
                try:
                    outs.update(self.expect(part, module))
                except tlc.TLC_Failed:
                    self.count("cases outside of the specification", len(part))
            return outs
        self.states += res.distinct
        self.transitions += max(0, res.states - 1)
        return outs

    def conform(self, cases, aspects=None, module="TrlcRun", judge=None, variants=None):
        """Runs the cases on both sides.  Differences in the given aspects
        (or in any) are violations.  Returns [(case, outcomes, observation)].
        variants(case) gives further cases with the same expected outcome."""
        cases = list(cases)
        base = list(range(len(cases)))
        real = list(cases)
        if variants:
            for i, c in enumerate(cases):
                for v in variants(c):
                    real.append(v)
                    base.append(i)
        obs = parallel(impl.observe, real)
        outs = self.expect(cases, module)
        rows = []
        for n, (c, o) in enumerate(zip(real, obs)):
            exp = outs.get(cases[base[n]]["id"])
            if not exp:
                self.count("not decided")
                continue
            rows.append((c, exp, o))
            self.traces += 1
            if n < len(cases):
                self.tally(exp[0])
            # with several orders any of the outcomes will do
            best = None
            for e in exp:
                d = (judge or impl.compare)(c, e, o)
                if best is None or len(d) < len(best):
                    best = d
                if not d:
                    break
            self.judge(c, exp, o, best, aspects)
        return rows

    def tally(self, e):
        self.count("outcome " + ("open" if e["open"] else e["res"]))
        for m in e["msgs"]:
            self.count("expected " + (m["cat"] if m["sv"] == "issue" else m["sv"]))

    def judge(self, c, exp, o, diffs, aspects):
        bad = []
        for aspect, text in diffs:
            if aspect.startswith("known:"):
                self.known_seen.add(aspect[6:])
            elif (aspects is None and aspect != "progress") or aspect in (aspects or ()) or (aspect == "crash" and o.get("hang")):
                bad.append((aspect, text))
            else:
                self.count("differences in matters of other properties")
        if bad:
            self.violation("%s" % "; ".join("%s: %s" % b for b in bad[:4]),
                           {"case": c, "expected": {k: exp[0][k] for k in ("res", "path")},
                            "expected_messages": impl.spec_messages(c, exp[0]),
                            "observed": {k: o.get(k) for k in ("res", "msgs", "crash")},
                            "differences": bad})
        elif len(self.samples) < 3 and (len(c["files"]) < 4):
            self.sample({"files": {f["name"]: f["text"][:1500] for f in c["files"]},
                         "options": {k: c[k] for k in ("lint", "rec", "trlc")},
                         "outcome": exp[0]["res"],
                         "messages": [m[:6] for m in impl.spec_messages(c, exp[0])][:8]})

    # -------------------------------------------------------------- finishing
    def probes(self):
        """Known findings are shown as long as they are there."""
        import findings
        for k in self.known:
            r = guarded(getattr(findings, k["probe"]), None)
            if isinstance(r, dict) and r.get("hang"):
                r = True
            if r:
                print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, k["id"], k["what"]))
            else:
                print("note: finding %s no longer shows" % k["id"])

    def finish(self):
        self.probes()
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "samples": self.samples or ["none"], "counts": self.counts,
                           "notes": self.notes},
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s %s: %d traces, %d states, %d violations, %.1f s" % (
            self.prop, self.tier, self.traces, self.states, len(self.violations), ev["wall_s"]))
        for k in sorted(self.counts):
            print("  %-50s %d" % (k, self.counts[k]))
        if self.counts.get("cases outside of the specification", 0) > 10 + self.nid // 20:
            print("the specification has no answer for too many cases")
            return 1 if self.violations else 2
        return 1 if self.violations else 0
