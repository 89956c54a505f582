"""Random programs, mostly correct, with knobs.

A program is a list of files (name, text).  The generator keeps track of what
it declares, so that most of what it writes is legal; mutate() then breaks
programs in all sorts of ways.  Whether a program is right or wrong, and what
it means, is for the specification to say, so nothing here has to be exact."""
import random, re

KEYWORDS = ("abs abstract and checks else elsif enum error exists extends false fatal final "
            "forall freeze if implies import in not null optional or package section separator "
            "then true tuple type warning xor").split()
NAMES = ("alpha beta gamma delta eps zeta eta theta iota kappa lam mu nu xi rho sig tau phi chi psi "
         "omega foo bar baz qux val pos neg size kind flag text item node link cost rate mark").split()


class Ty:
    """A type as the generator sees it."""
    def __init__(self, k, **kw):
        self.k = k
        self.__dict__.update(kw)


INT, DEC, BOOL, STR, MUP = (Ty("prim", n=n) for n in
                            ("Integer", "Decimal", "Boolean", "String", "Markup_String"))


class Gen:
    def __init__(self, rng, **knobs):
        self.r = rng
        self.kn = dict(packages=2, types=4, objects=4, checks=3, depth=3, sections=0.3, comments=0.1,
                       desc=0.2, wrong=0.0, null=0.3, fatal=0.15, warn=0.6, anchor=0.3,
                       unused_import=0.1, probes=False, weird=0.1, freeze=0.4, final=0.1,
                       abstract=0.25, extends=0.5, tuples=0.3, enums=0.25, unions=0.2, arrays=0.3,
                       refs=0.25, markup=0.15, opt=0.35, late=0.1, guard=0.6, lits=0.2,
                       ints=None, deep_lit=0.05, selfref=0.2)
        self.kn.update(knobs)
        self.pk = []

    # ------------------------------------------------------------ utilities
    def p(self, x):
        return self.r.random() < (self.kn[x] if isinstance(x, str) else x)

    def pick(self, xs):
        return self.r.choice(list(xs))

    def fresh(self, used, up=False):
        for _ in range(200):
            n = self.pick(NAMES)
            if self.p(0.3):
                n += "_" + self.pick(NAMES)
            if self.p(0.3):
                n += str(self.r.randrange(10))
            if up or self.p(0.2):
                n = n[0].upper() + n[1:]
            if self.p(0.05):
                n = n.upper()
            s = n.lower().replace("_", "")
            if s not in used and n not in KEYWORDS and \
               s not in ("integer", "decimal", "boolean", "string", "markupstring", "len",
                         "startswith", "endswith", "matches", "oneof"):
                used.add(s)
                return n
        n = "n%d" % len(used)
        used.add(n)
        return n

    def descr(self):
        return " " + self.strlit(plain=True) if self.p("desc") else ""

    def ws(self, toks):
        """Join tokens, sometimes with odd white space and comments."""
        out = []
        for t in toks:
            out.append(t)
            x = self.r.random()
            if x < self.kn["comments"] * 0.3:
                out.append(" // note\n")
            elif x < self.kn["comments"] * 0.6:
                out.append(" /* note */ ")
            elif x < self.kn["comments"]:
                out.append("\n\t ")
            else:
                out.append(" ")
        return "".join(out)

    # -------------------------------------------------------------- program
    def program(self):
        n = self.r.randint(1, self.kn["packages"])
        used = set()
        for i in range(n):
            name = self.fresh(used, up=self.p(0.7))
            self.pk.append(dict(name=name, imports=[], types=[], objs=[], used=set(), rsl=[], trlc=[],
                                has_rsl=True, pre=None))
        for i, P in enumerate(self.pk):
            for Q in self.pk[:i]:
                if self.p(0.6):
                    P["imports"].append(Q)
            P["timports"] = list(P["imports"])
            for Q in self.pk:
                if Q is not P and Q not in P["timports"] and self.p(0.3):
                    P["timports"].append(Q)
        for P in self.pk:
            if self.p("late") and len(self.pk) > 1 and P is not self.pk[0]:
                P["has_rsl"] = False
                continue
            for _ in range(self.r.randint(1, self.kn["types"])):
                self.type_decl(P)
            for _ in range(self.kn["checks"]):
                if self.p(0.7):
                    self.check_block(P)
        # objects are planned first so that references may point forward
        plan = []
        for P in self.pk:
            for _ in range(self.r.randint(1, self.kn["objects"])):
                ts = [t for Q in [P] + P["timports"] for t in Q["types"] if t.k == "rec" and not t.abs]
                if not ts:
                    continue
                t = self.pick(ts)
                o = dict(pkg=P, name=self.fresh(P["used"]), t=t)
                P["objs"].append(o)
                plan.append(o)
        files = []
        for P in self.pk:
            nm = P["name"].lower()
            if P["has_rsl"]:
                txt = "package %s\n" % P["name"]
                txt += "".join("import %s\n" % Q["name"] for Q in P["imports"])
                files.append([nm + ".rsl", txt + "\n" + "\n".join(P["rsl"]) + "\n"])
            if P["objs"] or not P["has_rsl"] or self.p(0.3):
                parts = [P["objs"]]
                if self.p(0.3) and len(P["objs"]) > 1:
                    k = self.r.randrange(1, len(P["objs"]))
                    parts = [P["objs"][:k], P["objs"][k:]]
                for j, objs in enumerate(parts):
                    txt = "package %s\n" % P["name"]
                    txt += "".join("import %s\n" % Q["name"] for Q in P["timports"])
                    files.append(["%s%s.trlc" % (nm, "_%d" % j if j else ""),
                                  txt + "\n" + self.body(objs) + "\n"])
        return files

    def body(self, objs):
        out, i = [], 0
        depth = 0
        while i < len(objs) or depth:
            if depth < 3 and i < len(objs) and self.p(self.kn["sections"] * 0.6):
                out.append("  " * depth + "section %s {" % self.strlit(plain=True))
                depth += 1
            elif depth and (i >= len(objs) or self.p(0.25)):
                depth -= 1
                out.append("  " * depth + "}")
            else:
                out.append(self.object(objs[i]))
                i += 1
        return "\n".join(out)

    # ---------------------------------------------------------------- types
    def qual(self, P, t):
        return t.n if t.pkg is P else t.pkg["name"] + "." + t.n

    def visible(self, P):
        return [t for Q in [P] + P["imports"] for t in Q["types"]]

    def type_decl(self, P):
        x = self.r.random()
        if x < self.kn["enums"]:
            self.enum_decl(P)
        elif x < self.kn["enums"] + self.kn["tuples"]:
            self.tuple_decl(P)
        else:
            self.record_decl(P)

    def enum_decl(self, P):
        n = self.fresh(P["used"], up=True)
        used = set()
        lits = [self.fresh(used) for _ in range(self.r.randint(1, 4))]
        P["types"].append(Ty("enum", n=n, pkg=P, lits=lits))
        P["rsl"].append("enum %s%s {\n%s\n}" % (
            n, self.descr(), "\n".join("  " + l + self.descr() for l in lits)))

    def plain_type(self, P, tuple_sep=False, owner=None):
        x = self.r.random()
        vis = self.visible(P)
        recs = [t for t in vis if t.k == "rec"]
        tups = [t for t in vis if t.k == "tup" and not (tuple_sep and t.seps)]
        enums = [t for t in vis if t.k == "enum"]
        if x < self.kn["unions"] and recs:
            k = self.r.randint(1, min(3, len(recs)))
            ms = self.r.sample(recs, k)
            return Ty("uni", ts=ms)
        if x < self.kn["unions"] + self.kn["refs"] and (recs or owner):
            if owner is not None and (self.p("selfref") or not recs):
                return owner
            return self.pick(recs)
        if tups and self.p(self.kn["tuples"]):
            return self.pick(tups)
        if enums and self.p(self.kn["enums"]):
            return self.pick(enums)
        if self.p("markup"):
            return MUP
        return self.pick([INT, INT, DEC, BOOL, STR])

    def type_text(self, P, t):
        if t.k == "prim":
            return t.n
        if t.k == "uni":
            return "[%s]" % ", ".join(self.qual(P, m) for m in t.ts)
        return self.qual(P, t)

    def tuple_decl(self, P):
        n = self.fresh(P["used"], up=True)
        used = set()
        sep = self.p(0.6)
        k = self.r.randint(1, 4)
        fs, seps, opt = [], [], False
        toks = ["{"]
        for i in range(k):
            t = self.plain_type(P, tuple_sep=sep)
            f = Ty("comp", n=self.fresh(used), t=t, opt=False)
            if i and sep:
                if t.k in ("rec", "uni", "enum") or fs[-1].t.k in ("rec", "uni", "enum"):
                    s = self.pick("@:;")
                else:
                    s = self.pick(["@", ":", ";", "x", "b", "sep", "of"])
                if s == ":" and False:
                    s = "@"
                seps.append(s)
                toks += ["separator", s, "\n "]
                opt = opt or self.p(0.3)
                f.opt = opt
            fs.append(f)
            toks += [f.n + self.descr(), "optional" if f.opt else "", self.type_text(P, t), "\n "]
        toks.append("}")
        ty = Ty("tup", n=n, pkg=P, comps=fs, seps=seps)
        P["rsl"].append("tuple %s%s %s" % (n, self.descr(), self.ws([t for t in toks if t])))
        P["types"].append(ty)

    def record_decl(self, P):
        n = self.fresh(P["used"], up=True)
        parents = [t for t in self.visible(P) if t.k == "rec"]
        par = self.pick(parents) if parents and self.p("extends") else None
        used = set(c.n.lower().replace("_", "") for c in (par.all if par else []))
        t = Ty("rec", n=n, pkg=P, par=par, abs=self.p("abstract"), fin=False, own=[],
               all=list(par.all) if par else [], fro=dict(par.fro) if par else {})
        head = "abstract " if t.abs else ""
        if not t.abs and self.p("final"):
            head, t.fin = "final ", True
        if par and par.fin:
            t.fin = True
        lines = []
        for c in list(t.all):
            if c.n not in t.fro and self.p(self.kn["freeze"] * 0.4):
                if c.t.k in ("rec", "uni") or (c.t.k == "arr" and c.t.el.k in ("rec", "uni")):
                    continue
                t.fro[c.n] = True
                lines.append("  freeze %s = %s" % (c.n, self.value(P, c.t)))
        for _ in range(0 if par and par.fin else self.r.randint(0, 4)):
            ct = self.plain_type(P, owner=None if self.p(0.5) else t)
            arr = ""
            opt = self.p("opt") or ct is t
            txt = self.type_text(P, ct)
            if self.p("arrays"):
                lo = self.r.choice([0, 0, 1, 2])
                hi = self.r.choice([None, None, lo, lo + 1, lo + 3])
                ct = Ty("arr", el=ct, lo=lo, hi=hi)
                arr = " [%d .. %s]" % (lo, "*" if hi is None else hi)
            c = Ty("comp", n=self.fresh(used), t=ct, opt=opt)
            t.own.append(c)
            t.all.append(c)
            lines.append("  %s%s %s%s%s" % (c.n, self.descr(), "optional " if opt else "", txt, arr))
        P["types"].append(t)
        P["rsl"].append("%stype %s%s%s {\n%s\n}" % (
            head, n, self.descr(), " extends " + self.qual(P, par) if par else "", "\n".join(lines)))

    # --------------------------------------------------------------- values
    def intval(self):
        if self.kn["ints"]:
            return self.r.choice(self.kn["ints"])
        x = self.r.random()
        if x < 0.7:
            return self.r.randint(0, 12)
        if x < 0.9:
            return self.r.randint(0, 200)
        return self.r.choice([2 ** 31, 2 ** 32 - 1, 2 ** 63, 2 ** 64 + 1, 10 ** 20, 10 ** 30 + 7, 9999, 10000, 10001])

    def under(self, digits):
        if len(digits) > 1 and self.p(0.3):
            i = self.r.randrange(1, len(digits))
            return digits[:i] + "_" + digits[i:]
        return digits

    def intlit(self, v=None):
        v = self.intval() if v is None else v
        if self.p(self.kn["lits"]):
            return self.pick(["0x" + self.under("%x" % v), "0x" + self.under("%X" % v),
                              "0b" + self.under("{:b}".format(v)), self.under(str(v)), "0" + str(v)])
        return str(v)

    def declit(self):
        x = self.r.random()
        if x < 0.6:
            s = self.pick(["0.0", "0.5", "1.0", "1.5", "2.25", "0.1", "0.2", "0.3", "3.0", "2.5", "10.0", "0.25"])
        elif x < 0.9:
            s = "%d.%s" % (self.r.randint(0, 20), self.pick(["0", "5", "25", "125", "1", "3", "999", "50"]))
        else:
            s = "%s.%s" % (self.under(str(self.intval())), self.under(str(self.r.randint(1, 10 ** 12))))
        return s

    def strchars(self):
        x = self.r.random()
        if x < 0.8:
            return self.pick(["", "a", "ab", "abc", "foo", "foo bar", "potato", "x", "A", "aa", "aab", "1", "12"])
        return "".join(self.pick("ab cXY_-.,;:!?'()[]{}<>=+*/%0123456789\u00e9\u4e2d\\")
                       for _ in range(self.r.randint(0, 12)))

    def strlit(self, plain=False):
        s = self.strchars()
        if plain or self.p(0.75):
            s = s.replace("\n", " ")
            if s.endswith("\\"):
                s += "."
            if self.p(0.1):
                s += '\\"' + self.strchars().replace("\\", "/")
            return '"%s"' % s
        q = self.pick(['"""', "'''"])
        lines = [self.strchars() for _ in range(self.r.randint(1, 4))]
        pad = self.pick(["", "  ", "    ", "\t"])
        body = ("\n").join([lines[0]] + [(pad if self.p(0.8) else pad + " ") + l + (" " if self.p(0.2) else "")
                                         for l in lines[1:]])
        body = (self.pick(["", " ", "\n", "\n" + pad]) + body + self.pick(["", " ", "\n"])).replace(q, "")
        if body.startswith(q[0]):
            body = " " + body
        if body.endswith(q[0]):
            body += " "
        return q + body + q

    def markup(self, P):
        s = self.pick(["see", "", "as in ", "x"])
        objs = P["objs"] + [o for Q in P["timports"] for o in Q["objs"]]
        n = self.r.randint(0, 2)
        for _ in range(n):
            if not objs:
                break
            refs = []
            for _ in range(self.r.randint(1, 2)):
                o = self.pick(objs)
                refs.append(o["name"] if o["pkg"] is P else o["pkg"]["name"] + "." + o["name"])
            s += " [[%s]] " % self.pick([", ", ",", " , "]).join(refs)
        return '"%s"' % s

    def objects_of(self, P, ts):
        def sub(t, s):
            while t is not None:
                if t is s:
                    return True
                t = t.par
            return False
        return [o for Q in [P] + P["timports"] for o in Q["objs"] if any(sub(o["t"], s) for s in ts)]

    def value(self, P, t, frozen=False):
        if self.p(self.kn["wrong"]):
            t = self.pick([INT, DEC, BOOL, STR])
        if t.k == "prim":
            if t is INT:
                return self.pick(["", "", "-", "+", "- "]) + self.intlit()
            if t is DEC:
                return self.pick(["", "", "-", "+"]) + self.declit()
            if t is BOOL:
                return self.pick(["true", "false"])
            if t is STR:
                return self.strlit()
            return self.markup(P)
        if t.k == "enum":
            return self.qual(P, t) + "." + self.pick(t.lits)
        if t.k in ("rec", "uni"):
            objs = self.objects_of(P, t.ts if t.k == "uni" else [t])
            if not objs:
                return "nothing"
            o = self.pick(objs)
            return o["name"] if o["pkg"] is P else o["pkg"]["name"] + "." + o["name"]
        if t.k == "arr":
            hi = t.lo + 3 if t.hi is None else t.hi
            n = self.r.randint(min(t.lo, hi), hi)
            if self.p(0.5):
                n = self.pick([t.lo, hi])
            return "[%s%s]" % (", ".join(self.value(P, t.el) for _ in range(n)),
                               "," if n and self.p(0.1) else "")
        if t.k == "tup":
            if not t.seps:
                return "(%s)" % ", ".join(self.value(P, f.t) for f in t.comps)
            out = ""
            for i, f in enumerate(t.comps):
                if f.opt and self.p(0.4):
                    break
                if i:
                    s = t.seps[i - 1]
                    out += (" %s " % s) if s.isalpha() or self.p(0.5) else s
                out += self.value(P, f.t)
            return out
        raise AssertionError

    def object(self, o):
        P, t = o["pkg"], o["t"]
        lines = []
        cs = [c for c in t.all if c.n not in t.fro]
        if self.p(0.3):
            self.r.shuffle(cs)
        for c in cs:
            if c.opt and self.p("null"):
                continue
            v = self.value(P, c.t)
            if v == "nothing" and c.opt:
                continue
            if "nothing" in v and c.t.k == "arr" and c.t.lo == 0:
                v = "[]"
            lines.append("  %s = %s" % (c.n, v))
        return "%s %s {\n%s\n}" % (self.qual(P, t), o["name"], "\n".join(lines))

    # --------------------------------------------------------------- checks
    def check_block(self, P):
        ts = [t for t in P["types"] if t.k == "rec" and t.all or t.k == "tup"]
        if not ts:
            return
        t = self.pick(ts)
        rows = []
        for _ in range(self.r.randint(1, 4)):
            rows += self.check(P, t)
        P["rsl"].append("checks %s {\n%s\n}" % (t.n, "\n".join("  " + r for r in rows)))

    def tail(self, t):
        self.count = getattr(self, "count", 0) + 1
        x = self.r.random()
        sev = "warning " if x < self.kn["warn"] else "fatal " if x < self.kn["warn"] + self.kn["fatal"] else \
            self.pick(["", "error "])
        s = ', %s"m%d"' % (sev, self.count)
        comps = t.all if t.k == "rec" else t.comps
        if self.p(0.15):
            s += ', "more %d"' % self.count
        if comps and self.p("anchor"):
            s += ", " + self.pick(comps).n
        return s

    def check(self, P, t):
        comps = t.all if t.k == "rec" else t.comps
        scope = [(c.n, c.t, c.opt and c.n not in (t.fro if t.k == "rec" else {})) for c in comps]
        ctx = dict(P=P, t=t, scope=scope, used=[], qv=set())
        if self.kn["probes"]:
            return self.probes(ctx, t)
        e = self.expr(BOOL, self.kn["depth"], ctx)
        e = self.guarded(e, ctx)
        return [e + self.tail(t)]

    def guarded(self, e, ctx):
        nulls = sorted(set(n for n, o in ctx["used"] if o))
        if nulls and self.p("guard"):
            if self.p(0.8):
                return " and ".join("%s != null" % n for n in nulls) + \
                    " implies (%s)" % e if len(nulls) == 1 else \
                    "(%s) implies (%s)" % (" and ".join("%s != null" % n for n in nulls), e)
            return "%s == null or (%s)" % (nulls[0], e)
        return e

    def probes(self, ctx, t):
        """Several checks that reveal the value of one expression."""
        k = self.pick([INT, INT, DEC, STR, BOOL])
        e = self.expr(k, self.kn["depth"], ctx)
        if k is INT:
            tests = ["(%s) %% 7 == %d" % (e, self.r.randrange(7)), "(%s) %% 5 == %d" % (e, self.r.randrange(5)),
                     "(%s) > %d" % (e, self.r.randint(-20, 20)), "(%s) in -3 .. 3" % e,
                     "(%s) < 0" % e, "(%s) == %s" % (e, self.intlit()), "(%s) %% 2 == 0" % e]
        elif k is DEC:
            tests = ["(%s) > %s" % (e, self.declit()), "(%s) < 0.0" % e,
                     "Integer(%s) %% 5 == %d" % (e, self.r.randrange(5)),
                     "Decimal(Integer(%s)) == (%s)" % (e, e), "(%s) in -1.5 .. 1.5" % e,
                     "Integer((%s) * 10.0) %% 7 == %d" % (e, self.r.randrange(7))]
        elif k is STR:
            tests = ["len(%s) %% 5 == %d" % (e, self.r.randrange(5)), "\"a\" in (%s)" % e,
                     "startswith(%s, \"a\")" % e, "endswith(%s, \"a\")" % e, "(%s) == \"ab\"" % e]
        else:
            tests = [e, "not (%s)" % e]
        return [self.guarded(x, ctx) + self.tail(t) for x in self.r.sample(tests, min(3, len(tests)))]

    def names(self, ctx, want):
        """Expressions that are names of the wanted type."""
        res = []
        for n, t, opt in ctx["scope"]:
            self.reach(ctx, n, t, [(n, opt)], want, res, 0)
        return res

    def reach(self, ctx, txt, t, used, want, res, depth):
        if want(t):
            res.append((txt, t, used))
        if depth > 2:
            return
        if t.k == "tup":
            for f in t.comps:
                self.reach(ctx, txt + "." + f.n, f.t, used + [(txt + "." + f.n, f.opt)], want, res, depth + 1)
        elif t.k == "rec":
            for f in t.all:
                self.reach(ctx, txt + "." + f.n, f.t,
                           used + [(txt + "." + f.n, f.opt and f.n not in t.fro)], want, res, depth + 1)
        elif t.k == "uni":
            for m in t.ts:
                for f in m.all:
                    if all(any(g is f for g in o.all) for o in t.ts) or self.p(0.2):
                        self.reach(ctx, txt + "." + f.n, f.t, used + [(txt + "." + f.n, f.opt)],
                                   want, res, depth + 1)
        elif t.k == "arr" and depth < 2:
            i = self.r.randint(0, max(0, t.lo))
            self.reach(ctx, "%s[%d]" % (txt, i), t.el, used, want, res, depth + 2)

    def same(self, t):
        def f(x):
            return x is t or (t is STR and x is MUP)
        return f

    def use(self, ctx, c):
        ctx["used"] += [u for u in c[2] if u[0].split(".")[0] not in ctx["qv"]]
        return c[0]

    def leaf(self, t, ctx):
        cs = self.names(ctx, self.same(t))
        if cs and self.p(0.7):
            return self.use(ctx, self.pick(cs))
        if t is INT:
            return self.intlit()
        if t is DEC:
            return self.declit()
        if t is BOOL:
            return self.pick(["true", "false"])
        if t is STR or t is MUP:
            return self.strlit(plain=True)
        if t.k == "enum":
            return self.qual(ctx["P"], t) + "." + self.pick(t.lits)
        if cs:
            return self.use(ctx, self.pick(cs))
        return "null"

    def expr(self, t, d, ctx):
        if self.p(self.kn["wrong"]):
            t = self.pick([INT, DEC, BOOL, STR])
        if d <= 0 or (t is not BOOL and self.p(0.2)):
            if t is BOOL and self.p(0.6):
                d = 1
            else:
                return self.leaf(t, ctx)
        E = lambda u: self.expr(u, d - 1, ctx)
        S = lambda u: "(%s)" % E(u) if self.p(0.8) else E(u)
        opts = []
        if t is BOOL:
            opts = ["cmp", "cmp", "cmp", "eq", "eq", "eqnull", "in", "substr", "and", "or", "xor", "implies", "not",
                    "quan", "quan", "oneof", "starts", "matches", "member", "member", "if", "eqany", "chain"]
        elif t is INT:
            opts = ["add", "sub", "mul", "div", "rem", "pow", "neg", "abs", "len", "alen", "toint", "if", "paren"]
        elif t is DEC:
            opts = ["add", "sub", "mul", "div", "pow", "neg", "abs", "todec", "if", "paren"]
        elif t is STR:
            opts = ["cat", "cat", "if", "leaf"]
        else:
            return self.leaf(t, ctx)
        o = self.pick(opts)
        num = self.pick([INT, INT, DEC])
        if o == "cmp":
            return "%s %s %s" % (E(num), self.pick(["<", "<=", ">", ">=", "==", "!="]), E(num))
        if o == "eq":
            u = self.pick([INT, DEC, BOOL, STR])
            return "%s %s %s" % (S(u), self.pick(["==", "!="]), S(u))
        if o == "eqany":
            cs = self.names(ctx, lambda x: x.k in ("tup", "rec", "uni", "enum", "arr"))
            if not cs:
                return self.leaf(BOOL, ctx)
            c = self.pick(cs)
            ds = self.names(ctx, lambda x: x is c[1])
            rhs = self.pick(ds or [c])[0] if self.p(0.8) or c[1].k != "enum" else self.leaf(c[1], ctx)
            return "%s %s %s" % (self.use(ctx, c), self.pick(["==", "!="]), rhs)
        if o == "eqnull":
            cs = self.names(ctx, lambda x: True)
            if not cs:
                return "true"
            c = self.pick(cs)
            for u in c[2][:-1]:
                ctx["used"].append(u)
            return "%s %s null" % (c[0], self.pick(["==", "!="])) if self.p(0.9) else "null == " + c[0]
        if o == "in":
            return "%s %sin %s .. %s" % (E(num) if self.p(0.5) else self.leaf(num, ctx),
                                         "not " if self.p(0.2) else "", E(num), E(num))
        if o == "substr":
            return "%s %sin %s" % (E(STR), "not " if self.p(0.2) else "", S(STR))
        if o == "chain":
            op = self.pick(["and", "or"])
            return (" %s " % op).join("(%s)" % E(BOOL) for _ in range(3))
        if o in ("and", "or", "xor", "implies"):
            return "(%s) %s (%s)" % (E(BOOL), o, E(BOOL))
        if o == "not":
            return "not (%s)" % E(BOOL)
        if o == "quan":
            arrs = [(n, u) for n, u, opt in ctx["scope"] if u.k == "arr"]
            if not arrs:
                return self.leaf(BOOL, ctx)
            n, u = self.pick(arrs)
            opt = [x[2] for x in ctx["scope"] if x[0] == n][0]
            used = set(x[0].lower().replace("_", "") for x in ctx["scope"]) | set(ctx["P"]["used"]) | \
                set(q["name"].lower().replace("_", "") for q in self.pk)
            v = self.fresh(used)
            ctx["used"].append((n, opt))
            inner = dict(ctx, scope=ctx["scope"] + [(v, u.el, False)] * 2, qv=ctx["qv"] | {v})
            return "(%s %s in %s => %s)" % (self.pick(["forall", "exists"]), v, n,
                                            self.expr(BOOL, d - 1, inner))
        if o == "oneof":
            return "oneof(%s)" % ", ".join(E(BOOL) for _ in range(self.r.randint(1, 4)))
        if o == "starts":
            return "%s(%s, %s)" % (self.pick(["startswith", "endswith"]), E(STR), E(STR))
        if o == "matches":
            return 'matches(%s, "%s")' % (E(STR), self.pick(
                ["^a", "b$", "^[a-c]+$", "a|b", "o{2}", "^(foo|ba*r)$", ".", "^$", "\\\\d", "[^a]", "x?y*",
                 "^\\\\w+ \\\\w+$", "(a", "[a", "*a"] if self.p("weird") else
                ["^a", "b$", "^[a-c]+$", "a|b", "^(foo|ba*r)$", "fo+", "^[^a]*$"]))
        if o == "member":
            arrs = self.names(ctx, lambda x: x.k == "arr")
            if not arrs:
                return self.leaf(BOOL, ctx)
            c = self.pick(arrs)
            el = c[1].el
            lhs = self.leaf(el, ctx) if el.k != "uni" else self.leaf(self.pick(el.ts), ctx)
            return "%s %sin %s" % (lhs, "not " if self.p(0.2) else "", self.use(ctx, c))
        if o == "if":
            s = "(if %s then %s" % (E(BOOL), E(t))
            while self.p(0.3):
                s += " elsif %s then %s" % (E(BOOL), E(t))
            return s + " else %s)" % E(t)
        if o in ("add", "sub", "mul"):
            op = {"add": "+", "sub": "-", "mul": "*"}[o]
            s = "%s %s %s" % (S(t), op, S(t))
            if self.p(0.2):
                s += " %s %s" % (self.pick("+-*"), S(t))
            return s
        if o == "div":
            return "%s / %s" % (S(t), S(t) if self.p(0.5) else
                                (self.pick(["1", "2", "3", "7"]) if t is INT else self.pick(["0.5", "2.0", "3.0"])))
        if o == "rem":
            return "%s %% %s" % (S(INT), S(INT) if self.p(0.4) else self.pick(["2", "3", "5", "(-3)"]))
        if o == "pow":
            return "(%s) ** %s" % (E(t), self.pick(["0", "1", "2", "3", "(1 + 1)", "(-1)"] if self.p("weird")
                                                   else ["0", "1", "2", "3"]))
        if o == "neg":
            return "(%s%s)" % (self.pick("-+"), S(t))
        if o == "abs":
            return "abs (%s)" % E(t)
        if o == "len":
            return "len(%s)" % E(STR)
        if o == "alen":
            arrs = self.names(ctx, lambda x: x.k == "arr")
            if not arrs:
                return self.leaf(INT, ctx)
            return "len(%s)" % self.use(ctx, self.pick(arrs))
        if o == "toint":
            return "Integer(%s)" % E(num)
        if o == "todec":
            return "Decimal(%s)" % E(num)
        if o == "cat":
            return "%s + %s" % (E(STR), S(STR))
        return "(%s)" % E(t) if o == "paren" else self.leaf(t, ctx)


TOKEN = re.compile(r'"""[\s\S]*?"""|\'\'\'[\s\S]*?\'\'\'|"(?:\\"|[^"\n])*"|//[^\n]*|/\*[\s\S]*?\*/|'
                   r'[A-Za-z]\w*|\d[\w]*(?:\.\d\w*)?|==|!=|<=|>=|=>|\.\.|\*\*|\s+|.')


def tokens(text):
    return TOKEN.findall(text)


EXTRA = KEYWORDS + ["=", "=>", "==", "!=", "<=", ">=", "<", ">", "+", "-", "*", "/", "%", "**", "..", ".", ",",
                    "(", ")", "[", "]", "{", "}", "@", ":", ";", "0", "1", "2.5", '"s"', "null", "true",
                    "Integer", "Decimal", "String", "Boolean", "Markup_String", "len", "x", "0x1F", "0b10",
                    '"""t"""', "oneof", "matches", "startswith", "1_0", "-1"]


def mutate(rng, text, n=1):
    """Break a text at the level of tokens."""
    toks = tokens(text)
    for _ in range(n):
        idx = [i for i, t in enumerate(toks) if t.strip() and not t.startswith(("//", "/*"))]
        if not idx:
            break
        i = rng.choice(idx)
        k = rng.randrange(10)
        if k == 0:
            toks[i] = ""
        elif k == 1:
            toks.insert(i, toks[i] + " ")
        elif k == 2:
            j = rng.choice(idx)
            toks[i], toks[j] = toks[j], toks[i]
        elif k in (3, 4):
            toks[i] = " %s " % rng.choice(EXTRA)
        elif k == 5:
            toks.insert(i, " %s " % rng.choice(EXTRA))
        elif k in (6, 7):
            same = [j for j in idx if (toks[j][0].isalpha()) == (toks[i][0].isalpha())]
            toks[i] = toks[rng.choice(same or idx)]
        elif k == 8:
            t = toks[i]
            if t[0].isalpha():
                toks[i] = rng.choice([t.swapcase(), t + "_", t.replace("_", "") + "x", t[:-1] or t, t.capitalize()])
            elif t[0].isdigit():
                toks[i] = rng.choice([t + ".5", t + "0", "-" + t, "0", '"%s"' % t])
            elif t[0] == '"':
                toks[i] = rng.choice([t.strip('"'), "1", t + t, t[:-1]])
        else:
            j = min(len(toks), i + rng.randint(1, 6))
            del toks[i:j]
        toks = [t for t in toks if t]
    return "".join(toks)


def mutate_char(rng, text, n=1):
    """Break a text at the level of characters."""
    t = list(text)
    for _ in range(n):
        if not t:
            break
        i = rng.randrange(len(t))
        k = rng.randrange(5)
        if k == 0:
            del t[i]
        elif k == 1:
            t.insert(i, rng.choice("\"'\\/*[]{}().,=!<>@:;_ \n\t\r0x1b9aZ#$~\u00e9\u2028"))
        elif k == 2:
            t[i] = rng.choice("\"'\\/*[]{}().,=!<>@:;_ \n\t0x1b9aZ#$^|\u00df\x0b")
        elif k == 3:
            del t[i:i + rng.randint(1, 10)]
        else:
            del t[i:]
    return "".join(t)


def variants(name):
    """Spellings close to a name."""
    res = [name.lower(), name.upper(), name.capitalize(), name.replace("_", ""), name + "_", name + "x",
           name[:1] + "_" + name[1:], name[:-1]]
    return [v for v in res if v and v != name and v[0].isalpha()]


def respell(rng, files):
    """Spell one identifier differently, or like another one."""
    files = [list(f) for f in files]
    k = rng.randrange(len(files))
    toks = tokens(files[k][1])
    idx = [i for i, t in enumerate(toks) if t[0].isalpha() and t not in KEYWORDS]
    if idx:
        i = rng.choice(idx)
        if rng.random() < 0.5:
            toks[i] = rng.choice(variants(toks[i]) or [toks[i]])
        else:
            other = rng.choice(files)[1]
            names = [t for t in tokens(other) if t[0].isalpha() and t not in KEYWORDS]
            toks[i] = rng.choice(names)
        files[k][1] = "".join(toks)
    return files
