---------------------------------- MODULE Trlc --------------------------------
(* Processing a set of files, from registration to the final result.          *)
(*                                                                            *)
(* A case is [id, lint, rec, trlc, any, files]: a number, the options (lint mode,  *)
(* error recovery, whether .trlc files are of interest) and the files in the  *)
(* order of their names, each [kind "rsl" or "trlc", prim, text].  Files that *)
(* are not primary are only used as far as the primary ones need them.  With  *)
(* any set, files are read in every order possible, else in that of names.    *)
(*                                                                            *)
(* One action reads one declaration, checks one object, and so on.            *)
EXTENDS Parse, Json

CONSTANT Cases                       \* sequence of cases
VARIABLES cs,                        \* the case
          ph,                        \* phase
          job,                       \* work left in the phase
          cur,                       \* file being read, 0 if none
          cu,                        \* what is known of each file
          S,                         \* language state, see Lang
          ok,                        \* nothing went wrong so far
          path                       \* number and choices of the steps so far
vars == <<cs, ph, job, cur, cu, S, ok, path>>
View == <<cs.id, path>>

Case == cs
FileTabs == 1..Len(Case.files)
OfKind(k) == SelectSeq([f \in 1..Len(Case.files) |-> f],
                       LAMBDA f : Case.files[f].kind = k /\ cu[f].reg)

Init ==
  /\ cs = [id |-> 0] /\ ph = "load" /\ job = <<>> /\ cur = 0 /\ ok = TRUE
  /\ path = <<0>> /\ cu = <<>> /\ S = 0
\* Choose a case
Load ==
  /\ ph = "load"
  /\ \E c \in ToSet(Cases) :
       /\ cs' = c /\ ph' = "register" /\ job' = [f \in 1..Len(c.files) |-> f]
       /\ cu' = [f \in 1..Len(c.files) |->
                   [tk |-> <<>>, p |-> 1, pk |-> 0, raw |-> <<>>, vis |-> {},
                    reg |-> FALSE, bad |-> FALSE, req |-> c.files[f].prim, done |-> FALSE, read |-> FALSE]]
       /\ S' = Start(c.lint, c.rec)
  /\ UNCHANGED <<cur, ok, path>>

Step(c) == path' = IF c = 0 THEN [path EXCEPT ![1] = @ + 1] ELSE Append([path EXCEPT ![1] = @ + 1], c)
Goto(p, j) == ph' = p /\ job' = j
\* Load what is known of file f into the language state
Open(s, f) == [s EXCEPT !.f = f, !.tk = cu[f].tk, !.p = cu[f].p, !.pk = cu[f].pk,
                        !.vis = cu[f].vis, !.secs = <<>>, !.err = FALSE, !.blk = @ + 1]
Clear(s) == [s EXCEPT !.err = FALSE]

(* --------------------------------------------------------------- registration *)
(* The first token is looked at when a file is registered.                    *)
Registered(s, f, tk) ==
  IF tk = <<>> THEN s
  ELSE IF tk[1].k # "ERR" THEN s
  ELSE LET loc == [f |-> f, l |-> tk[1].l, c |-> tk[1].c]
       IN IF Case.files[f].prim THEN Err(s, loc) ELSE Note(s, loc)
Register1 ==
  /\ ph = "register" /\ job # <<>>
  /\ LET f == job[1]
         skip == Case.files[f].kind = "trlc" /\ ~Case.trlc
         tk == IF skip THEN <<>>
               ELSE IF Undecodable(Case.files[f].text) THEN NoText
               ELSE LexText(FileText(Case.files[f].text))
         t == Registered([S EXCEPT !.blk = @ + 1], f, tk)
         good == tk = <<>> \/ tk[1].k # "ERR"
     IN /\ S' = Clear(t)
        /\ ok' = (ok /\ ~t.err)
        /\ cu' = IF skip THEN cu ELSE [cu EXCEPT ![f].tk = tk, ![f].reg = good]
  /\ Goto("register", Tail(job)) /\ Step(0)
  /\ UNCHANGED <<cs, cur>>
RegisterEnd ==
  /\ ph = "register" /\ job = <<>>
  /\ IF ok THEN Goto("rslpre", OfKind("rsl")) ELSE Goto("refused", <<>>)
  /\ Step(0) /\ UNCHANGED <<cs, cur, cu, S, ok>>

(* ------------------------------------------------------------------ preambles *)
\* rv: sequence of the tokens naming imports
Imports(s) ==
  While(Ret(s, <<>>), LAMBDA x :
    IF ~PeekKw(x, "import") THEN Stop(x)
    ELSE LET old == x.rv
         IN Bind(MatchKw(x, "import"), LAMBDA y :
            Bind(Match(y, "IDENTIFIER"), LAMBDA z :
              IF Ct(z).v = Ent(z, z.pk).n THEN Err(z, CtLoc(z))
              ELSE IF \E i \in 1..Len(old) : old[i].v = Ct(z).v
              THEN Ret(Warn(z, CtLoc(z)), old)
              ELSE Ret(z, Append(old, Ct(z))))))
NewPackage(s, late) ==
  LET t == NewTab(s, 0, GlobalTab)
      e == AddEnt(t, NewName("pkg", t, Ct(s), [tab |-> t.rv, late |-> late]))
      id == e.rv
  IN Bind(Register(e, GlobalTab, id), LAMBDA x : Ret(x, id))
Preamble(s, kind) ==
  Bind(MatchKw(s, "package"), LAMBDA a :
  Bind(Match(a, "IDENTIFIER"), LAMBDA b :
  Bind(IF kind = "rsl" \/ ~HasName(b, GlobalTab, Ct(b)) THEN NewPackage(b, kind = "trlc")
       ELSE Lookup(b, GlobalTab, Ct(b), IsPkg), LAMBDA c :
    Imports([c EXCEPT !.pk = c.rv]))))

Preamble1(phase, kind) ==
  /\ ph = phase /\ job # <<>>
  /\ LET f == job[1]
         t == Preamble(Open(S, f), kind)
     IN /\ S' = [Clear(t) EXCEPT !.brk = FALSE]
        /\ ok' = (ok /\ ~t.err)
        /\ cu' = [cu EXCEPT ![f].p = t.p, ![f].pk = t.pk, ![f].bad = t.err,
                            ![f].raw = IF t.err THEN <<>> ELSE t.rv]
  /\ Goto(phase, Tail(job)) /\ Step(0)
  /\ UNCHANGED <<cs, cur>>

\* An import of an unknown package is reported; the file is read without it
ImportsOf(s, f) ==
  FoldLeft(LAMBDA x, t : LET y == Lookup(x, GlobalTab, t, IsPkg)
                         IN IF y.err THEN Note(x, TLoc(x, t))
                            ELSE [y EXCEPT !.vis = @ \cup {y.rv}],
           [Open(s, f) EXCEPT !.vis = {}], cu[f].raw)
Imports1(phase) ==
  /\ ph = phase /\ job # <<>>
  /\ LET f == job[1]
         t == ImportsOf(S, f)
     IN IF cu[f].bad THEN UNCHANGED <<S, cu>>
        ELSE S' = t /\ cu' = [cu EXCEPT ![f].vis = t.vis]
  /\ Goto(phase, Tail(job)) /\ Step(0)
  /\ UNCHANGED <<cs, cur, ok>>
PhaseEnd(phase, p, j) ==
  /\ ph = phase /\ job = <<>> /\ Goto(p, j) /\ Step(0)
  /\ UNCHANGED <<cs, cur, cu, S, ok>>

(* ------------------------------------------------------------ files in demand *)
Sound(f) == cu[f].reg /\ ~cu[f].bad
Serves(f, pk, kind) == Sound(f) /\ cu[f].pk = pk /\ Case.files[f].kind = kind
\* A .trlc file needs the types of its package; every file what it imports
Needs(f, g) ==
  \/ \E q \in cu[f].vis : Serves(g, q, Case.files[f].kind)
  \/ Case.files[f].kind = "trlc" /\ Serves(g, cu[f].pk, "rsl")
  \/ Case.files[f].kind = "trlc" /\ \E q \in cu[f].vis : Serves(g, q, "rsl")
  \/ Serves(g, cu[f].pk, Case.files[f].kind)
RECURSIVE Demand(_)
Demand(D) == LET E == D \cup {g \in FileTabs : \E f \in D : Needs(f, g)}
             IN IF E = D THEN D ELSE Demand(E)
\* A primary file with a faulty preamble still asks for its package
Asked == {f \in FileTabs : Case.files[f].prim /\ cu[f].reg /\ cu[f].pk # 0}
Closure ==
  /\ ph = "closure"
  /\ LET D == Demand(Asked)
     IN cu' = [f \in FileTabs |-> [cu[f] EXCEPT !.req = f \in D /\ Sound(f)]]
  /\ Goto("rsl", <<>>) /\ Step(0)
  /\ UNCHANGED <<cs, cur, S, ok>>

(* ---------------------------------------------------------- reading the files *)
Todo == {f \in FileTabs : Case.files[f].kind = "rsl" /\ cu[f].req /\ ~cu[f].done}
\* Packages that are imported come first
Ready == {f \in Todo : \A q \in cu[f].vis :
            \E g \in FileTabs : Serves(g, q, "rsl") /\ cu[g].done}
PickModel(f) ==
  /\ ph = "rsl" /\ cur = 0 /\ f \in Ready
  /\ Case.any \/ \A g \in Ready : f <= g
  /\ cur' = f /\ S' = Open(S, f)
  /\ Step(f) /\ UNCHANGED <<cs, ph, job, cu, ok>>
\* Of the packages importing each other the first is reported
FirstByName(F) == CHOOSE f \in F : \A g \in F :
                    CodesLE(Codes(Ent(S, cu[f].pk).n), Codes(Ent(S, cu[g].pk).n))
Cycle ==
  /\ ph = "rsl" /\ cur = 0 /\ Todo # {} /\ Ready = {}
  /\ S' = Clear(Err([S EXCEPT !.blk = @ + 1], [f |-> FirstByName(Todo), l |-> 0, c |-> 0]))
  /\ ok' = FALSE
  /\ Goto("rslend", <<>>) /\ Step(0)
  /\ UNCHANGED <<cs, cur, cu>>
RslDone ==
  /\ ph = "rsl" /\ cur = 0 /\ Todo = {}
  /\ Goto("rslend", <<>>) /\ Step(0)
  /\ UNCHANGED <<cs, cur, cu, S, ok>>

\* The end of a file, or of what is read of it
\* (well: it was read to its end)
CloseFile(well) == /\ cu' = [cu EXCEPT ![cur].done = TRUE, ![cur].p = S.p, ![cur].read = well]
                   /\ cur' = 0
\* Read one declaration t == Entry(S), and recover from errors in it
Declaration(t, Starts(_)) ==
  LET r == IF t.err /\ ~t.brk /\ S.rec /\ ~t.tot THEN Resync(t, Starts) ELSE t
  IN /\ S' = [Clear(r) EXCEPT !.brk = r.brk /\ S.rec, !.sick = @ \/ t.err]
     /\ ok' = (ok /\ ~t.err)
     /\ IF r.err THEN cu' = [cu EXCEPT ![cur].done = TRUE] /\ cur' = 0   \* nothing more is read
        ELSE UNCHANGED <<cu, cur>>
     /\ Step(0) /\ UNCHANGED <<cs, ph, job>>
Model ==
  /\ ph = "rsl" /\ cur # 0 /\ HasNt(S)
  /\ Declaration(RslEntry(S), RslStarts)
ModelEnd ==
  /\ ph = "rsl" /\ cur # 0 /\ ~HasNt(S)
  /\ CloseFile(TRUE) /\ Step(0) /\ UNCHANGED <<cs, ph, job, S, ok>>

Broken == S.brk \/ S.tot
RslEnd ==
  /\ ph = "rslend"
  /\ IF Broken \/ (~S.rec /\ ~ok) THEN Goto("none", <<>>)
     ELSE IF Case.lint /\ ok THEN Goto("lint0", <<>>)
     ELSE IF Case.trlc THEN Goto("trlc", SelectSeq(OfKind("trlc"), LAMBDA f : cu[f].req))
     ELSE Goto(IF ok THEN "stab" ELSE "none", <<>>)
  /\ S' = [S EXCEPT !.sick = FALSE]
  /\ Step(0) /\ UNCHANGED <<cs, cur, cu, ok>>

Objects ==
  /\ ph = "trlc" /\ job # <<>> /\ cur = 0
  /\ cur' = job[1] /\ S' = Open(S, job[1]) /\ Goto("trlc", Tail(job))
  /\ Step(0) /\ UNCHANGED <<cs, cu, ok>>
TrlcGoesOn(s) == PeekKw(s, "section") \/ Peek(s, "IDENTIFIER")
Object ==
  /\ ph = "trlc" /\ cur # 0 /\ TrlcGoesOn(S)
  /\ Declaration(TrlcEntry(S), TrlcStarts)
ObjectsEnd ==
  /\ ph = "trlc" /\ cur # 0 /\ ~TrlcGoesOn(S)
  /\ LET t == MatchEof(S)
     IN /\ S' = [Clear(t) EXCEPT !.sick = @ \/ t.err] /\ ok' = (ok /\ ~t.err)
        /\ CloseFile(~t.err)
  /\ Step(0) /\ UNCHANGED <<cs, ph, job>>

(* ----------------------------------------------------------------------- lint *)
Issue(s, loc, cat) == Say(s, Msg(s, loc, "issue", cat, <<>>))
Each(s, seq, F(_, _)) == FoldLeft(F, s, seq)
UnionIssues(s, t) ==
  LET n == Len(t.ts)
      s1 == IF n = 1 THEN Issue(s, t.l, "union_single_type") ELSE s
  IN Each(s1, [i \in 1..n |-> i], LAMBDA x, i :
       Each(x, [j \in 1..n |-> j], LAMBDA y, j :
         IF t.ts[i] # t.ts[j] /\ IsSub(y, t.ts[i], t.ts[j])
         THEN Issue(y, t.l, "union_redundant_subtype") ELSE y))
TypeIssues(s, t) ==
  CASE IsUni(t) -> UnionIssues(s, t)
    [] IsArr(t) ->
         LET Hi(k) == BEq(t.hi, FromInt(k))  Lo(k) == BEq(t.lo, FromInt(k))
             s1 == IF t.inf THEN s
                   ELSE IF Lt(t.hi, t.lo) \/ Hi(0) THEN Issue(s, t.lu, "impossible_array_types")
                   ELSE IF Hi(1) THEN Issue(s, t.lu, "weird_array_types")
                   ELSE s
         IN IF IsUni(t.el) THEN UnionIssues(s1, t.el) ELSE s1
    [] OTHER -> s
\* A separator b or x between an Integer and another component is ambiguous
SeparatorIssues(s, id) ==
  LET comps == OwnComps(s, id)
      sp == Ent(s, id).seps
  IN Each(s, [i \in 1..Len(sp) |-> i], LAMBDA x, i :
       IF IsInt(Ent(x, comps[i]).t) /\ sp[i].k = "IDENTIFIER" /\ sp[i].v \in {"x", "b"}
       THEN Issue(x, sp[i].l, "separator_based_literal_ambiguity") ELSE x)
\* An abstract type is of use if a chain of abstract types leads from a
\* concrete type to it
RECURSIVE Abstracts(_, _)
Abstracts(s, id) == IF id = 0 THEN {}
                    ELSE IF ~Ent(s, id).abs THEN {}
                    ELSE {id} \cup Abstracts(s, Ent(s, id).par)
Extended(s) == UNION {Abstracts(s, Ent(s, r).par) :
                 r \in {r \in 1..Len(s.ents) : Ent(s, r).k = "rec" /\ Ent(s, r).reg /\ ~Ent(s, r).abs}}

LintType(s0, id) ==
  LET s == [s0 EXCEPT !.blk = @ + 1]
      s1 == IF Ent(s, id).k = "tup" THEN SeparatorIssues(s, id) ELSE s
      s2 == Each(s1, OwnComps(s, id), LAMBDA x, c : TypeIssues(x, Ent(x, c).t))
  IN IF Ent(s, id).k = "rec" /\ Ent(s, id).abs /\ id \notin Extended(s)
     THEN Issue([s2 EXCEPT !.blk = @ + 1], Ent(s, id).l, "abstract_leaf_types")
     ELSE s2
\* All entities of some kinds in all packages
Declared(s, ks) == SelectSeq([i \in 1..Len(s.ents) |-> i],
                             LAMBDA i : s.ents[i].k \in ks /\ s.ents[i].reg)
LintStart ==
  /\ ph = "lint0" /\ Goto("lint", Declared(S, {"tup", "rec"}))
  /\ Step(0) /\ UNCHANGED <<cs, cur, cu, S, ok>>
Lint1 ==
  /\ ph = "lint" /\ job # <<>>
  /\ S' = LintType(S, job[1]) /\ Goto("lint", Tail(job)) /\ Step(0)
  /\ UNCHANGED <<cs, cur, cu, ok>>
LintEnd ==
  /\ ph = "lint" /\ job = <<>>
  /\ IF Case.trlc THEN Goto("trlc", SelectSeq(OfKind("trlc"), LAMBDA f : cu[f].req))
     ELSE Goto("stab", <<>>)
  /\ Step(0) /\ UNCHANGED <<cs, cur, cu, S, ok>>

(* ----------------------------------------------------------------- references *)
RECURSIVE ResolveIn(_, _)            \* all references in a value, in order
ResolveIn(s, e) ==
  IF s.err THEN s
  ELSE CASE e.k = "ref" -> Resolve(s, e)
         [] e.k = "arr" -> Each(s, e.es, ResolveIn)
         [] e.k = "lit" -> Each(s, e.refs, ResolveIn)
         [] e.k = "tup" -> Each(s, ByName(s, e.t.id), LAMBDA x, c : ResolveIn(x, e.fs[Ent(x, c).n]))
         [] OTHER -> s
ObjectsRead ==
  /\ ph = "trlc" /\ job = <<>> /\ cur = 0
  /\ IF Broken \/ S.sick THEN Goto("none", <<>>) ELSE Goto("resolve", Declared(S, {"obj"}))
  /\ Step(0) /\ UNCHANGED <<cs, cur, cu, S, ok>>
ResolveObj ==
  /\ ph = "resolve" /\ job # <<>>
  /\ LET o == Ent(S, job[1])
         t == Each([S EXCEPT !.blk = @ + 1], o.ord, LAMBDA x, n : ResolveIn(x, o.fld[n]))
     IN S' = Clear(t) /\ ok' = (ok /\ ~t.err)
  /\ Goto("resolve", Tail(job)) /\ Step(0)
  /\ UNCHANGED <<cs, cur, cu>>
ResolveEnd ==
  /\ ph = "resolve" /\ job = <<>>
  /\ IF ok THEN Goto("check", Declared(S, {"obj"})) ELSE Goto("none", <<>>)
  /\ Step(0) /\ UNCHANGED <<cs, cur, cu, S, ok>>

(* --------------------------------------------------------------------- checks *)
\* One check on a record or tuple with fields m; rv: nothing was wrong so far
Perform(s, chk, m, loc0) ==
  IF s.err THEN s
  ELSE LET r == Eval(s, chk.e, Context(m))
           loc == IF chk.anc = "" THEN loc0 ELSE m[chk.anc].l
           M(sv) == Say(s, [Msg(s, loc, sv, "", chk.tx) EXCEPT !.ex = chk.x])
       IN CASE r.st = "open" -> [s EXCEPT !.err = TRUE, !.tot = TRUE]
            [] r.st = "err" -> ErrSee(s, r.l, r.o)
            [] r.st = "ok" ->
                 CASE r.v.x.k = "null" -> ErrSee(s, loc, chk.l)
                   [] r.v.x.k # "null" /\ r.v.x.b -> s
                   [] OTHER -> CASE chk.sev = "warning" -> M("check warning")
                                 [] chk.sev = "error" -> Ret(M("check error"), FALSE)
                                 [] chk.sev = "fatal" -> [M("check error") EXCEPT !.err = TRUE, !.rv = FALSE]
RECURSIVE CheckValue(_, _)           \* the checks on the tuples in a value
CheckValue(s, e) ==
  IF s.err THEN s
  ELSE CASE e.k = "arr" -> Each(s, e.es, CheckValue)
         [] e.k = "tup" ->
              LET inner == Each(s, OwnComps(s, e.t.id), LAMBDA x, c : CheckValue(x, e.fs[Ent(x, c).n]))
              IN Each(inner, Ent(s, e.t.id).chks, LAMBDA x, chk : Perform(x, chk, e.fs, e.l))
         [] OTHER -> s
RECURSIVE ChecksOf(_, _)             \* inherited checks come first
ChecksOf(s, id) == IF id = 0 THEN <<>> ELSE ChecksOf(s, Ent(s, id).par) \o Ent(s, id).chks
CheckRecord(s, id) ==
  LET o == Ent(s, id)
      t == Each(Ret([s EXCEPT !.blk = @ + 1], TRUE), o.ord, LAMBDA x, n : CheckValue(x, o.fld[n]))
  IN Each(t, ChecksOf(s, o.t.id), LAMBDA x, chk : Perform(x, chk, o.fld, o.l))
CheckObj ==
  /\ ph = "check" /\ job # <<>>
  /\ LET t == CheckRecord(S, job[1])
     IN S' = Clear(t) /\ ok' = (ok /\ ~t.err /\ t.rv)
  /\ Goto("check", Tail(job)) /\ Step(0)
  /\ UNCHANGED <<cs, cur, cu>>
CheckEnd ==
  /\ ph = "check" /\ job = <<>>
  /\ IF ~ok \/ S.tot THEN Goto("none", <<>>)
     ELSE IF Case.lint THEN Goto("imports", OfKind("rsl") \o OfKind("trlc")) ELSE Goto("stab", <<>>)
  /\ Step(0) /\ UNCHANGED <<cs, cur, cu, S, ok>>

(* -------------------------------------------------------------------- imports *)
\* Is package pkg mentioned in a markup string of file f ?
RECURSIVE RefsIn(_, _)
RefsIn(s, e) == CASE e.k = "lit" -> {<<e.l.f, e.refs[i].pkg>> : i \in 1..Len(e.refs)}
                  [] e.k = "arr" -> UNION {RefsIn(s, e.es[i]) : i \in 1..Len(e.es)}
                  [] e.k = "tup" -> UNION {RefsIn(s, e.fs[n]) : n \in DOMAIN e.fs}
                  [] OTHER -> {}
MarkupUses(s) ==
  UNION {UNION {RefsIn(s, Ent(s, o).fld[n]) : n \in DOMAIN Ent(s, o).fld}
         : o \in {o \in 1..Len(s.ents) : Ent(s, o).k = "obj" /\ Ent(s, o).reg}}
  \cup UNION {UNION {RefsIn(s, Ent(s, r).fro[n]) : n \in DOMAIN Ent(s, r).fro}
         : r \in {r \in 1..Len(s.ents) : Ent(s, r).k = "rec" /\ Ent(s, r).reg}}
UnusedImports(s, f) ==
  Each([s EXCEPT !.f = f], cu[f].raw, LAMBDA x, t :
    LET pkg == Find(x, GlobalTab, t.s)
        uses == {i \in 1..Len(cu[f].tk) : cu[f].tk[i].k = "IDENTIFIER" /\ cu[f].tk[i].v = t.v}
    IN IF pkg \in cu[f].vis /\ Cardinality(uses) = 1 /\ <<f, pkg>> \notin MarkupUses(x)
       THEN Issue([x EXCEPT !.blk = @ + 1], TLoc(x, t), "unused_imports") ELSE x)
ImportsLint ==
  /\ ph = "imports" /\ job # <<>>
  /\ S' = IF cu[job[1]].req THEN UnusedImports(S, job[1]) ELSE S
  /\ Goto("imports", Tail(job)) /\ Step(0)
  /\ UNCHANGED <<cs, cur, cu, ok>>

(* ------------------------------------------------------------------- together *)
Next ==
  \/ Load
  \/ Register1 \/ RegisterEnd
  \/ Preamble1("rslpre", "rsl") \/ PhaseEnd("rslpre", "rslimp", OfKind("rsl"))
  \/ Imports1("rslimp") \/ PhaseEnd("rslimp", "trlcpre", OfKind("trlc"))
  \/ Preamble1("trlcpre", "trlc") \/ PhaseEnd("trlcpre", "trlcimp", OfKind("trlc"))
  \/ Imports1("trlcimp") \/ PhaseEnd("trlcimp", "closure", <<>>)
  \/ Closure
  \/ (ph = "rsl" /\ \E f \in Ready : PickModel(f)) \/ Cycle \/ RslDone \/ Model \/ ModelEnd \/ RslEnd
  \/ LintStart \/ Lint1 \/ LintEnd
  \/ Objects \/ Object \/ ObjectsEnd \/ ObjectsRead
  \/ ResolveObj \/ ResolveEnd
  \/ CheckObj \/ CheckEnd
  \/ ImportsLint \/ PhaseEnd("imports", "stab", <<>>)

Final == ph \in {"refused", "none", "stab"}
=============================================================================
