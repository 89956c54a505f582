---------------------------------- MODULE Cli ---------------------------------
(* The command line tool: which files the arguments select, what is shown,    *)
(* what the summary says and with which status the tool ends.  What happens   *)
(* to the selected files in between is the business of Trlc.                  *)
(*                                                                            *)
(* An invocation is [id, lint, rec, trlc, nuw, eow, list, bazel, items, incs, *)
(* dirs, tree]: options, the DIR|FILE arguments and include directories as    *)
(* written, all directories and all files [path, text] below the current      *)
(* directory.  Paths are sequences of characters.                             *)
EXTENDS TrlcRun

Slash == 47   Dot == 46
DotRsl == Codes(".rsl")   DotTrlc == Codes(".trlc")
Ends(p, e) == Len(p) >= Len(e) /\ SubSeq(p, Len(p) - Len(e) + 1, Len(p)) = e

(* ---------------------------------------------------------------------- paths *)
\* The parts of a path, without empty ones and those that stay in place
RECURSIVE Parts(_, _)
Parts(p, acc) ==
  LET Keep == IF acc \in {<<>>, <<Dot>>} THEN <<>> ELSE <<acc>>
  IN IF p = <<>> THEN Keep
     ELSE IF p[1] = Slash THEN Keep \o Parts(Tail(p), <<>>)
     ELSE Parts(Tail(p), Append(acc, p[1]))
Place(p) == Parts(p, <<>>)
RECURSIVE Joined(_)
Joined(ps) == IF ps = <<>> THEN <<>>
              ELSE IF Len(ps) = 1 THEN ps[1]
              ELSE ps[1] \o <<Slash>> \o Joined(Tail(ps))
\* The name a file found below a directory goes by
Below(dir, rest) == dir \o (IF Ends(dir, <<Slash>>) THEN <<>> ELSE <<Slash>>) \o Joined(rest)

Inv == cs
Tree == 1..Len(Inv.tree)
IsFile(p) == p # <<>> /\ \E g \in Tree : Place(Inv.tree[g].path) = Place(p)
FileAt(p) == CHOOSE g \in Tree : Place(Inv.tree[g].path) = Place(p)
IsDir(p)  == \/ Place(p) = <<>>
             \/ \E d \in 1..Len(Inv.dirs) : Place(Inv.dirs[d]) = Place(p)

\* What bazel leaves behind is not entered unless asked for
Bazel == Codes("bazel-")
Passed(ps) == Inv.bazel \/ \A i \in 1..Len(ps) : SubSeq(ps[i], 1, IF Len(ps[i]) < 6 THEN Len(ps[i]) ELSE 6) # Bazel
\* A name has an extension if there is something before it but dots
Stem(n, e) == SubSeq(n, 1, Len(n) - Len(e))
Named(n) == \E e \in {DotRsl, DotTrlc} : Ends(n, e) /\ \E i \in 1..Len(Stem(n, e)) : Stem(n, e)[i] # Dot
Found(dir) ==
  LET d == Place(dir)
      Rest(g) == SubSeq(Place(Inv.tree[g].path), Len(d) + 1, Len(Place(Inv.tree[g].path)))
      Inside(g) == LET p == Place(Inv.tree[g].path)
                   IN Len(p) > Len(d) /\ SubSeq(p, 1, Len(d)) = d
  IN {[n |-> Below(dir, Rest(g)), g |-> g] :
        g \in {g \in Tree : Inside(g) /\ Named(Rest(g)[Len(Rest(g))])
                                      /\ Passed(SubSeq(Rest(g), 1, Len(Rest(g)) - 1))}}

(* ------------------------------------------------------------------- actions *)
CONSTANT Invocations
CliInit ==
  /\ cs = [id |-> 0] /\ ph = "choose" /\ job = <<>> /\ cur = 0 /\ ok = TRUE
  /\ path = <<0>> /\ cu = <<>> /\ S = 0
Choose ==
  /\ ph = "choose"
  /\ \E v \in ToSet(Invocations) :
       cs' = v @@ [sel |-> {}, opt |-> {}, any |-> FALSE, files |-> <<>>, extra |-> <<>>]
  /\ Goto("args", <<>>)
  /\ UNCHANGED <<cur, cu, S, ok, path>>
Args ==
  /\ ph = "args"
  /\ IF (\A i \in 1..Len(Inv.incs) : IsDir(Inv.incs[i]))
        /\ (\A i \in 1..Len(Inv.items) : IsDir(Inv.items[i]) \/ IsFile(Inv.items[i]))
     THEN Goto("include", Inv.incs)
     ELSE Goto("usage", <<>>)
  /\ Step(0) /\ UNCHANGED <<cs, cur, cu, S, ok>>
\* A file found in several include directories goes by its last name
Include1 ==
  /\ ph = "include" /\ job # <<>>
  /\ LET new == Found(job[1])
     IN cs' = [cs EXCEPT !.opt = {x \in @ : \A y \in new : y.g # x.g} \cup new]
  /\ Goto("include", Tail(job)) /\ Step(0) /\ UNCHANGED <<cur, cu, S, ok>>
IncludeEnd ==
  /\ ph = "include" /\ job = <<>>
  /\ Goto("select", IF Inv.items = <<>> THEN <<<<Dot>>>> ELSE Inv.items)
  /\ Step(0) /\ UNCHANGED <<cs, cur, cu, S, ok>>
Select1 ==
  /\ ph = "select" /\ job # <<>>
  /\ IF IsDir(job[1]) THEN cs' = [cs EXCEPT !.sel = @ \cup Found(job[1])] /\ UNCHANGED ok
     ELSE IF Ends(job[1], DotRsl) \/ Ends(job[1], DotTrlc)
     THEN cs' = [cs EXCEPT !.sel = @ \cup {[n |-> job[1], g |-> FileAt(job[1])]}] /\ UNCHANGED ok
     ELSE cs' = [cs EXCEPT !.extra = Append(@, job[1])] /\ ok' = FALSE
  /\ Goto("select", Tail(job)) /\ Step(0) /\ UNCHANGED <<cur, cu, S>>
\* Included files that are selected anyway are not included a second time.
\* Requirement files are of no interest if they are to be skipped.
Files ==
  LET U == {x @@ [prim |-> TRUE] : x \in Inv.sel}
           \cup {x @@ [prim |-> FALSE] : x \in {x \in Inv.opt : \A y \in Inv.sel : y.g # x.g}}
      W == {x \in U : Inv.trlc \/ ~Ends(x.n, DotTrlc)}
      T == SetToSortSeq(W, LAMBDA a, b : CodesLE(a.n, b.n))
  IN [i \in 1..Len(T) |-> [kind |-> IF Ends(T[i].n, DotRsl) THEN "rsl" ELSE "trlc",
                            prim |-> T[i].prim, text |-> Inv.tree[T[i].g].text, name |-> T[i].n]]
SelectEnd ==
  /\ ph = "select" /\ job = <<>>
  /\ LET F == Files
     IN /\ cs' = [cs EXCEPT !.files = F]
        /\ cu' = [f \in 1..Len(F) |->
                   [tk |-> <<>>, p |-> 1, pk |-> 0, raw |-> <<>>, vis |-> {},
                    reg |-> FALSE, bad |-> FALSE, req |-> F[f].prim, done |-> FALSE, read |-> FALSE]]
        /\ Goto("register", [f \in 1..Len(F) |-> f])
  /\ S' = Start(Inv.lint, Inv.rec)
  /\ Step(0) /\ UNCHANGED <<cur, ok>>

(* -------------------------------------------------------------------- results *)
NumOf(k) == Cardinality({i \in 1..Len(S.msgs) : S.msgs[i].sv \in k})
Errors == NumOf({"error", "check error"}) + Len(Inv.extra)
Warnings == NumOf({"warning", "check warning", "issue"})
Hidden == IF Inv.nuw THEN NumOf({"check warning"}) ELSE 0
OfK(k, need) == Cardinality({f \in FileTabs : Case.files[f].kind = k /\ cu[f].reg /\ (need => cu[f].req \/ Case.files[f].prim)})

Count(n, m, what) ==
  ToString(n) \o (IF n < m THEN " (of " \o ToString(m) \o ")" ELSE "") \o " " \o what
  \o (IF m = 1 THEN "" ELSE "s")
Summary ==
  "Processed " \o Count(OfK("rsl", TRUE), OfK("rsl", FALSE), "model")
  \o (IF Inv.trlc THEN " and " \o Count(OfK("trlc", TRUE), OfK("trlc", FALSE), "requirement file") ELSE "")
  \o " and found"
  \o (IF Warnings > 0 THEN " " \o Count(Warnings, Warnings, "warning") ELSE "")
  \o (IF Warnings > 0 /\ Errors > 0 THEN " and" ELSE "")
  \o (IF Errors > 0 THEN " " \o Count(Errors, Errors, "error") ELSE "")
  \o (IF Warnings + Errors = 0 THEN " no issues" ELSE "")
  \o (IF Hidden > 0 THEN " with " \o ToString(Hidden) \o " supressed messages" ELSE "")
Clean == ph = "stab" /\ Errors = 0
Exit == IF ph = "usage" THEN 2
        ELSE IF ~Clean \/ (Inv.eow /\ Warnings > 0) THEN 1 ELSE 0
FileList ==
  LET L(k, what) == [i \in 1..Len(OfKind(k)) |->
        LET f == OfKind(k)[i]
        IN [status |-> IF Case.files[f].prim THEN "[Primary] " ELSE IF cu[f].req THEN "[Included]" ELSE "[Excluded]",
            what |-> what, f |-> f, pkg |-> Ent(S, cu[f].pk).n]]
  IN IF Inv.list /\ Clean THEN L("rsl", "Model") \o L("trlc", "Requirements") ELSE <<>>

CliReport ==
  /\ ph \in {"usage", "refused", "none", "stab"}
  /\ PrintT(ToJson(
       IF ph = "usage"
       THEN [id |-> Inv.id, exit |-> Exit, res |-> ph, open |-> FALSE, brk |-> FALSE, names |-> <<>>,
             msgs |-> <<>>, extra |-> <<>>, summary |-> "", list |-> <<>>, objs |-> <<>>, errors |-> 0,
             path |-> path]
       ELSE [id |-> Inv.id, exit |-> Exit, res |-> ph, open |-> S.tot, brk |-> S.brk,
             names |-> [f \in FileTabs |-> Case.files[f].name],
             msgs |-> S.msgs, extra |-> Inv.extra, errors |-> Errors, path |-> path,
             summary |-> IF ph = "refused" THEN "" ELSE Summary, list |-> FileList,
             objs |-> IF ~Clean THEN <<>>
                      ELSE [i \in 1..Len(InOrder(S)) |-> DumpObj(S, InOrder(S)[i])]]))
  /\ ph' = "reported" /\ Step(0)
  /\ UNCHANGED <<cs, job, cur, cu, S, ok>>

CliNext == \/ Choose \/ Args \/ Include1 \/ IncludeEnd \/ Select1 \/ SelectEnd
           \/ Next \/ CliReport
CliSpec == CliInit /\ [][CliNext]_vars
FileInvocations == ndJsonDeserialize(IOEnv.TRLC_CASES)
NoCases == <<>>
=============================================================================
