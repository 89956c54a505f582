--------------------------------- MODULE TrlcRun ------------------------------
(* Runs the specification on the cases of a file and prints each outcome.     *)
EXTENDS Props, IOUtils

FileCases == ndJsonDeserialize(IOEnv.TRLC_CASES)

RECURSIVE DumpX(_, _), DumpT(_, _)
DumpX(s, x) ==
  CASE x.k = "e" -> [k |-> "e", e |-> Ent(s, x.e).n, t |-> Ent(s, Ent(s, x.e).t).n]
    [] x.k = "r" -> [k |-> "r", r |-> <<Ent(s, Ent(s, x.r).pkg).n, Ent(s, x.r).n>>]
    [] x.k = "a" -> [k |-> "a", a |-> [i \in 1..Len(x.a) |-> DumpX(s, x.a[i].x)]]
    [] x.k = "t" -> [k |-> "t", t |-> [n \in DOMAIN x.t |-> DumpX(s, x.t[n].x)]]
    [] OTHER -> x
QName(s, id) == IF Ent(s, id).k = "bi" THEN <<"", Ent(s, id).n>>
                ELSE <<Ent(s, Ent(s, id).pkg).n, Ent(s, id).n>>
DumpT(s, t) ==
  CASE t.k = "ent" -> [k |-> "ent", n |-> QName(s, t.id)]
    [] t.k = "arr" -> [k |-> "arr", el |-> DumpT(s, t.el), lo |-> t.lo, hi |-> t.hi, inf |-> t.inf]
    [] t.k = "uni" -> [k |-> "uni", ts |-> [i \in 1..Len(t.ts) |-> QName(s, t.ts[i])]]
DumpObj(s, id) ==
  LET o == Ent(s, id)
  IN [n |-> QName(s, id), l |-> o.l, t |-> QName(s, o.t.id), ord |-> o.ord,
      sec |-> [i \in 1..Len(o.sec) |-> o.sec[i].n],
      fld |-> [n \in DOMAIN o.fld |-> DumpX(s, Eval(s, o.fld[n], Static).v.x)]]
DumpComp(s, id) == LET c == Ent(s, id) IN [n |-> c.n, t |-> DumpT(s, c.t), opt |-> c.opt, d |-> c.d]
DumpType(s, id) ==
  LET e == Ent(s, id)
      base == [n |-> QName(s, id), k |-> e.k, d |-> e.d, l |-> e.l]
  IN IF e.k = "enum"
     THEN base @@ [lits |-> [i \in 1..Len(s.tabs[e.tab].ord) |->
                               LET c == Ent(s, s.tabs[e.tab].ord[i]) IN [n |-> c.n, d |-> c.d]]]
     ELSE base @@ [comps |-> [i \in 1..Len(OwnComps(s, id)) |-> DumpComp(s, OwnComps(s, id)[i])],
                   chks |-> [i \in 1..Len(e.chks) |-> [sev |-> e.chks[i].sev, tx |-> e.chks[i].tx,
                                                        anc |-> e.chks[i].anc, x |-> e.chks[i].x]]]
          @@ IF e.k = "tup" THEN [seps |-> [i \in 1..Len(e.seps) |->
                                    IF e.seps[i].k = "IDENTIFIER" THEN e.seps[i].v ELSE e.seps[i].k]]
             ELSE [abs |-> e.abs, fin |-> e.fin, fro |-> DOMAIN e.fro,
                   par |-> IF e.par = 0 THEN <<>> ELSE QName(s, e.par)]
(* Objects in the order in which they are offered: package by package, each   *)
(* in the order of declaration.  By section, each file and each section is    *)
(* announced before the first object in it.                                   *)
InOrder(s) == FlattenSeq([i \in 1..Len(s.tabs[GlobalTab].ord) |->
                LET e == Ent(s, s.tabs[GlobalTab].ord[i])
                IN IF e.k # "pkg" THEN <<>>
                   ELSE SelectSeq(s.tabs[e.tab].ord, LAMBDA o : Ent(s, o).k = "obj")])
Walk(s) ==
  FoldLeft(LAMBDA st, id :
    LET o == Ent(s, id)
        st1 == IF o.l.f \in st.files THEN st
               ELSE [st EXCEPT !.out = Append(@, <<"file", o.l.f>>), !.files = @ \cup {o.l.f}]
        st2 == FoldLeft(LAMBDA a, i :
                 IF o.sec[i].l \in a.secs THEN a
                 ELSE [a EXCEPT !.out = Append(@, <<"section", o.sec[i].n, i - 1>>),
                                !.secs = @ \cup {o.sec[i].l}],
                 st1, [i \in 1..Len(o.sec) |-> i])
    IN [st2 EXCEPT !.out = Append(@, <<"object", o.n, IF o.sec = <<>> THEN 0 ELSE Len(o.sec) - 1>>)],
    [out |-> <<>>, files |-> {}, secs |-> {}], InOrder(s)).out

(* What is told of the progress: after each file read to its end the share  *)
(* of the files needed, out of 100.  The files that cannot be read to their   *)
(* end count as needed.                                                       *)
Progress ==
  LET n == Cardinality({f \in FileTabs : cu[f].req /\ Sound(f)})
      k == Cardinality({f \in FileTabs : cu[f].read})
  IN [i \in 1..k |-> (i * 100) \div n]

Outcome ==
  [id |-> Case.id, res |-> ph, path |-> path, open |-> S.tot, brk |-> S.brk, msgs |-> S.msgs,
   prog |-> IF ph = "refused" THEN <<>> ELSE Progress,
   objs |-> IF ph # "stab" THEN <<>>
            ELSE [i \in 1..Len(InOrder(S)) |-> DumpObj(S, InOrder(S)[i])],
   walk |-> IF ph # "stab" THEN <<>> ELSE Walk(S),
   types |-> IF ph # "stab" THEN <<>>
             ELSE [i \in 1..Len(Declared(S, {"enum", "tup", "rec"})) |->
                     DumpType(S, Declared(S, {"enum", "tup", "rec"})[i])]]
Report ==
  /\ Final /\ PrintT(ToJson(Outcome))
  /\ ph' = "reported" /\ Step(0)
  /\ UNCHANGED <<cs, job, cur, cu, S, ok>>
RunSpec == Init /\ [][Next \/ Report]_vars
=============================================================================
