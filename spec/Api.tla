---------------------------------- MODULE Api ---------------------------------
(* What a finished run offers to other tools: the place and make-up of every  *)
(* value, the components and ancestors of every type, and for names that are  *)
(* asked for (Case.ask) what each symbol table has under them.                *)
EXTENDS TrlcRun

Spot(l) == <<l.f, l.l, l.c>>
\* A value frozen in a type without objects may name nothing
Goal(s, id) == IF id = 0 THEN <<>> ELSE QName(s, id)
RECURSIVE Made(_, _)                 \* how a value is made, and where it stands
Made(s, e) ==
  CASE e.k = "un"  -> [k |-> "un", at |-> Spot(e.l), op |-> e.op, of |-> <<Made(s, e.a)>>]
    [] e.k = "arr" -> [k |-> "arr", at |-> Spot(e.l), of |-> [i \in 1..Len(e.es) |-> Made(s, e.es[i])]]
    [] e.k = "tup" -> [k |-> "tup", at |-> Spot(e.l), of |-> [n \in DOMAIN e.fs |-> Made(s, e.fs[n])]]
    [] e.k = "ref" -> [k |-> "ref", at |-> Spot(e.l), to |-> Goal(s, Target(s, e))]
    [] e.k = "lit" -> [k |-> "lit", at |-> Spot(e.l), t |-> DumpT(s, e.t),
                       to |-> [i \in 1..Len(e.refs) |-> Goal(s, Target(s, e.refs[i]))]]
    [] e.k = "null" -> [k |-> "null", at |-> Spot(e.l)]
ApiObj(s, id) == LET o == Ent(s, id)
                 IN [n |-> QName(s, id), fld |-> [x \in DOMAIN o.fld |-> Made(s, o.fld[x])]]

Label(s, id) == LET e == Ent(s, id)
                IN IF e.k \in {"enum", "tup", "rec", "obj"} THEN <<e.k>> \o QName(s, id)
                   ELSE <<e.k, "", e.n>>
\* What is found in a table under a name: nothing, unless it is spelled so
Found(s, t, q) == LET id == Find(s, t, Simplified(q))
                  IN IF id = 0 THEN <<"none">>
                     ELSE IF Ent(s, id).n # StrOf(q) THEN <<"other">> ELSE Label(s, id)
RECURSIVE AllNames(_, _)
AllNames(s, t) == IF t = 0 THEN {}
                  ELSE {Ent(s, s.tabs[t].ord[i]).n : i \in 1..Len(s.tabs[t].ord)} \cup AllNames(s, s.tabs[t].par)
RECURSIVE AllLabels(_, _)            \* all there is in a table and those it builds upon
AllLabels(s, t) == IF t = 0 THEN <<>>
                   ELSE AllLabels(s, s.tabs[t].par) \o [i \in 1..Len(s.tabs[t].ord) |-> Label(s, s.tabs[t].ord[i])]
Table(s, what, t) == [of |-> what, names |-> AllNames(s, t),
                      vals |-> AllLabels(s, t),
                      has |-> [i \in 1..Len(s.tabs[t].ord) |-> Label(s, s.tabs[t].ord[i])],
                      found |-> [i \in 1..Len(Case.ask) |-> Found(s, t, Case.ask[i])]]
Packages(s) == SelectSeq(s.tabs[GlobalTab].ord, LAMBDA i : Ent(s, i).k = "pkg")
Types(s) == Declared(s, {"enum", "tup", "rec"})
Tables(s) == <<Table(s, <<"global">>, GlobalTab)>>
             \o [i \in 1..Len(Packages(s)) |-> Table(s, <<"pkg", Ent(s, Packages(s)[i]).n>>, Ent(s, Packages(s)[i]).tab)]
             \o [i \in 1..Len(Types(s)) |-> Table(s, Label(s, Types(s)[i]), Ent(s, Types(s)[i]).tab)]
ApiType(s, id) ==
  LET e == Ent(s, id)
  IN [n |-> QName(s, id), k |-> e.k, at |-> Spot(e.l),
      parts |-> [i \in 1..Len(s.tabs[e.tab].ord) |-> <<Ent(s, s.tabs[e.tab].ord[i]).n, Spot(Ent(s, s.tabs[e.tab].ord[i]).l)>>],
      form |-> IF e.k # "rec" THEN <<>> ELSE <<e.abs, e.fin>>,
      all |-> IF e.k = "enum" THEN <<>>
              ELSE [i \in 1..Len(AllComps(s, id)) |-> Ent(s, AllComps(s, id)[i]).n],
      up |-> IF e.k # "rec" THEN <<>>
             ELSE [i \in 1..Len(Ancestors(s, id)) |-> QName(s, Ancestors(s, id)[i])],
      frozen |-> IF e.k # "rec" THEN {} ELSE {x \in {Ent(s, AllComps(s, id)[i]).n : i \in 1..Len(AllComps(s, id))} :
                                                IsFrozen(s, id, x)},
      given |-> IF e.k # "rec" THEN <<>> ELSE [x \in DOMAIN e.fro |-> Made(s, e.fro[x])]]

ApiReport ==
  /\ Final
  /\ PrintT(ToJson(Outcome @@ [api |-> IF ph # "stab" THEN <<>>
       ELSE [objs |-> [i \in 1..Len(InOrder(S)) |-> ApiObj(S, InOrder(S)[i])],
             types |-> [i \in 1..Len(Types(S)) |-> ApiType(S, Types(S)[i])],
             tables |-> Tables(S)]]))
  /\ ph' = "reported" /\ Step(0)
  /\ UNCHANGED <<cs, job, cur, cu, S, ok>>
ApiSpec == Init /\ [][Next \/ ApiReport]_vars

(* ----------------------------------------------------------------- properties *)
\* A name finds at most one thing, in its own table or one it builds upon; every
\* entity is found under its own name and under no other spelling
Lookups ==
  ph = "stab" =>
    \A t \in 1..Len(S.tabs) : \A i \in 1..Len(S.tabs[t].ord) :
      LET e == Ent(S, S.tabs[t].ord[i]) IN Find(S, t, e.s) = S.tabs[t].ord[i]
\* A frozen component has in every object the value given to it nearest above
Frozen_ ==
  ph = "stab" =>
    \A i \in 1..Len(InOrder(S)) :
      LET o == Ent(S, InOrder(S)[i])
      IN \A x \in DOMAIN o.fld :
           IsFrozen(S, o.t.id, x) => o.fld[x] = Ent(S, Freezer(S, o.t.id, x)).fro[x]
Good == Properties /\ Lookups /\ Frozen_
=============================================================================
