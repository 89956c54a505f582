------------------------------- MODULE Example --------------------------------
(* Objects a verifier gives as examples of a check that cannot be evaluated.  *)
(*                                                                            *)
(* The models and the examples are files like others, so that an example has  *)
(* to be an object its type admits.  What comes to light when its checks, or  *)
(* those of the tuple it holds, are evaluated on its values is reported: the  *)
(* check pointed out has to fail where and as the verifier said, and the      *)
(* fatal ones before it have to be passed.                                    *)
EXTENDS Verifier

Examples == SelectSeq([i \in 1..Len(S.ents) |-> i],
              LAMBDA i : S.ents[i].k = "obj" /\ S.ents[i].n = "bad_potato")
\* What holds the values of interest, and the type with the checks on them
Bearer(id) ==
  LET o == Ent(S, id)
  IN IF "wrapped" \in DOMAIN o.fld
     THEN [t |-> o.fld["wrapped"].t.id, m |-> o.fld["wrapped"].fs]
     ELSE [t |-> o.t.id, m |-> o.fld]
\* Each check by itself; the verifier does not take for granted that checks
\* before which are not fatal can be evaluated
Brought(id) ==
  LET b == Bearer(id)
      chks == AllChecks(S, b.t)
  IN UNION {{f @@ [i |-> i, sev |-> chks[i].sev] : f \in Facts(S, <<chks[i]>>, 1, b.m)} : i \in 1..Len(chks)}

ExampleReport ==
  /\ Final
  /\ PrintT(ToJson(Outcome @@ [facts |-> UNION {Brought(Examples[i]) : i \in 1..Len(Examples)},
                               given |-> Len(Examples)]))
  /\ ph' = "reported" /\ Step(0)
  /\ UNCHANGED <<cs, job, cur, cu, S, ok>>
ExampleSpec == Init /\ [][Next \/ ExampleReport]_vars
\* A check brings at most one thing to light, and the run fails if one fails
OneFailure ==
  Final => \A i \in 1..Len(Examples) :
             LET fs == Brought(Examples[i])
             IN /\ \A f, g \in fs : f.i = g.i => f = g
                /\ (\E f \in fs : f.r \notin {"true", "false"}) => ph = "none" \/ \E f \in fs : f.sev = "fatal"
Good == Properties /\ OneFailure
===============================================================================
