------------------------------- MODULE Verifier -------------------------------
(* What a verifier of checks has to find.                                     *)
(*                                                                            *)
(* Once the models of a case are read, the objects of every type are run      *)
(* through, with values from small domains, and the checks of the type        *)
(* evaluated on each as they would be on an object in a file.  The facts that *)
(* come to light bind a verifier: it must have pointed out every place where  *)
(* an evaluation fails, and may not have called an expression always true     *)
(* that is false for some object.                                             *)
(*                                                                            *)
(* A case has besides what Trlc needs                                         *)
(*   dom  [i |-> integers, q |-> pairs of integers, s |-> strings,            *)
(*         e |-> number of element values, n |-> maximum length of arrays]    *)
(*   cap  how many objects of a type are tried at most                        *)
(*   tgt  how many objects of each type there are to refer to                 *)
EXTENDS TrlcRun

Dom == Case.dom
Lit(t, x) == MkLit(NoLoc, t, x)
Some(q, n) == SubSeq(q, 1, IF Len(q) < n THEN Len(q) ELSE n)

(* Sequences as digits of a number: choice k of one element of each of qs     *)
Count(qs) == FoldLeft(LAMBDA n, q : n * Len(q), 1, qs)
Picked(qs, k) ==
  FoldLeft(LAMBDA a, q : [o |-> Append(a.o, q[1 + (a.k % Len(q))]), k |-> a.k \div Len(q)],
           [o |-> <<>>, k |-> k], qs).o

\* The record type a value stands for, if it is a reference of type t
Targets(s, t) == SelectSeq([i \in 1..Len(s.ents) |-> i],
                   LAMBDA i : s.ents[i].k = "tgt"
                              /\ \E j \in 1..Len(Members(t)) : IsSub(s, s.ents[i].t.id, Members(t)[j]))

(* A tuple value exists if its fields left out are the last ones and its      *)
(* checks, other than warnings, are passed.                                   *)
Passes(s, chk, m) ==
  LET r == Eval(s, chk.e, Context(m))
  IN r.st = "ok" /\ r.v.x.k # "null" /\ (r.v.x.b \/ chk.sev = "warning")
Exists(s, id, fs, names) ==
  /\ \A i \in 1..Len(names) : fs[names[i]].k = "null" =>
       \A j \in i..Len(names) : fs[names[j]].k = "null"
  /\ \A i \in 1..Len(Ent(s, id).chks) : Passes(s, Ent(s, id).chks[i], fs)

RECURSIVE Values(_, _), OfComp(_, _), Tuples(_, _)
Values(s, t) ==
  CASE IsInt(t) -> [i \in 1..Len(Dom.i) |-> Lit(t, XI(FromInt(Dom.i[i])))]
    [] IsDec(t) -> [i \in 1..Len(Dom.q) |->
                      Lit(t, XQ(QDiv(QInt(FromInt(Dom.q[i][1])), QInt(FromInt(Dom.q[i][2])))))]
    [] IsBool(t) -> <<Lit(t, XB(TRUE)), Lit(t, XB(FALSE))>>
    [] IsStr(t) -> [i \in 1..Len(Dom.s) |-> Lit(t, XS(Dom.s[i]))]
    [] IsEnumT(s, t) -> [i \in 1..Len(s.tabs[Ent(s, t.id).tab].ord) |->
                           Lit(t, XE(s.tabs[Ent(s, t.id).tab].ord[i]))]
    [] IsTupT(s, t) -> Tuples(s, t)
    [] IsRefT(s, t) -> [i \in 1..Len(Targets(s, t)) |-> Lit(t, XR(Targets(s, t)[i]))]
    [] IsArr(t) ->
         LET el == TLCEval(Some(Values(s, t.el), Dom.e))
             A(es) == [k |-> "arr", l |-> NoLoc, t |-> t, es |-> es]
             Len_(n) == ~Lt(FromInt(n), t.lo) /\ (t.inf \/ ~Lt(t.hi, FromInt(n)))
             V1 == [i \in 1..Len(el) |-> A(<<el[i]>>)]
             V2 == [i \in 1..(Len(el) * Len(el)) |->
                      A(<<el[1 + ((i - 1) % Len(el))], el[1 + ((i - 1) \div Len(el))]>>)]
             VN(n) == [i \in 1..Len(el) |-> A([j \in 1..n |-> el[1 + ((i + j) % Len(el))]])]
             Long == IF Dom.n < 3 THEN <<>> ELSE FlattenSeq([n \in 1..(Dom.n - 2) |->
                       IF Len_(n + 2) THEN VN(n + 2) ELSE <<>>])
         IN (IF Len_(0) THEN <<A(<<>>)>> ELSE <<>>)
            \o (IF Len_(1) THEN V1 ELSE <<>>) \o (IF Len_(2) THEN V2 ELSE <<>>) \o Long
OfComp(s, c) == (IF Ent(s, c).opt THEN <<MkNull(NoLoc)>> ELSE <<>>) \o Values(s, Ent(s, c).t)
Fields(s, ps, vs) == [n \in {Ent(s, ps[i]).n : i \in 1..Len(ps)} |->
                        vs[CHOOSE i \in 1..Len(ps) : Ent(s, ps[i]).n = n]]
Tuples(s, t) ==
  LET ps == OwnComps(s, t.id)
      names == [i \in 1..Len(ps) |-> Ent(s, ps[i]).n]
      qs == TLCEval([i \in 1..Len(ps) |-> Some(OfComp(s, ps[i]), 4)])
      all == TLCEval([k \in 1..Count(qs) |-> Fields(s, ps, Picked(qs, k - 1))])
      good == SelectSeq(all, LAMBDA fs : Exists(s, t.id, fs, names))
  IN [i \in 1..Len(good) |-> [k |-> "tup", l |-> NoLoc, t |-> t, fs |-> good[i]]]

(* Objects to refer to: for each record type in turn, so that they in turn    *)
(* refer to objects of types declared before, or to themselves.               *)
Referred(s) ==
  LET Of(t) == IF IsArr(t) THEN t.el ELSE t
      comps == {c \in 1..Len(s.ents) : s.ents[c].k = "comp" /\ IsRefT(s, Of(s.ents[c].t))}
  IN {id \in 1..Len(s.ents) :
        /\ s.ents[id].k = "rec" /\ s.ents[id].reg /\ ~s.ents[id].abs
        /\ \E c \in comps : \E j \in 1..Len(Members(Of(s.ents[c].t))) :
             IsSub(s, id, Members(Of(s.ents[c].t))[j])}
Frozen(s, id, c) == Ent(s, Freezer(s, id, Ent(s, c).n)).fro[Ent(s, c).n]
WithTargets(s0) ==
  FoldLeft(LAMBDA s, id :
    IF id \notin Referred(s0) THEN s
    ELSE LET me == Len(s.ents) + 1
             s1 == [s EXCEPT !.ents = Append(@, [k |-> "tgt", n |-> "", reg |-> FALSE, t |-> TE(id),
                                                 fld |-> <<>>])]
             ps == AllComps(s, id)
             qs == TLCEval([i \in 1..Len(ps) |-> IF IsFrozen(s, id, Ent(s, ps[i]).n)
                                         THEN <<Frozen(s, id, ps[i])>>
                                         ELSE Some(OfComp(s1, ps[i]), 4)])
             n == IF Count(qs) < Case.tgt THEN Count(qs) ELSE Case.tgt
             step == IF Count(qs) < Case.tgt \/ Count(qs) % 7 = 0 THEN 1 ELSE 7
             O(k) == [k |-> "tgt", n |-> "", reg |-> FALSE, t |-> TE(id),
                      fld |-> Fields(s, ps, Picked(qs, (k * step) % Count(qs)))]
         IN IF n = 0 THEN s ELSE [s EXCEPT !.ents = @ \o TLCEval([k \in 1..n |-> O(k - 1)])],
    s0, [i \in 1..Len(s0.ents) |-> i])

RECURSIVE Mentions(_)                \* names in an expression
Mentions(e) ==
  CASE e.k \in {"lit", "null", "ref", "arr", "tup"} -> {}
    [] e.k = "name" -> {e.nm}
    [] e.k = "un" -> Mentions(e.a)
    [] e.k = "fld" -> Mentions(e.a)
    [] e.k = "bin" -> Mentions(e.a) \cup Mentions(e.b)
    [] e.k = "rng" -> Mentions(e.a) \cup Mentions(e.b) \cup Mentions(e.c)
    [] e.k = "oneof" -> UNION {Mentions(e.es[i]) : i \in 1..Len(e.es)}
    [] e.k = "cond" -> Mentions(e.a) \cup UNION {Mentions(e.acts[i][1]) \cup Mentions(e.acts[i][2])
                                                 : i \in 1..Len(e.acts)}
    [] e.k = "quan" -> {e.src} \cup Mentions(e.a)

RECURSIVE Derefs(_, _)               \* does an expression look through a reference?
Derefs(s, e) ==
  CASE e.k \in {"lit", "null", "ref", "arr", "tup", "name"} -> FALSE
    [] e.k = "un" -> Derefs(s, e.a)
    [] e.k = "fld" -> IsRefT(s, e.a.t) \/ Derefs(s, e.a)
    [] e.k = "bin" -> Derefs(s, e.a) \/ Derefs(s, e.b)
    [] e.k = "rng" -> Derefs(s, e.a) \/ Derefs(s, e.b) \/ Derefs(s, e.c)
    [] e.k = "oneof" -> \E i \in 1..Len(e.es) : Derefs(s, e.es[i])
    [] e.k = "cond" -> Derefs(s, e.a) \/ \E i \in 1..Len(e.acts) : Derefs(s, e.acts[i][1]) \/ Derefs(s, e.acts[i][2])
    [] e.k = "quan" -> Derefs(s, e.a)

AllChecks(s, id) == IF Ent(s, id).k = "rec" THEN ChecksOf(s, id) ELSE Ent(s, id).chks
\* What the components of an object of a type may be
Options(s, id) ==
  LET ps == AllComps(s, id)
      used == UNION {Mentions(AllChecks(s, id)[i].e) : i \in 1..Len(AllChecks(s, id))}
  IN TLCEval([i \in 1..Len(ps) |->
        LET c == ps[i]
            froz == Ent(s, id).k = "rec" /\ IsFrozen(s, id, Ent(s, c).n)
        IN IF froz THEN <<Frozen(s, id, c)>>
           ELSE IF Ent(s, c).n \in used THEN OfComp(s, c)
           ELSE <<MkNull(NoLoc)>>])         \* of no interest
Possible(s, id, m) ==
  Ent(s, id).k = "rec" \/
  LET ps == OwnComps(s, id)
  IN \A i, j \in 1..Len(ps) : i < j /\ Ent(s, ps[i]).opt /\ m[Ent(s, ps[i]).n].k = "null"
       => m[Ent(s, ps[j]).n].k = "null"

\* The facts an object with fields m brings to light, check by check
RECURSIVE Facts(_, _, _, _)
Facts(s, chks, i, m) ==
  IF i > Len(chks) THEN {}
  ELSE LET chk == chks[i]
           F(r, at) == [r |-> r, at |-> <<at.f, at.l, at.c>>, chk |-> <<chk.e.l.f, chk.e.l.l, chk.e.l.c>>,
                        tl |-> chk.l.l,
                        \* looks through a reference before a fatal check that does not?
                        late |-> /\ Derefs(s, chk.e)
                                 /\ \E j \in (i + 1)..Len(chks) : chks[j].sev = "fatal" /\ ~Derefs(s, chks[j].e)]
           r == Eval(s, chk.e, Context(m))
       IN CASE r.st = "open" -> {}
            [] r.st = "err" -> {F(r.y, r.w)}
            [] r.st = "ok" /\ r.v.x.k = "null" -> {F("null", IF chk.e.k = "cond" THEN NoLoc ELSE chk.e.l)}
            [] r.st = "ok" /\ r.v.x.k # "null" ->
                 {F(IF r.v.x.b THEN "true" ELSE "false", chk.e.l)}
                 \cup (IF ~r.v.x.b /\ chk.sev = "fatal" THEN {} ELSE Facts(s, chks, i + 1, m))

Chunk == 50
Begin ==
  /\ ph = "stab"
  /\ S' = WithTargets(S) /\ Goto("verify", SelectSeq(Declared(S, {"tup", "rec"}), LAMBDA i : AllChecks(S, i) # <<>>))
  /\ Step(0) /\ UNCHANGED <<cs, cur, cu, ok>>
\* A type, and some of its objects
Select(id, k) ==
  /\ ph = "verify" /\ Goto("examine", <<id, k>>) /\ path' = path \o <<id, k + 1>>
  /\ UNCHANGED <<cs, cur, cu, S, ok>>
Examine ==
  /\ ph = "examine"
  /\ LET id == job[1]
         qs == Options(S, id)
         n == Count(qs)
         step == IF n <= Case.cap THEN 1
                 ELSE LET g == (n \div Case.cap) + 1 IN CHOOSE p \in g..(g + 60) : \A q \in {2, 3, 5, 7} : p % q # 0
         js == {j \in (job[2] * Chunk)..((job[2] + 1) * Chunk - 1) : j < n /\ j < Case.cap}
         M(j) == Fields(S, AllComps(S, id), Picked(qs, (j * step) % n))
         fs == UNION {LET m == M(j) IN IF Possible(S, id, m) THEN Facts(S, AllChecks(S, id), 1, m) ELSE {} : j \in js}
     IN js = {} \/ PrintT(ToJson([id |-> Case.id, typ |-> QName(S, id), n |-> Cardinality(js), all |-> n, facts |-> fs]))
  /\ Goto("examined", <<>>) /\ Step(1)
  /\ UNCHANGED <<cs, cur, cu, S, ok>>
\* The models are faulty: nothing to verify
Refuse ==
  /\ ph \in {"none", "refused"} /\ PrintT(ToJson([id |-> Case.id, res |-> ph]))
  /\ ph' = "reported" /\ Step(0) /\ UNCHANGED <<cs, job, cur, cu, S, ok>>
VerifySpec ==
  Init /\ [][Next \/ Begin \/ Refuse \/ Examine
             \/ (ph = "verify" /\ \E i \in 1..Len(job) :
                   \E k \in 0..((Case.cap - 1) \div Chunk) : Select(job[i], k))]_vars
=============================================================================
