---------------------------------- MODULE Eval --------------------------------
(* The value of a check expression.                                           *)
(*                                                                            *)
(* A value has a location l (where it stems from), a type t and a datum x,    *)
(* tagged: null, b(oolean), i(nteger), q (decimal), s(tring), e(num literal), *)
(* r(eference to an object), a(rray) and t(uple) of values.                   *)
(* Evaluation gives [st |-> "ok", v |-> value], or an error                   *)
(* [st |-> "err", l |-> where it is reported, y |-> what is wrong,            *)
(* w |-> location of the expression that fails], or [st |-> "open"] where the *)
(* specification has no answer (see Regex).                                   *)
(* The context is [st |-> static?, m |-> expression of each visible name].    *)
EXTENDS Lang, Regex

EOk(v) == [st |-> "ok", v |-> v]
\* How it fails, the value to blame, where in the check, and in which operation
EFail(l, y, w, o) == [st |-> "err", l |-> l, y |-> y, w |-> w, o |-> o]
EErr(l, y, w) == EFail(l, y, w, w)
EOpen == [st |-> "open"]
V(l, t, x) == [l |-> l, t |-> t, x |-> x]
EThen(r, F(_)) == IF r.st = "ok" THEN F(r.v) ELSE r
\* Continue with the value of e, which may not be null.  A conditional has no
\* place that is to blame for its value.
ENonNull(r, e, o, F(_)) ==
  IF r.st # "ok" THEN r
  ELSE IF r.v.x.k = "null" THEN EFail(r.v.l, "null", IF e.k = "cond" THEN NoLoc ELSE e.l, o)
  ELSE F(r.v)

Static == [st |-> TRUE, m |-> <<>>]
Context(m) == [st |-> FALSE, m |-> m]
WithName(ctx, nm, e) == [ctx EXCEPT !.m = (nm :> e) @@ @]

\* The object a reference names
Target(s, e) == Find(s, s.ents[e.pkg].tab, e.s)

(* Equality: references are the same if they refer to the same object, all    *)
(* other values if their data are the same, element by element.               *)
RECURSIVE Same(_, _, _), SameX(_, _, _)
Same(s, v, w) == IF IsRefT(s, v.t) THEN w.x.k = "r" /\ v.x.k = "r" /\ v.x.r = w.x.r
                 ELSE SameX(s, v.x, w.x)
SameX(s, x, y) ==
  /\ x.k = y.k
  /\ CASE x.k = "null" -> TRUE
       [] x.k = "b" -> x.b = y.b
       [] x.k = "i" -> BEq(x.i, y.i)
       [] x.k = "q" -> QCmp(x.q, y.q) = 0
       [] x.k = "s" -> x.s = y.s
       [] x.k = "e" -> x.e = y.e
       [] x.k = "r" -> x.r = y.r
       [] x.k = "a" -> /\ Len(x.a) = Len(y.a)
                       /\ \A i \in 1..Len(x.a) : SameT(x.a[i].t, y.a[i].t) /\ Same(s, x.a[i], y.a[i])
       [] x.k = "t" -> /\ DOMAIN x.t = DOMAIN y.t
                       /\ \A n \in DOMAIN x.t : SameT(x.t[n].t, y.t[n].t) /\ Same(s, x.t[n], y.t[n])

NumCmp(x, y) == IF x.k = "i" THEN Cmp(x.i, y.i) ELSE QCmp(x.q, y.q)
NumZero(x) == IF x.k = "i" THEN IsZero(x.i) ELSE IsZero(x.q.n)
NumNeg(x) == IF x.k = "i" THEN XI(Neg(x.i)) ELSE XQ(QNeg(x.q))
NumAbs(x) == IF x.k = "i" THEN XI(Abs(x.i)) ELSE XQ(QAbs(x.q))

SubStr(a, b) == \E i \in 0..(Len(b) - Len(a)) : SubSeq(b, i + 1, i + Len(a)) = a
StartsW(a, b) == Len(b) <= Len(a) /\ SubSeq(a, 1, Len(b)) = b
EndsW(a, b) == Len(b) <= Len(a) /\ SubSeq(a, Len(a) - Len(b) + 1, Len(a)) = b

\* Large powers are possible but pointless to compute here
PowTooBig(x, n) == ~IsSmall(n) \/ ToInt(n) > 600
                   \/ (IF x.k = "i" THEN Len(x.i.m) ELSE Len(x.q.n.m) + Len(x.q.d.m)) * ToInt(n) > 800

Unary(op, x) ==
  CASE op = "-" -> NumNeg(x)
    [] op = "+" -> x
    [] op = "not" -> XB(~x.b)
    [] op = "abs" -> NumAbs(x)
    [] op = "strlen" -> XI(FromInt(Len(x.s)))
    [] op = "arrlen" -> XI(FromInt(Len(x.a)))
    [] op = "toint" -> IF x.k = "q" THEN XI(QRound(x.q)) ELSE x
    [] op = "todec" -> IF x.k = "i" THEN XQ(QInt(x.i)) ELSE x

\* Operators on two values that are not null and cannot fail
Arith(s, op, v, w) ==
  LET x == v.x  y == w.x  int == v.x.k = "i"
  IN CASE op = "xor" -> XB(x.b # y.b)
       [] op = "<" -> XB(NumCmp(x, y) < 0)
       [] op = "<=" -> XB(NumCmp(x, y) <= 0)
       [] op = ">" -> XB(NumCmp(x, y) > 0)
       [] op = ">=" -> XB(NumCmp(x, y) >= 0)
       [] op = "strin" -> XB(SubStr(x.s, y.s))
       [] op = "startswith" -> XB(StartsW(x.s, y.s))
       [] op = "endswith" -> XB(EndsW(x.s, y.s))
       [] op = "matches" -> XB(Matches(y.s, x.s))
       [] op = "arrin" -> XB(\E i \in 1..Len(y.a) : Same(s, v, y.a[i]))
       [] op = "+" -> IF x.k = "s" THEN XS(x.s \o y.s)
                      ELSE IF int THEN XI(Add(x.i, y.i)) ELSE XQ(QAdd(x.q, y.q))
       [] op = "-" -> IF int THEN XI(Sub(x.i, y.i)) ELSE XQ(QSub(x.q, y.q))
       [] op = "*" -> IF int THEN XI(Mul(x.i, y.i)) ELSE XQ(QMul(x.q, y.q))
       [] op = "/" -> IF int THEN XI(FloorDiv(x.i, y.i)) ELSE XQ(QDiv(x.q, y.q))
       [] op = "%" -> XI(Rem(x.i, y.i))
       [] op = "**" -> IF int THEN XI(Pow(x.i, ToInt(y.i))) ELSE XQ(QPow(x.q, ToInt(y.i)))

RECURSIVE Eval(_, _, _), EvalCond(_, _, _, _), EvalQuan(_, _, _, _, _),
          EvalSeq(_, _, _, _, _), EvalFields(_, _, _, _, _)
Eval(s, e, ctx) ==
  CASE e.k = "lit" -> EOk(V(e.l, e.t, e.x))
    [] e.k = "null" -> EOk(V(e.l, TNul, XNull))
    [] e.k = "ref" -> EOk(V(e.l, e.t, XR(Target(s, e))))
    [] e.k = "arr" -> EThen(EvalSeq(s, e.es, 1, <<>>, ctx), LAMBDA a : EOk(V(e.l, e.t, XA(a))))
    [] e.k = "tup" -> EThen(EvalFields(s, e, DOMAIN e.fs, <<>>, ctx), LAMBDA a : EOk(V(e.l, e.t, XT(a))))
    [] e.k = "name" -> IF ctx.st THEN EFail(e.l, "static", e.l, NoLoc) ELSE Eval(s, ctx.m[e.nm], ctx)
    [] e.k = "un" -> ENonNull(Eval(s, e.a, ctx), e.a, e.l, LAMBDA v : EOk(V(e.l, e.t, Unary(e.op, v.x))))
    [] e.k = "bin" /\ e.op \in {"==", "!="} ->
         EThen(Eval(s, e.a, ctx), LAMBDA v :
         EThen(Eval(s, e.b, ctx), LAMBDA w :
           EOk(V(e.l, e.t, XB(Same(s, v, w) = (e.op = "=="))))))
    [] e.k = "bin" /\ e.op \in {"and", "or", "implies"} ->
         ENonNull(Eval(s, e.a, ctx), e.a, e.l, LAMBDA v :
           IF v.x.b = (e.op = "or")              \* the left operand decides
           THEN EOk(IF e.op = "implies" THEN V(e.l, e.t, XB(TRUE)) ELSE v)
           ELSE ENonNull(Eval(s, e.b, ctx), e.b, e.l, LAMBDA w : EOk(w)))
    [] e.k = "bin" /\ e.op = "idx" ->
         ENonNull(Eval(s, e.a, ctx), e.a, e.l, LAMBDA v :
         ENonNull(Eval(s, e.b, ctx), e.b, e.l, LAMBDA w :
           IF w.x.i.g \/ (~v.t.inf /\ ~Lt(w.x.i, v.t.hi)) THEN EErr(w.l, IF w.x.i.g THEN "index" ELSE "beyond", e.l)
           ELSE IF ~Lt(w.x.i, FromInt(Len(v.x.a))) THEN EErr(v.l, "beyond", e.l)
           ELSE EOk(V(e.l, e.t, v.x.a[ToInt(w.x.i) + 1].x))))
    [] e.k = "bin" /\ e.op \notin {"==", "!=", "and", "or", "implies", "idx"} ->
         ENonNull(Eval(s, e.a, ctx), e.a, e.l, LAMBDA v :
         ENonNull(Eval(s, e.b, ctx), e.b, e.l, LAMBDA w :
           IF e.op \in {"/", "%"} /\ NumZero(w.x) THEN EErr(w.l, "zero", e.l)
           ELSE IF e.op = "matches" /\ ~RKnown(w.x.s, v.x.s) THEN EOpen
           ELSE IF e.op = "**" /\ PowTooBig(v.x, w.x.i) THEN EOpen
           ELSE EOk(V(e.l, e.t, Arith(s, e.op, v, w)))))
    [] e.k = "rng" ->
         ENonNull(Eval(s, e.a, ctx), e.a, e.l, LAMBDA v :
         ENonNull(Eval(s, e.b, ctx), e.b, e.l, LAMBDA lo :
         ENonNull(Eval(s, e.c, ctx), e.c, e.l, LAMBDA hi :
           EOk(V(e.l, e.t, XB(NumCmp(lo.x, v.x) <= 0 /\ NumCmp(v.x, hi.x) <= 0))))))
    [] e.k = "oneof" ->
         EThen(EvalSeq(s, e.es, 1, <<>>, ctx), LAMBDA vs :
           LET nulls == {i \in 1..Len(vs) : vs[i].x.k = "null"}
           IN IF nulls # {}
            THEN LET i == CHOOSE i \in nulls : \A j \in nulls : i <= j
                 IN EFail(vs[i].l, "null", IF e.es[i].k = "cond" THEN NoLoc ELSE e.es[i].l, e.l)
            ELSE EOk(V(e.l, e.t, XB(Cardinality({i \in 1..Len(vs) : vs[i].x.b}) = 1))))
    [] e.k = "cond" -> EvalCond(s, e, 1, ctx)
    [] e.k = "quan" ->
         IF ctx.st THEN EFail(e.l, "static", e.l, NoLoc)
         ELSE LET src == ctx.m[e.src]
              IN IF src.k = "null" THEN EFail(src.l, "null", e.sl, e.l)
                 ELSE EvalQuan(s, e, src.es, 1, ctx)
    [] e.k = "fld" ->
         EThen(Eval(s, e.a, ctx), LAMBDA v :
           IF v.x.k = "null" THEN EFail(e.a.l, "null", e.a.l, NoLoc)
           ELSE IF v.x.k = "t" THEN EOk(v.x.t[e.nm])
           ELSE LET o == s.ents[v.x.r].fld
                IN IF e.nm \in DOMAIN o THEN Eval(s, o[e.nm], ctx)
                   ELSE EOk(V(e.l, TNul, XNull)))
\* The first true condition selects the value
EvalCond(s, e, i, ctx) ==
  IF i > Len(e.acts) THEN Eval(s, e.a, ctx)
  ELSE ENonNull(Eval(s, e.acts[i][1], ctx), e.acts[i][1], e.l, LAMBDA v :
         IF v.x.b THEN Eval(s, e.acts[i][2], ctx) ELSE EvalCond(s, e, i + 1, ctx))
\* The first element that decides ends the search
EvalQuan(s, e, es, i, ctx) ==
  IF i > Len(es) THEN EOk(V(e.l, e.t, XB(e.all)))
  ELSE ENonNull(Eval(s, e.a, WithName(ctx, e.nm, es[i])), e.a, e.l, LAMBDA v :
         IF v.x.b # e.all THEN EOk(V(es[i].l, e.t, XB(~e.all)))
         ELSE EvalQuan(s, e, es, i + 1, ctx))
EvalSeq(s, es, i, acc, ctx) ==
  IF i > Len(es) THEN EOk(acc)
  ELSE EThen(Eval(s, es[i], ctx), LAMBDA v : EvalSeq(s, es, i + 1, Append(acc, v), ctx))
EvalFields(s, e, D, acc, ctx) ==     \* the fields of a tuple value cannot fail
  EOk([n \in D |-> Eval(s, e.fs[n], ctx).v])
=============================================================================
