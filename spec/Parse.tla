--------------------------------- MODULE Parse --------------------------------
(* Reading constructs: names, types, values, expressions, declarations.       *)
(* One operator per construct, from state to state, with the result in rv.    *)
(* The rules of the language manual appear here in the order in which they    *)
(* are applied, as that order decides which violation is reported first.      *)
EXTENDS Eval

(* --------------------------------------------------------------------- names *)
\* A name with an optional description d; rv: the token of the name
DescribedName(s) ==
  Bind(Match(s, "IDENTIFIER"), LAMBDA a :
    IF Peek(a, "STRING")
    THEN Bind(Match(a, "STRING"), LAMBDA b : Ret(b, [d |-> Ct(b).x] @@ Ct(a)))
    ELSE Ret(a, [d |-> <<>>] @@ Ct(a)))

\* A possibly qualified name whose first identifier has been read
QualifiedRest(s, sc, Want(_)) ==
  Bind(ScopeLookup(s, sc, Ct(s), Whatever), LAMBDA a :
    IF Ent(a, a.rv).k = "pkg"
    THEN LET pkg == a.rv
         IN IF ~Visible(a, pkg) THEN Err(a, CtLoc(a))
            ELSE Bind(Match(a, "DOT"), LAMBDA b :
                 Bind(Match(b, "IDENTIFIER"), LAMBDA c :
                   Lookup(c, Ent(c, pkg).tab, Ct(c), Want)))
    ELSE ScopeLookup(a, sc, Ct(a), Want))
QualifiedName(s, sc, Want(_)) ==
  Bind(Match(s, "IDENTIFIER"), LAMBDA a : QualifiedRest(a, sc, Want))

NewName(k, s, tok, more) ==
  more @@ [k |-> k, n |-> tok.v, s |-> tok.s, l |-> TLoc(s, tok), reg |-> FALSE,
           d |-> IF "d" \in DOMAIN tok THEN tok.d ELSE <<>>]

(* -------------------------------------------------------------- markup strings *)
(* A markup string may hold lists of references between double brackets.      *)
(* Their text is the text of the literal, of which only the plain style knows *)
(* an escape.  Columns within triple quoted strings are not specified.        *)
MTok(k, i, o, codes) == [k |-> k, i |-> i, o |-> o, x |-> codes]
RECURSIVE MSkip(_, _)
MSkip(tx, i) == IF i <= Len(tx) /\ Space(tx[i]) THEN MSkip(tx, i + 1) ELSE i
RECURSIVE MLex(_, _, _, _)           \* tokens outside and inside of lists
MLex(tx, i0, in, acc) ==
  LET i == IF in THEN MSkip(tx, i0) ELSE i0
      c == At(tx, i)
      Two(q) == c = q /\ At(tx, i + 1) = q
  IN IF i > Len(tx) THEN acc
     ELSE IF Two(91) THEN IF in THEN Append(acc, MTok("ERR", i, i, <<>>))
                          ELSE MLex(tx, i + 2, TRUE, Append(acc, MTok("OPEN", i, i + 1, <<>>)))
     ELSE IF Two(93) THEN IF ~in THEN Append(acc, MTok("ERR", i, i, <<>>))
                          ELSE MLex(tx, i + 2, FALSE, Append(acc, MTok("CLOSE", i, i + 1, <<>>)))
     ELSE IF ~in THEN MLex(tx, i + 1, FALSE, acc)
     ELSE IF c = 44 THEN MLex(tx, i + 1, TRUE, Append(acc, MTok("COMMA", i, i, <<>>)))
     ELSE IF c = DOTC THEN MLex(tx, i + 1, TRUE, Append(acc, MTok("DOT", i, i, <<>>)))
     ELSE IF Alpha(c) THEN LET z == ScanId(tx, i)
                           IN MLex(tx, z, TRUE, Append(acc, MTok("ID", i, z - 1, SubSeq(tx, i, z - 1))))
     ELSE Append(acc, MTok("ERR", i, i, <<>>))

CountLF(tx, n) == Cardinality({j \in 1..n : tx[j] = NL})
\* Where the character i of the inner text of literal token t stands
MLoc(s, t, tx, i) ==
  IF t.q = 3
  THEN LET nls == {j \in 1..(i - 1) : tx[j] = NL}
           last == IF nls = {} THEN 0 ELSE CHOOSE j \in nls : \A m \in nls : m <= j
       IN [f |-> s.f, l |-> t.l + Cardinality(nls),
           c |-> IF nls = {} THEN 0 ELSE i - last]       \* column 0: unspecified
  ELSE [f |-> s.f, l |-> t.l,
        c |-> t.c + i + Cardinality({j \in 1..(i - 1) : tx[j] = DQ})]

\* The references of a literal, read as tokens ms from position j; rv: sequence.
\* A reference list is read token by token with one token of lookahead.
MarkupRefs(s, t, tx) ==
  LET ms == MLex(tx, 1, FALSE, <<>>)
      K(j) == IF j <= Len(ms) THEN ms[j].k ELSE "END"
      L(j) == MLoc(s, t, tx, ms[j].i)
      \* Reading token j of kind k: an error if it is something else (or the
      \* text ends: then at the previous token), or if the one after is illegal
      Rd(a, j, k) == IF K(j) = k THEN (IF K(j + 1) = "ERR" THEN Err(a, L(j + 1)) ELSE a)
                     ELSE IF K(j) = "END" THEN Err(a, IF j > 1 THEN L(j - 1) ELSE TLoc(s, t))
                     ELSE Err(a, L(j))
      NameTok(j) == [v |-> StrOf(ms[j].x), s |-> Simplified(ms[j].x), l |-> L(j).l, c |-> L(j).c]
      Ref(a, j, pkg) == [a EXCEPT !.rv = Append(@, [k |-> "ref", l |-> L(j), t |-> TNul,
                                                    pkg |-> pkg, s |-> NameTok(j).s, n |-> NameTok(j).v])]
      \* one name at st.j, then a comma or the end of the list
      Step(st) ==
        LET j == st.j
        IN IF K(j) = "END" THEN [st EXCEPT !.done = TRUE]
           ELSE IF st.ph = "open"
           THEN LET a == Rd(st.s, j, "OPEN")
                IN [st EXCEPT !.s = a, !.j = j + 1, !.ph = "name", !.done = a.err]
           ELSE IF st.ph = "sep"
           THEN IF K(j) = "COMMA"
                THEN LET a == Rd(st.s, j, "COMMA")
                     IN [st EXCEPT !.s = a, !.j = j + 1, !.ph = "name", !.done = a.err]
                ELSE LET a == Rd(st.s, j, "CLOSE")
                     IN [st EXCEPT !.s = a, !.j = j + 1, !.ph = "open", !.done = a.err]
           ELSE LET a == Rd(st.s, j, "ID")
                IN IF a.err THEN [st EXCEPT !.s = a, !.done = TRUE]
                   ELSE IF K(j + 1) = "DOT"
                   THEN LET old == a.rv
                            b == Lookup(a, GlobalTab, NameTok(j), IsPkg)
                            pkg == b.rv
                            d == IF b.err THEN b
                                 ELSE IF ~Visible(b, pkg) THEN Err(b, L(j))
                                 ELSE Bind(Rd(b, j + 1, "DOT"), LAMBDA x : Rd(x, j + 2, "ID"))
                        IN IF d.err THEN [st EXCEPT !.s = d, !.done = TRUE]
                           ELSE [st EXCEPT !.s = Ref([d EXCEPT !.rv = old], j + 2, pkg),
                                           !.j = j + 3, !.ph = "sep"]
                   ELSE [st EXCEPT !.s = Ref(a, j, a.pk), !.j = j + 1, !.ph = "sep"]
      first == IF K(1) = "ERR" THEN Err(s, L(1)) ELSE [s EXCEPT !.rv = <<>>]
      fin == FoldLeft(LAMBDA st, k : IF st.done THEN st ELSE Step(st),
                      [s |-> first, j |-> 1, ph |-> "open", done |-> first.err],
                      [k \in 1..(Len(ms) + 2) |-> k])
  IN IF fin.s.err THEN fin.s
     ELSE IF fin.ph # "open" THEN Rd(fin.s, Len(ms) + 1, "ANY")
     ELSE fin.s

(* --------------------------------------------------------------------- values *)
\* Does a plain separator follow?
SepHere(s, sep) == IF sep.k = "IDENTIFIER" THEN Peek(s, "IDENTIFIER") /\ Nt(s).v = sep.v
                   ELSE Peek(s, sep.k)

(* The object a reference names has to exist and to be of the expected type:  *)
(* the record type or an extension of it, for a union that of some member.    *)
Resolve(s, e) ==
  LET id == Target(s, e)
      o == s.ents[id]
  IN IF id = 0 THEN Err(s, e.l)
     ELSE IF o.n # e.n \/ o.k # "obj" THEN Err(s, e.l)
     ELSE IF IsNul(e.t) THEN s
     ELSE IF \E i \in 1..Len(Members(e.t)) : IsSub(s, o.t.id, Members(e.t)[i]) THEN s
     ELSE Err(s, e.l)

RECURSIVE Value(_, _), ArrayElems(_, _, _), TupleSeps(_, _, _, _, _), TuplePlain(_, _, _, _)
Value(s, t) ==
  CASE IsNum(t) ->
         LET k == IF IsInt(t) THEN "INTEGER" ELSE "DECIMAL"
             Lit(a, x) == MkLit(CtLoc(a), t, IF IsInt(t) THEN XI(x) ELSE XQ(x))
         IN IF PeekOp(s, {"+", "-"})
            THEN Bind(Match(s, "OPERATOR"), LAMBDA a :
                 Bind(Match(a, k), LAMBDA b :
                   Ret(b, [k |-> "un", l |-> CtLoc(a), t |-> t, op |-> Ct(a).v, a |-> Lit(b, Ct(b).x)])))
            ELSE Bind(Match(s, k), LAMBDA a : Ret(a, Lit(a, Ct(a).x)))
    [] IsMup(t) ->
         Bind(Match(s, "STRING"), LAMBDA a :
         Bind(MarkupRefs(a, Ct(a), Ct(a).raw), LAMBDA b :
           Ret(b, [MkLit(CtLoc(a), TMup, XS(Ct(a).x)) EXCEPT !.refs = b.rv])))
    [] t = TStr -> Bind(Match(s, "STRING"), LAMBDA a : Ret(a, MkLit(CtLoc(a), TStr, XS(Ct(a).x))))
    [] IsBool(t) ->
         Bind(Match(s, "KEYWORD"), LAMBDA a :
           IF Ct(a).v \in {"true", "false"} THEN Ret(a, MkLit(CtLoc(a), TBool, XB(Ct(a).v = "true")))
           ELSE Err(a, CtLoc(a)))
    [] IsArr(t) ->
         Bind(Match(s, "S_BRA"), LAMBDA a :
         Bind(ArrayElems(a, t, <<>>), LAMBDA b :
         Bind(Match(b, "S_KET"), LAMBDA c :
           LET n == FromInt(Len(b.rv))
               c1 == IF Lt(n, t.lo) THEN Note(c, CtLoc(c)) ELSE c
               c2 == IF ~t.inf /\ Lt(t.hi, n) THEN Note(c1, b.rv[ToInt(t.hi) + 1].l) ELSE c1
           IN Ret(c2, [k |-> "arr", l |-> CtLoc(a), t |-> t, es |-> b.rv]))))
    [] IsEnumT(s, t) ->
         Bind(QualifiedName(s, DefaultScope(s), IsEnum), LAMBDA a :
           IF a.rv # t.id THEN Err(a, CtLoc(a))
           ELSE Bind(Match(a, "DOT"), LAMBDA b :
                Bind(Match(b, "IDENTIFIER"), LAMBDA c :
                Bind(Lookup(c, Ent(c, t.id).tab, Ct(c), IsLit), LAMBDA d :
                  Ret(d, MkLit(CtLoc(c), t, XE(d.rv)))))))
    [] IsRefT(s, t) ->
         Bind(Match(s, "IDENTIFIER"), LAMBDA a :
           LET Fin(b, pkg) ==
                 LET e == [k |-> "ref", l |-> CtLoc(b), t |-> t, pkg |-> pkg,
                           s |-> Ct(b).s, n |-> Ct(b).v]
                 IN IF HasName(b, Ent(b, pkg).tab, Ct(b)) THEN Bind(Resolve(b, e), LAMBDA c : Ret(c, e))
                    ELSE Ret(b, e)
           IN IF Peek(a, "DOT")
              THEN Bind(Match(a, "DOT"), LAMBDA b :
                   Bind(Match(b, "IDENTIFIER"), LAMBDA c :
                   Bind(Lookup(c, GlobalTab, Ct(a), IsPkg), LAMBDA d :
                     IF ~Visible(d, d.rv) THEN Err(d, CtLoc(d)) ELSE Fin(d, d.rv))))
              ELSE Fin(a, a.pk))
    [] IsTupT(s, t) /\ Ent(s, t.id).seps # <<>> ->
         TupleSeps(s, t, OwnComps(s, t.id), FALSE,
                   [k |-> "tup", l |-> NtOrCtLoc(s), t |-> t, fs |-> <<>>])
    [] IsTupT(s, t) /\ Ent(s, t.id).seps = <<>> ->
         Bind(Match(s, "BRA"), LAMBDA a :
           TuplePlain(a, t, OwnComps(s, t.id),
                      [k |-> "tup", l |-> CtLoc(a), t |-> t, fs |-> <<>>]))
ArrayElems(s, t, acc) ==
  IF Peek(s, "S_KET") THEN Ret(s, acc)
  ELSE Bind(Value(s, t.el), LAMBDA a :
         LET es == Append(acc, a.rv)
         IN IF Peek(a, "COMMA") THEN Bind(Match(a, "COMMA"), LAMBDA b : ArrayElems(b, t, es))
            ELSE IF Peek(a, "S_KET") \/ ~HasNt(a) THEN Ret(a, es)
            ELSE ArrayElems(Note(a, CtLoc(a)), t, es))
\* Fields still to come; after a missing separator an optional field ends it
TupleSeps(s, t, cs, miss, tup) ==
  LET Rest(a) == Ret(a, [tup EXCEPT !.fs =          \* the fields left out are null
                     @ @@ [n \in {Ent(s, cs[i]).n : i \in 1..Len(cs)} |-> MkNull(tup.l)]])
      seps == Ent(s, t.id).seps
      nth == Len(OwnComps(s, t.id)) - Len(cs) + 1
  IN IF cs = <<>> THEN Ret(s, tup)
     ELSE IF miss /\ Ent(s, cs[1]).opt THEN Rest(s)
     ELSE Bind(Value(s, Ent(s, cs[1]).t), LAMBDA a :
            LET tup1 == [tup EXCEPT !.fs = @ @@ (Ent(s, cs[1]).n :> a.rv)]
            IN IF nth > Len(seps) THEN TupleSeps(a, t, Tail(cs), miss, tup1)
               ELSE IF SepHere(a, seps[nth])
               THEN Bind(Match(a, seps[nth].k), LAMBDA b : TupleSeps(b, t, Tail(cs), miss, tup1))
               ELSE TupleSeps(a, t, Tail(cs), TRUE, tup1))
TuplePlain(s, t, cs, tup) ==
  Bind(Value(s, Ent(s, cs[1]).t), LAMBDA a :
    LET tup1 == [tup EXCEPT !.fs = @ @@ (Ent(s, cs[1]).n :> a.rv)]
    IN IF Len(cs) = 1 THEN Bind(Match(a, "KET"), LAMBDA b : Ret(b, tup1))
       ELSE Bind(Match(a, "COMMA"), LAMBDA b : TuplePlain(b, t, Tail(cs), tup1)))

(* ---------------------------------------------------------- type expressions *)
RECURSIVE UnionRest(_, _)            \* rv: sequence of <<type, location>>
UnionRest(s, acc) ==
  Bind(QualifiedName(s, DefaultScope(s), IsRec), LAMBDA a :
    LET acc1 == Append(acc, <<a.rv, CtLoc(a)>>)
    IN IF Peek(a, "COMMA") THEN Bind(Match(a, "COMMA"), LAMBDA b : UnionRest(b, acc1))
       ELSE Ret(a, acc1))
UnionType(s) ==
  Bind(Match(s, "S_BRA"), LAMBDA a :
  Bind(UnionRest(a, <<>>), LAMBDA b :
  Bind(Match(b, "S_KET"), LAMBDA c :
    LET es == b.rv
        dup == {i \in 1..Len(es) : \E j \in 1..(i - 1) : es[j][1] = es[i][1]}
        d == FoldLeft(LAMBDA x, i : IF i \in dup THEN Note(x, es[i][2]) ELSE x, c,
                      [i \in 1..Len(es) |-> i])
    IN Ret(d, [k |-> "uni", u |-> <<s.f, s.p>>, l |-> CtLoc(a),
               ts |-> [i \in 1..Len(es) |-> es[i][1]]]))))

PlainType(s) ==
  IF Peek(s, "S_BRA") THEN UnionType(s)
  ELSE Bind(QualifiedName(s, DefaultScope(s), IsType), LAMBDA a : Ret(a, TE(a.rv)))

\* [ lower .. upper ]
ArrayBounds(s, el) ==
  Bind(Match(s, "S_BRA"), LAMBDA a :
  Bind(Match(a, "INTEGER"), LAMBDA b :
  Bind(Match(b, "RANGE"), LAMBDA c :
  Bind(IF Peek(c, "INTEGER") THEN Match(c, "INTEGER")
       ELSE IF PeekOp(c, {"*"}) THEN Match(c, "OPERATOR")
       ELSE Err(c, NtOrCtLoc(c)), LAMBDA d :
  Bind(Match(d, "S_KET"), LAMBDA e :
    LET inf == Ct(d).k # "INTEGER"
    IN Ret(e, [k |-> "arr", u |-> <<s.f, s.p>>, el |-> el, lo |-> Ct(b).x,
               hi |-> IF inf THEN Zero ELSE Ct(d).x, inf |-> inf,
               lu |-> CtLoc(d)]))))))

(* ---------------------------------------------------------------- expressions *)
EnsureP(s, e, ok) == IF ok THEN s ELSE Err(s, e.l)
EnsureNum(s, e)  == EnsureP(s, e, IsNum(e.t))
EnsureInt(s, e)  == EnsureP(s, e, IsInt(e.t))
EnsureBool(s, e) == EnsureP(s, e, IsBool(e.t))
EnsureStr(s, e)  == EnsureP(s, e, IsStr(e.t))
EnsureArr(s, e)  == EnsureP(s, e, IsArr(e.t))
EnsureT(s, e, t) == EnsureP(s, e, ~IsNul(e.t) /\ SameT(e.t, t))

UnType(op, a) == CASE op \in {"-", "+", "abs"} -> a.t
                   [] op = "not" -> TBool
                   [] op \in {"strlen", "arrlen", "toint"} -> TInt
                   [] op = "todec" -> TDec
MkUn(s, loc, op, a) ==
  Bind(CASE op \in {"-", "+", "abs", "toint", "todec"} -> EnsureNum(s, a)
         [] op = "not" -> EnsureBool(s, a)
         [] op = "strlen" -> EnsureStr(s, a)
         [] op = "arrlen" -> EnsureArr(s, a), LAMBDA x :
    Ret(x, [k |-> "un", l |-> loc, t |-> UnType(op, a), op |-> op, a |-> a]))

\* Are values of these types comparable by == and != ?
Comparable(s, a, b) ==
  \/ IsNul(a) \/ IsNul(b)
  \/ IsRefT(s, a) /\ IsRefT(s, b)
     /\ \E i \in 1..Len(Members(a)) : \E j \in 1..Len(Members(b)) :
          Related(s, Members(a)[i], Members(b)[j])
  \/ ~IsRefT(s, a) /\ ~IsRefT(s, b) /\ SameT(a, b)

\* May a value of type a be looked for among elements of type el ?
SameKind(s, a, el) ==
  IF IsUni(el) THEN IsUni(a)
  ELSE a.k = "ent" /\ (\/ IsRecT(s, el) /\ IsRecT(s, a) /\ Related(s, a.id, el.id)
                       \/ ~IsRecT(s, el) /\ SameT(a, el))

MkBin(s, loc, op, t, a, b) ==
  Bind(CASE op \in {"and", "or", "xor", "implies"} ->
              Bind(EnsureBool(s, a), LAMBDA x : EnsureBool(x, b))
         [] op \in {"==", "!="} -> IF Comparable(s, a.t, b.t) THEN s ELSE Err(s, loc)
         [] op \in {"<", "<=", ">", ">=", "-", "*", "/"} ->
              Bind(EnsureNum(s, a), LAMBDA x : EnsureT(x, b, a.t))
         [] op \in {"strin", "startswith", "endswith", "matches"} ->
              Bind(EnsureStr(s, a), LAMBDA x : EnsureStr(x, b))
         [] op = "arrin" -> EnsureP(s, a, SameKind(s, a.t, b.t.el))
         [] op = "+" -> IF IsNum(a.t) THEN EnsureT(s, b, a.t)
                        ELSE Bind(EnsureStr(s, a), LAMBDA x : EnsureStr(x, b))
         [] op = "**" -> Bind(EnsureNum(s, a), LAMBDA x : EnsureInt(x, b))
         [] op = "%" -> Bind(EnsureInt(s, a), LAMBDA x : EnsureInt(x, b))
         [] op = "idx" -> Bind(EnsureArr(s, a), LAMBDA x : EnsureInt(x, b)), LAMBDA x :
    Ret(x, [k |-> "bin", l |-> loc, t |-> t, op |-> op, a |-> a, b |-> b]))

\* A value needed while reading (exponents, regular expressions)
StaticValue(s, e, F(_, _)) ==
  LET r == Eval(s, e, Static)
  IN CASE r.st = "ok" -> F(s, r.v)
       [] r.st = "err" -> ErrSee(s, r.l, r.o)
       [] r.st = "open" -> [s EXCEPT !.err = TRUE, !.tot = TRUE]

RECURSIVE Expr(_, _), Relation(_, _), SimpleExpr(_, _), Term(_, _), Factor(_, _),
          Primary(_, _), Chain(_, _, _, _), AddChain(_, _, _), MulChain(_, _),
          NameSuffix(_, _), Params(_, _, _), Elsifs(_, _, _)

Expr(s, sc) ==
  Bind(Relation(s, sc), LAMBDA a :
    CASE PeekKw(a, "and") -> Chain(a, sc, "and", TRUE)
      [] PeekKw(a, "or") -> Chain(a, sc, "or", TRUE)
      [] PeekKw(a, "xor") -> Chain(a, sc, "xor", FALSE)
      [] PeekKw(a, "implies") -> Chain(a, sc, "implies", FALSE)
      [] OTHER -> a)
\* lhs in rv; a chain of the same connective, of length one unless it may repeat
Chain(s, sc, kw, again) ==
  IF ~PeekKw(s, kw) THEN s
  ELSE Bind(MatchKw(s, kw), LAMBDA a :
       Bind(Relation(a, sc), LAMBDA b :
       Bind(MkBin(b, CtLoc(a), kw, TBool, s.rv, b.rv), LAMBDA c :
         IF again THEN Chain(c, sc, kw, again) ELSE c)))

Relation(s, sc) ==
  Bind(SimpleExpr(s, sc), LAMBDA a :
    IF PeekOp(a, {"==", "!=", "<", "<=", ">", ">="})
    THEN Bind(Match(a, "OPERATOR"), LAMBDA b :
         Bind(SimpleExpr(b, sc), LAMBDA c :
           MkBin(c, CtLoc(b), Ct(b).v, TBool, a.rv, c.rv)))
    ELSE IF PeekKw(a, "not") \/ PeekKw(a, "in")
    THEN LET neg == PeekKw(a, "not")
         IN Bind(OptKw(a, "not"), LAMBDA b :
            Bind(MatchKw(b, "in"), LAMBDA c :
            Bind(SimpleExpr(c, sc), LAMBDA d :
            Bind(IF Peek(d, "RANGE")
                 THEN Bind(Match(d, "RANGE"), LAMBDA e :
                      Bind(SimpleExpr(e, sc), LAMBDA f :
                      Bind(EnsureNum(f, a.rv), LAMBDA g :
                      Bind(EnsureT(g, d.rv, a.rv.t), LAMBDA h :
                      Bind(EnsureT(h, f.rv, a.rv.t), LAMBDA i :
                        Ret(i, [k |-> "rng", l |-> CtLoc(c), t |-> TBool,
                                a |-> a.rv, b |-> d.rv, c |-> f.rv]))))))
                 ELSE IF IsStr(d.rv.t) THEN MkBin(d, CtLoc(c), "strin", TBool, a.rv, d.rv)
                 ELSE IF IsArr(d.rv.t) THEN MkBin(d, CtLoc(c), "arrin", TBool, a.rv, d.rv)
                 ELSE Err(d, d.rv.l), LAMBDA r :
              IF neg THEN MkUn(r, CtLoc(b), "not", r.rv) ELSE r))))
    ELSE a)

SimpleExpr(s, sc) ==
  IF PeekOp(s, {"+", "-"})
  THEN Bind(Match(s, "OPERATOR"), LAMBDA a :
       Bind(Term(a, sc), LAMBDA b :
         LET c == IF b.rv.k = "bin" /\ ~Peek(a, "BRA")
                  THEN Lint(b, CtLoc(a), "unary_minus_precedence") ELSE b
         IN Bind(MkUn(c, CtLoc(a), Ct(a).v, b.rv), LAMBDA d : AddChain(d, sc, d.rv.t))))
  ELSE Bind(Term(s, sc), LAMBDA a : AddChain(a, sc, IF IsStr(a.rv.t) THEN TStr ELSE a.rv.t))
AddChain(s, sc, t) ==                \* t: type of the whole
  IF ~PeekOp(s, {"+", "-"}) THEN s
  ELSE Bind(Match(s, "OPERATOR"), LAMBDA a :
       Bind(Term(a, sc), LAMBDA b :
       Bind(MkBin(b, CtLoc(a), Ct(a).v, t, s.rv, b.rv), LAMBDA c : AddChain(c, sc, t))))
Term(s, sc) == Bind(Factor(s, sc), LAMBDA a : MulChain(a, sc))
MulChain(s, sc) ==
  IF ~PeekOp(s, {"*", "/", "%"}) THEN s
  ELSE Bind(Match(s, "OPERATOR"), LAMBDA a :
       Bind(Factor(a, sc), LAMBDA b :
       Bind(MkBin(b, CtLoc(a), Ct(a).v, s.rv.t, s.rv, b.rv), LAMBDA c : MulChain(c, sc))))

Factor(s, sc) ==
  IF PeekKw(s, "not") \/ PeekKw(s, "abs")
  THEN Bind(Match(s, "KEYWORD"), LAMBDA a :
       Bind(Primary(a, sc), LAMBDA b : MkUn(b, CtLoc(a), Ct(a).v, b.rv)))
  ELSE Bind(Primary(s, sc), LAMBDA a :
         IF ~PeekOp(a, {"**"}) THEN a
         ELSE Bind(Match(a, "OPERATOR"), LAMBDA b :
              Bind(Primary(b, sc), LAMBDA c :
                StaticValue(c, c.rv, LAMBDA d, v :
                  Bind(MkBin(d, CtLoc(b), "**", a.rv.t, a.rv, c.rv), LAMBDA e :
                    IF v.x.i.g THEN Err(e, c.rv.l) ELSE e)))))

Quantified(s, sc) ==
  Bind(Match(s, "KEYWORD"), LAMBDA a :
  Bind(Match(a, "IDENTIFIER"), LAMBDA b :
    IF ScopeHas(b, sc, Ct(b)) THEN ErrSee(b, CtLoc(b), Ent(b, Find(b, ScopeTab(b, sc, Ct(b)), Ct(b).s)).l)
    ELSE Bind(MatchKw(b, "in"), LAMBDA c :
         Bind(Match(c, "IDENTIFIER"), LAMBDA d :
         Bind(ScopeLookup(d, sc, Ct(d), IsComp), LAMBDA e :
           LET comp == Ent(e, e.rv)
           IN IF ~IsArr(comp.t) THEN Err(e, CtLoc(e))
              ELSE Bind(Match(e, "ARROW"), LAMBDA f :
                     LET g == AddEnt(f, NewName("qv", f, Ct(b), [t |-> comp.t.el]))
                         h == NewTab(g, 0, 0)
                         i == Register(h, h.rv, g.rv)
                     IN Bind(Expr(i, Append(sc, h.rv)), LAMBDA j :
                        Bind(EnsureBool(j, j.rv), LAMBDA q :
                          Ret(q, [k |-> "quan", l |-> CtLoc(a), t |-> TBool,
                                  all |-> Ct(a).v = "forall", nm |-> Ct(b).v,
                                  src |-> comp.n, sl |-> CtLoc(e), a |-> j.rv])))))))))

\* acts: the actions so far; the type of the first value is that of the whole
Elsifs(s, sc, acts) ==
  LET t == acts[1][2].t
  IN IF PeekKw(s, "elsif")
     THEN Bind(MatchKw(s, "elsif"), LAMBDA a :
          Bind(Expr(a, sc), LAMBDA b :
          Bind(MatchKw(b, "then"), LAMBDA c :
          Bind(Expr(c, sc), LAMBDA d :
          Bind(EnsureBool(d, b.rv), LAMBDA e :
          Bind(EnsureT(e, d.rv, t), LAMBDA f :
            Elsifs(f, sc, Append(acts, <<b.rv, d.rv>>))))))))
     ELSE Bind(MatchKw(s, "else"), LAMBDA a :
          Bind(Expr(a, sc), LAMBDA b :
          Bind(EnsureT(b, b.rv, t), LAMBDA c :
            Ret(c, [acts |-> acts, a |-> b.rv]))))
Conditional(s, sc) ==
  Bind(MatchKw(s, "if"), LAMBDA a :
  Bind(Expr(a, sc), LAMBDA b :
  Bind(MatchKw(b, "then"), LAMBDA c :
  Bind(Expr(c, sc), LAMBDA d :
    IF IsNul(d.rv.t) THEN Err(d, d.rv.l)
    ELSE Bind(EnsureBool(d, b.rv), LAMBDA e :
         Bind(Elsifs(e, sc, << <<b.rv, d.rv>> >>), LAMBDA f :
           Ret(f, [k |-> "cond", l |-> CtLoc(a), t |-> d.rv.t,
                   acts |-> f.rv.acts, a |-> f.rv.a])))))))

\* The parameters of a builtin; a trailing comma is tolerated
Params(s, sc, acc) ==
  IF Peek(s, "KET") THEN Ret(s, acc)
  ELSE Bind(Expr(s, sc), LAMBDA a :
         IF Peek(a, "COMMA")
         THEN Bind(Match(a, "COMMA"), LAMBDA b : Params(b, sc, Append(acc, a.rv)))
         ELSE Ret(a, Append(acc, a.rv)))
Builtin(s, sc, fn) ==
  LET loc == CtLoc(s)
      n == Ent(s, fn).n
      ar == IF Ent(s, fn).k = "fn" THEN Ent(s, fn).ar ELSE 1
      more == Ent(s, fn).k = "fn" /\ Ent(s, fn).al
  IN Bind(Match(s, "BRA"), LAMBDA a :
     Bind(Params(a, sc, <<>>), LAMBDA b :
     Bind(Match(b, "KET"), LAMBDA c :
       LET ps == b.rv
       IN IF (more /\ Len(ps) < ar) \/ (~more /\ Len(ps) # ar) THEN Err(c, loc)
          ELSE CASE n = "len" -> MkUn(c, loc, IF IsStr(ps[1].t) THEN "strlen" ELSE "arrlen", ps[1])
                 [] n \in {"startswith", "endswith"} -> MkBin(c, loc, n, TBool, ps[1], ps[2])
                 [] n = "matches" ->
                      Bind(EnsureStr(c, ps[2]), LAMBDA d :
                        StaticValue(d, ps[2], LAMBDA e, v :
                          CASE RParse(v.x.s).st = "bad" -> Err(e, v.l)
                            [] RParse(v.x.s).st = "open" -> [e EXCEPT !.err = TRUE, !.tot = TRUE]
                            [] RParse(v.x.s).st = "ok" -> MkBin(e, loc, n, TBool, ps[1], ps[2])))
                 [] n = "oneof" ->
                      Bind(FoldLeft(LAMBDA x, p : Bind(x, LAMBDA y : EnsureBool(y, p)), c, ps), LAMBDA d :
                        Ret(d, [k |-> "oneof", l |-> loc, t |-> TBool, es |-> ps]))
                 [] n = "Integer" -> MkUn(c, loc, "toint", ps[1])
                 [] n = "Decimal" -> MkUn(c, loc, "todec", ps[1]))))

NameExpr(s, sc) ==
  Bind(Match(s, "IDENTIFIER"), LAMBDA a :
  Bind(IF Peek(a, "BRA") THEN Lookup(a, GlobalTab, Ct(a), IsFun)
       ELSE QualifiedRest(a, sc, Whatever), LAMBDA b :
    LET e == Ent(b, b.rv)
    IN CASE e.k = "enum" ->
              Bind(Match(b, "DOT"), LAMBDA c :
              Bind(Match(c, "IDENTIFIER"), LAMBDA d :
              Bind(Lookup(d, e.tab, Ct(d), IsLit), LAMBDA f :
                Ret(f, MkLit(CtLoc(d), TE(b.rv), XE(f.rv))))))
         [] IsFun(e) -> Builtin(b, sc, b.rv)
         [] e.k \in {"comp", "qv"} ->
              NameSuffix(Ret(b, [k |-> "name", l |-> CtLoc(b), t |-> e.t, nm |-> e.n]), sc)
         [] OTHER -> Err(b, CtLoc(b))))
NameSuffix(s, sc) ==
  LET e == s.rv
  IN IF Peek(s, "DOT")
     THEN IF ~(IsTupT(s, e.t) \/ IsRefT(s, e.t)) THEN Err(s, e.l)
          ELSE Bind(Match(s, "DOT"), LAMBDA a :
               Bind(Match(a, "IDENTIFIER"), LAMBDA b :
                 LET Deref(c, comp) == NameSuffix(Ret(c,
                           [k |-> "fld", l |-> CtLoc(c), t |-> Ent(c, comp).t, a |-> e, nm |-> Ct(c).v]), sc)
                 IN IF IsUni(e.t)
                    THEN LET u == UnionField(b, e.t, Ct(b).v)
                         IN IF u.n = 0 \/ ~u.agree THEN Err(b, CtLoc(b))
                            ELSE Deref(IF u.n = Len(e.t.ts) THEN b
                                    ELSE Lint(b, CtLoc(b), "union_partial_field_access"), u.comp)
                    ELSE Bind(Lookup(b, Ent(b, e.t.id).tab, Ct(b), IsComp), LAMBDA c : Deref(c, c.rv))))
     ELSE IF Peek(s, "S_BRA")
     THEN IF ~IsArr(e.t) THEN Err(s, e.l)
          ELSE Bind(Match(s, "S_BRA"), LAMBDA a :
               Bind(Expr(a, sc), LAMBDA b :
               Bind(Match(b, "S_KET"), LAMBDA c :
               Bind(MkBin(c, CtLoc(a), "idx", e.t.el, e, b.rv), LAMBDA d : NameSuffix(d, sc)))))
     ELSE s

Primary(s, sc) ==
  LET Lit(k, t, X(_)) == Bind(Match(s, k), LAMBDA a : Ret(a, MkLit(CtLoc(a), t, X(Ct(a).x))))
  IN CASE Peek(s, "INTEGER") -> Lit("INTEGER", TInt, XI)
       [] Peek(s, "DECIMAL") -> Lit("DECIMAL", TDec, XQ)
       [] Peek(s, "STRING") -> Lit("STRING", TStr, XS)
       [] PeekKw(s, "true") \/ PeekKw(s, "false") ->
            Bind(Match(s, "KEYWORD"), LAMBDA a : Ret(a, MkLit(CtLoc(a), TBool, XB(Ct(a).v = "true"))))
       [] PeekKw(s, "null") -> Bind(Match(s, "KEYWORD"), LAMBDA a : Ret(a, MkNull(CtLoc(a))))
       [] Peek(s, "BRA") ->
            Bind(Match(s, "BRA"), LAMBDA a :
            Bind(IF PeekKw(a, "forall") \/ PeekKw(a, "exists") THEN Quantified(a, sc)
                 ELSE IF PeekKw(a, "if") THEN Conditional(a, sc)
                 ELSE Expr(a, sc), LAMBDA b :
            Bind(Match(b, "KET"), LAMBDA c : Ret(c, b.rv))))
       [] OTHER -> NameExpr(s, sc)

(* --------------------------------------------------------------- declarations *)
EnumDecl(s) ==
  Bind(MatchKw(s, "enum"), LAMBDA a :
  Bind(DescribedName(a), LAMBDA b :
    LET t == NewTab(b, 0, 0)
        e == AddEnt(t, NewName("enum", b, b.rv, [tab |-> t.rv, pkg |-> b.pk]))
        id == e.rv
    IN Bind(Register(e, Ent(e, e.pk).tab, id), LAMBDA c :
       Bind(Match(c, "C_BRA"), LAMBDA d :
       Bind(While(d, LAMBDA x :
              IF Peek(x, "C_KET") THEN Stop(x)
              ELSE Bind(DescribedName(x), LAMBDA y :
                     LET z == AddEnt(y, NewName("lit", y, y.rv, [t |-> id]))
                     IN Register(z, t.rv, z.rv))), LAMBDA f :
       Bind(Match(f, "C_KET"), LAMBDA g :
         IF g.tabs[t.rv].ord = <<>> THEN Err(g, Ent(g, id).l) ELSE g))))))

\* A component or field; rv: its entity, not yet registered
Component(s, owner, must, allowed, arrays) ==
  Bind(DescribedName(s), LAMBDA a :
  Bind(IF must \/ PeekKw(a, "optional")
       THEN Bind(MatchKw(a, "optional"), LAMBDA x : IF allowed THEN x ELSE Err(x, CtLoc(x)))
       ELSE a, LAMBDA b :
  Bind(PlainType(b), LAMBDA c :
  Bind(IF arrays /\ Peek(c, "S_BRA") THEN ArrayBounds(c, c.rv) ELSE c, LAMBDA d :
    AddEnt(d, NewName("comp", d, a.rv, [t |-> d.rv, opt |-> must \/ PeekKw(a, "optional"),
                                        mem |-> owner]))))))

SepKinds == {"IDENTIFIER", "AT", "COLON", "SEMICOLON"}
TupleDecl(s) ==
  Bind(MatchKw(s, "tuple"), LAMBDA a :
  Bind(DescribedName(a), LAMBDA b :
  Bind(Match(b, "C_BRA"), LAMBDA c :
    LET t == NewTab(c, 0, 0)
        e == AddEnt(t, NewName("tup", c, b.rv, [tab |-> t.rv, pkg |-> c.pk, seps |-> <<>>,
                                                chks |-> <<>>]))
        id == e.rv
        Sep(x) == Ent(x, id).seps # <<>> 
        Field(x, must, allowed) ==
          Bind(Component(x, id, must, allowed, FALSE), LAMBDA y : Register(y, t.rv, y.rv))
        LastOpt(x) == \E i \in 1..Len(OwnComps(x, id)) : Ent(x, OwnComps(x, id)[i]).opt
    IN Bind(Field(e, FALSE, FALSE), LAMBDA d :
       Bind(While(d, LAMBDA x :
              IF ~(PeekKw(x, "separator") \/ Peek(x, "IDENTIFIER")) THEN Stop(x)
              ELSE IF Sep(x) \/ PeekKw(x, "separator")
              THEN Bind(MatchKw(x, "separator"), LAMBDA y :
                   IF ~Sep(y) /\ Len(OwnComps(y, id)) > 1 THEN Err(y, CtLoc(y))
                   \* a missing separator makes the next field be misread
                   ELSE Bind(IF HasNt(y) /\ Nt(y).k \in SepKinds
                             THEN Bind(Adv(y), LAMBDA z :
                                    [z EXCEPT !.ents[id].seps = Append(@, [k |-> Ct(z).k, v |-> Ct(z).v,
                                                                           l |-> CtLoc(z)])])
                             ELSE Unexpected(y), LAMBDA z :
                        Field(z, LastOpt(z), TRUE)))
              ELSE Field(x, FALSE, FALSE)), LAMBDA f :
       Bind(Match(f, "C_KET"), LAMBDA g :
         LET bad == {i \in 1..Len(OwnComps(g, id)) :
                       LET ft == Ent(g, ByName(g, id)[i]).t
                       IN Sep(g) /\ IsTupT(g, ft) /\ Ent(g, ft.id).seps # <<>>}
         IN IF bad # {} THEN Err(g, Ent(g, ByName(g, id)[CHOOSE i \in bad : \A j \in bad : i <= j]).l)
            ELSE Register(g, Ent(g, g.pk).tab, id)))))))

RecordDecl(s) ==
  LET abs == PeekKw(s, "abstract")
      fin == PeekKw(s, "final")
  IN Bind(IF abs \/ fin THEN Match(s, "KEYWORD") ELSE s, LAMBDA a :
     Bind(MatchKw(a, "type"), LAMBDA b :
     Bind(DescribedName(b), LAMBDA c :
     Bind(IF PeekKw(c, "extends")
          THEN Bind(MatchKw(c, "extends"), LAMBDA x : QualifiedName(x, DefaultScope(x), IsRec))
          ELSE Ret(c, 0), LAMBDA d :
       LET par == d.rv
           inh == par # 0 /\ Ent(d, par).fin
           d1 == IF inh /\ ~fin THEN Lint(d, TLoc(c, c.rv), "clarify_final") ELSE d
           t == NewTab(d1, IF par = 0 THEN 0 ELSE Ent(d, par).tab, 0)
           e == AddEnt(t, NewName("rec", c, c.rv, [tab |-> t.rv, pkg |-> d.pk, par |-> par,
                          fro |-> <<>>, fin |-> inh, abs |-> abs, chks |-> <<>>]))
           id == e.rv
       IN Bind(Register(e, Ent(e, e.pk).tab, id), LAMBDA f :
          Bind(Match(f, "C_BRA"), LAMBDA g :
          Bind(While(g, LAMBDA x :
                 IF Peek(x, "C_KET") THEN Stop(x)
                 ELSE IF PeekKw(x, "freeze")
                 THEN Bind(MatchKw(x, "freeze"), LAMBDA y :
                      Bind(Match(y, "IDENTIFIER"), LAMBDA z :
                      Bind(Lookup(z, t.rv, Ct(z), IsComp), LAMBDA w :
                        LET comp == Ent(w, w.rv)
                        IN IF IsFrozen(w, id, comp.n)
                           THEN ErrSee(w, CtLoc(w), Ent(w, Freezer(w, id, comp.n)).fro[comp.n].l)
                           ELSE Bind(Match(w, "ASSIGN"), LAMBDA v :
                                Bind(Value(v, comp.t), LAMBDA u :
                                  [u EXCEPT !.ents[id].fro = @ @@ (comp.n :> u.rv)])))))
                 ELSE Bind(Component(x, id, FALSE, TRUE, TRUE), LAMBDA y :
                        IF inh THEN Err(y, Ent(y, y.rv).l)
                        ELSE Register(y, t.rv, y.rv))), LAMBDA h :
          Bind(Match(h, "C_KET"), LAMBDA i :
            [i EXCEPT !.ents[id].fin = fin \/ inh]))))))))

CheckDecl(s, id, sc) ==
  Bind(Expr(s, sc), LAMBDA a :
    IF ~IsBool(a.rv.t) THEN Err(a, a.rv.l)
    ELSE Bind(Match(a, "COMMA"), LAMBDA b :
         Bind(IF Peek(b, "KEYWORD")
              THEN Bind(Match(b, "KEYWORD"), LAMBDA x :
                     IF Ct(x).v \in {"warning", "error", "fatal"} THEN x ELSE Err(x, CtLoc(x)))
              ELSE b, LAMBDA c :
         Bind(Match(c, "STRING"), LAMBDA d :
           LET sev == IF Peek(b, "KEYWORD") THEN Nt(b).v ELSE "error"
               lf == \E i \in 1..Len(Ct(d).x) : Ct(d).x[i] = NL
               d1 == IF lf THEN Note(d, CtLoc(d)) ELSE d
               \* rv: the component the check is about, or 0, and a further text
               Anchor(x, extra) == Bind(Match(x, "IDENTIFIER"), LAMBDA y :
                                   Bind(Lookup(y, Ent(y, id).tab, Ct(y), IsComp), LAMBDA z :
                                     Ret(z, <<z.rv, extra>>)))
           IN Bind(IF ~Peek(d1, "COMMA") THEN Ret(d1, <<0, <<>> >>)
                   ELSE Bind(Match(d1, "COMMA"), LAMBDA x :
                          IF Peek(x, "IDENTIFIER") THEN Anchor(x, <<>>)
                          ELSE IF Peek(x, "STRING")
                          THEN Bind(Match(x, "STRING"), LAMBDA y :
                                 IF Peek(y, "COMMA")
                                 THEN Bind(Match(y, "COMMA"), LAMBDA z : Anchor(z, Ct(y).x))
                                 ELSE Ret(y, <<0, Ct(y).x>>))
                          ELSE Err(x, NtOrCtLoc(x))), LAMBDA g :
                [g EXCEPT !.ents[id].chks = Append(@,
                   [e |-> a.rv, sev |-> sev, l |-> CtLoc(d),
                    anc |-> IF g.rv[1] = 0 THEN "" ELSE Ent(g, g.rv[1]).n, x |-> g.rv[2],
                    tx |-> [i \in 1..Len(Ct(d).x) |-> IF Ct(d).x[i] = NL THEN 32 ELSE Ct(d).x[i]]])])))))

CheckBlock(s) ==
  Bind(MatchKw(s, "checks"), LAMBDA a :
  Bind(Match(a, "IDENTIFIER"), LAMBDA b :
  Bind(Lookup(b, Ent(b, b.pk).tab, Ct(b), IsComposite), LAMBDA c :
    LET id == c.rv
        sc == <<GlobalTab, Ent(c, c.pk).tab, Ent(c, id).tab>>
    IN Bind(Match(c, "C_BRA"), LAMBDA d :
       Bind(While(d, LAMBDA x : IF Peek(x, "C_KET") THEN Stop(x) ELSE CheckDecl(x, id, sc)), LAMBDA e :
         Match(e, "C_KET"))))))

TypeDecl(s) == IF PeekKw(s, "enum") THEN EnumDecl(s)
               ELSE IF PeekKw(s, "tuple") THEN TupleDecl(s)
               ELSE RecordDecl(s)
RslEntry(s) == IF PeekKw(s, "checks") THEN CheckBlock(s) ELSE TypeDecl(s)

(* -------------------------------------------------------------------- objects *)
ObjectDecl(s) ==
  Bind(QualifiedName(s, DefaultScope(s), IsRec), LAMBDA a :
    LET typ == a.rv
        comps == AllComps(a, typ)
    IN IF Ent(a, typ).abs THEN Err(a, CtLoc(a))
       ELSE Bind(Match(a, "IDENTIFIER"), LAMBDA b :
         LET loc == CtLoc(b)
             e == AddEnt(b, NewName("obj", b, Ct(b), [t |-> TE(typ), sec |-> b.secs, pkg |-> b.pk,
                    ord |-> [i \in 1..Len(comps) |-> Ent(b, comps[i]).n],
                    fld |-> [n \in {Ent(b, comps[i]).n : i \in 1..Len(comps)} |-> MkNull(loc)]]))
             id == e.rv
         IN Bind(Register(e, Ent(e, e.pk).tab, id), LAMBDA c :
            Bind(Match(c, "C_BRA"), LAMBDA d :
            Bind(While(d, LAMBDA x :
                   IF Peek(x, "C_KET") THEN Stop(x)
                   ELSE Bind(Match(x, "IDENTIFIER"), LAMBDA y :
                        Bind(Lookup(y, Ent(y, typ).tab, Ct(y), IsComp), LAMBDA z :
                          LET comp == Ent(z, z.rv)
                          IN IF Ent(z, id).fld[comp.n].k # "null" \/ IsFrozen(z, typ, comp.n)
                             THEN Err(z, CtLoc(z))
                             ELSE Bind(Match(z, "ASSIGN"), LAMBDA w :
                                  Bind(Value(w, comp.t), LAMBDA v :
                                    [v EXCEPT !.ents[id].fld[comp.n] = v.rv]))))), LAMBDA f :
              LET Null(i) == Ent(f, id).fld[Ent(f, comps[i]).n].k = "null"
                  Froz(i) == IsFrozen(f, typ, Ent(f, comps[i]).n)
                  lack == {i \in 1..Len(comps) : Null(i) /\ ~Froz(i) /\ ~Ent(f, comps[i]).opt}
                  g == FoldLeft(LAMBDA x, i :
                         IF ~(Null(i) /\ Froz(i)) THEN x
                         ELSE LET n == Ent(f, comps[i]).n
                              IN [x EXCEPT !.ents[id].fld[n] = Ent(f, Freezer(f, typ, n)).fro[n]],
                         f, [i \in 1..Len(comps) |-> i])
              IN IF lack # {} THEN ErrSee(g, loc, Ent(g, comps[CHOOSE i \in lack : \A j \in lack : i <= j]).l) ELSE Match(g, "C_KET"))))))

RECURSIVE TrlcEntry(_)
Section(s) ==
  Bind(MatchKw(s, "section"), LAMBDA a :
  Bind(Match(a, "STRING"), LAMBDA b :
    LET c == [b EXCEPT !.secs = Append(@, [n |-> Ct(b).x, l |-> CtLoc(b)])]
    IN Bind(Match(c, "C_BRA"), LAMBDA d :
       Bind(While(d, LAMBDA x : IF Peek(x, "C_KET") THEN Stop(x) ELSE TrlcEntry(x)), LAMBDA e :
       Bind(Match(e, "C_KET"), LAMBDA f :
         [f EXCEPT !.secs = SubSeq(@, 1, Len(@) - 1)])))))
TrlcEntry(s) == IF PeekKw(s, "section") THEN Section(s) ELSE ObjectDecl(s)

(* ------------------------------------------------------------------- recovery *)
(* After an error the rest of the line is dropped, then further lines, until  *)
(* one starts with something that may start a declaration.                    *)
\* Drop the rest of the line of the current token
SkipLine(s) ==
  IF s.p = 1 THEN s
  ELSE LET line == Ct(s).l
       IN While(s, LAMBDA x : IF HasNt(x) /\ Nt(x).l = line THEN Adv(x) ELSE Stop(x))
Resync(s, Starts(_)) ==
  Bind(SkipLine([s EXCEPT !.err = FALSE]), LAMBDA a :
    While(a, LAMBDA x : IF ~HasNt(x) \/ Starts(x) THEN Stop(x)
                        ELSE Bind(Adv(x), LAMBDA y : SkipLine(y))))
RslStarts(s) == Peek(s, "KEYWORD")
                /\ Nt(s).v \in {"checks", "type", "abstract", "final", "tuple", "enum"}
TrlcStarts(s) ==
  \/ PeekKw(s, "section")
  \/ Peek(s, "IDENTIFIER")
     /\ IF HasName(s, GlobalTab, Nt(s)) THEN Ent(s, Find(s, GlobalTab, Nt(s).s)).k = "pkg"
        ELSE LET tab == Ent(s, s.pk).tab
             IN HasName(s, tab, Nt(s)) /\ Ent(s, Find(s, tab, Nt(s).s)).k = "rec"
=============================================================================
