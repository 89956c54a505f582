--------------------------------- MODULE Lang ---------------------------------
(* The state of the language processor: entities, symbol tables, messages and *)
(* the token cursor of the file being read, with the elementary operations on *)
(* them.  Everything that reads a construct is an operator from states to     *)
(* states; a state with err set is passed through unchanged by Bind, so that  *)
(* the first error abandons the construct.                                    *)
EXTENDS Lexer, TLC

(* ------------------------------------------------------------------ builtins *)
EntInteger == 1   EntDecimal == 2   EntBoolean == 3   EntString == 4
EntMarkup == 5    EntLen == 6       EntStarts == 7    EntEnds == 8
EntMatches == 9   EntOneOf == 10
GlobalTab == 1

NoLoc == [f |-> 0, l |-> 0, c |-> 0]
BuiltinEnts ==
  LET T(n, s) == [k |-> "bi", n |-> n, s |-> s, l |-> NoLoc, reg |-> TRUE]
      F(n, a, m) == [k |-> "fn", n |-> n, s |-> n, l |-> NoLoc, reg |-> TRUE, ar |-> a, al |-> m]
  IN << T("Integer", "integer"), T("Decimal", "decimal"), T("Boolean", "boolean"),
        T("String", "string"), T("Markup_String", "markupstring"),
        F("len", 1, FALSE), F("startswith", 2, FALSE), F("endswith", 2, FALSE),
        F("matches", 2, FALSE), F("oneof", 1, TRUE) >>
BuiltinTab ==
  [par |-> 0, imp |-> 0, ord |-> [i \in 1..10 |-> i],
   m |-> [s \in {BuiltinEnts[i].s : i \in 1..10} |->
            CHOOSE i \in 1..10 : BuiltinEnts[i].s = s]]

(* --------------------------------------------------------------------- types *)
TNul == [k |-> "nul"]
TE(id) == [k |-> "ent", id |-> id]
TInt == TE(EntInteger)   TDec == TE(EntDecimal)   TBool == TE(EntBoolean)
TStr == TE(EntString)    TMup == TE(EntMarkup)

\* Types are the same if they stem from the same declaration.  Array and union
\* types have no declaration: each place where one is written makes a new type.
SameT(a, b) == /\ a.k = b.k
               /\ IF a.k = "ent" THEN a.id = b.id
                  ELSE a.k = "nul" \/ a.u = b.u
IsNul(t)  == t.k = "nul"
IsNum(t)  == t.k = "ent" /\ t.id \in {EntInteger, EntDecimal}
IsInt(t)  == t.k = "ent" /\ t.id = EntInteger
IsDec(t)  == t.k = "ent" /\ t.id = EntDecimal
IsBool(t) == t.k = "ent" /\ t.id = EntBoolean
IsStr(t)  == t.k = "ent" /\ t.id \in {EntString, EntMarkup}
IsMup(t)  == t.k = "ent" /\ t.id = EntMarkup
IsArr(t)  == t.k = "arr"
IsUni(t)  == t.k = "uni"

(* --------------------------------------------------------------------- state *)
(* ents entities   tabs symbol tables   msgs messages, in order               *)
(* err  the construct being read is abandoned                                 *)
(* brk  a lexical error was met under error recovery                          *)
(* stop leaves a While loop                                                   *)
(* f file, tk its tokens, p index of the next one, rv result of the last read *)
(* pk package of the file, vis packages it imports, secs open sections        *)
(* lint, rec options      blk number of the current block of messages         *)
(* sick something went wrong in the present phase                             *)
(* tot  a bound was met beyond which the specification gives no answer        *)
Start(lint, rec) ==
  [ents |-> BuiltinEnts, tabs |-> <<BuiltinTab>>, msgs |-> <<>>, err |-> FALSE,
   brk |-> FALSE, stop |-> FALSE, f |-> 1, tk |-> <<>>, p |-> 1, rv |-> 0,
   pk |-> 0, vis |-> {}, secs |-> <<>>, lint |-> lint, rec |-> rec,
   blk |-> 0, sick |-> FALSE, tot |-> FALSE]

Bind(s, F(_)) == IF s.err THEN s ELSE F(s)
Ret(s, x) == [s EXCEPT !.rv = x]
\* Repeat Step until it stops or fails; every step consumes a token
While(s, Step(_)) ==
  LET r == FoldLeft(LAMBDA a, k : IF a.stop \/ a.err THEN a ELSE Step(a),
                    [s EXCEPT !.stop = FALSE],
                    [k \in 1..(Len(s.tk) - s.p + 3) |-> k])
  IN [r EXCEPT !.stop = FALSE]
Stop(s) == [s EXCEPT !.stop = TRUE]

Ent(s, id) == s.ents[id]
AddEnt(s, e) == [s EXCEPT !.ents = Append(@, e), !.rv = Len(s.ents) + 1]
NewTab(s, par, imp) ==
  [s EXCEPT !.tabs = Append(@, [par |-> par, imp |-> imp, ord |-> <<>>, m |-> <<>>]),
            !.rv = Len(s.tabs) + 1]

(* ------------------------------------------------------------------ messages *)
Msg(s, loc, sv, cat, tx) == [f |-> loc.f, l |-> loc.l, c |-> loc.c, sv |-> sv,
                             cat |-> cat, tx |-> tx, ex |-> <<>>, blk |-> s.blk, at |-> <<0, 0>>]
Say(s, m) == [s EXCEPT !.msgs = Append(@, m)]
Err(s, loc) == [Say(s, Msg(s, loc, "error", "", <<>>)) EXCEPT !.err = TRUE]
\* An error about something elsewhere, which says where that is
ErrSee(s, loc, there) ==
  [Say(s, [Msg(s, loc, "error", "", <<>>) EXCEPT !.at = <<there.f, there.l>>]) EXCEPT !.err = TRUE]
\* An error that does not abandon the construct
Note(s, loc) == Say(s, Msg(s, loc, "error", "nonfatal", <<>>))
Warn(s, loc) == Say(s, Msg(s, loc, "warning", "", <<>>))
Lint(s, loc, cat) == IF s.lint THEN Say(s, Msg(s, loc, "issue", cat, <<>>)) ELSE s

(* -------------------------------------------------------------- token cursor *)
HasNt(s) == s.p <= Len(s.tk)
Nt(s) == s.tk[s.p]
Ct(s) == s.tk[s.p - 1]
TLoc(s, t) == [f |-> s.f, l |-> t.l, c |-> t.c]
CtLoc(s) == TLoc(s, Ct(s))
NtOrCtLoc(s) == IF HasNt(s) THEN TLoc(s, Nt(s)) ELSE CtLoc(s)
Peek(s, k) == s.p <= Len(s.tk) /\ s.tk[s.p].k = k
PeekKw(s, v) == Peek(s, "KEYWORD") /\ s.tk[s.p].v = v
PeekOp(s, vs) == Peek(s, "OPERATOR") /\ s.tk[s.p].v \in vs

\* Look at the next token: text that is not a token is an error now
Adv(s) == IF s.p + 1 <= Len(s.tk) /\ s.tk[s.p + 1].k = "ERR"
          THEN [Err(s, TLoc(s, s.tk[s.p + 1])) EXCEPT !.brk = TRUE]
          ELSE [s EXCEPT !.p = @ + 1]
\* Where an unexpected token (or the end of the file) is reported
Unexpected(s) == IF HasNt(s) THEN Err(s, TLoc(s, Nt(s)))
                 ELSE IF s.p > 1 THEN Err(s, CtLoc(s))
                 ELSE Err(s, [f |-> s.f, l |-> 1, c |-> 1])
Match(s, k) == IF Peek(s, k) THEN Adv(s) ELSE Unexpected(s)
MatchKw(s, v) == IF PeekKw(s, v) THEN Adv(s) ELSE Unexpected(s)
MatchEof(s) == IF HasNt(s) THEN Err(s, TLoc(s, Nt(s))) ELSE s
OptKw(s, v) == IF PeekKw(s, v) THEN MatchKw(s, v) ELSE s

(* ------------------------------------------------------------- symbol tables *)
RECURSIVE Find(_, _, _)              \* first entity of that simplified name, or 0
Find(s, t, simp) ==
  LET T == s.tabs[t]
  IN IF simp \in DOMAIN T.m THEN T.m[simp]
     ELSE IF T.par # 0 THEN Find(s, T.par, simp)
     ELSE IF T.imp # 0 THEN Find(s, T.imp, simp)
     ELSE 0
HasName(s, t, tok) == LET id == Find(s, t, tok.s)
                       IN id # 0 /\ s.ents[id].n = tok.v
\* The entity a token names; a near miss is as unknown as any other name
Lookup(s, t, tok, Want(_)) ==
  LET id == Find(s, t, tok.s)
  IN IF id = 0 THEN Err(s, TLoc(s, tok))
     ELSE IF s.ents[id].n # tok.v \/ ~Want(s.ents[id]) THEN Err(s, TLoc(s, tok))
     ELSE Ret(s, id)

\* A scope is a sequence of tables, the innermost last
ScopeTab(s, sc, tok) ==              \* the table that decides
  LET C == {j \in 2..Len(sc) : HasName(s, sc[j], tok)}
  IN IF C = {} THEN sc[1] ELSE sc[CHOOSE j \in C : \A i \in C : i <= j]
ScopeLookup(s, sc, tok, Want(_)) == Lookup(s, ScopeTab(s, sc, tok), tok, Want)
ScopeHas(s, sc, tok) == \E j \in 1..Len(sc) : HasName(s, sc[j], tok)

\* Put entity id into table t, unless something there has the same name
Register(s, t, id) ==
  LET e == s.ents[id]
  IN IF Find(s, t, e.s) # 0 THEN ErrSee(s, e.l, s.ents[Find(s, t, e.s)].l)
     ELSE [s EXCEPT !.tabs[t].m = @ @@ (e.s :> id), !.tabs[t].ord = Append(@, id),
                    !.ents[id].reg = TRUE]

Whatever(e) == TRUE
IsPkg(e)  == e.k = "pkg"
IsType(e) == e.k \in {"bi", "enum", "tup", "rec"}
IsRec(e)  == e.k = "rec"
IsEnum(e) == e.k = "enum"
IsComp(e) == e.k = "comp"
IsLit(e)  == e.k = "lit"
IsObj(e)  == e.k = "obj"
IsComposite(e) == e.k \in {"tup", "rec"}
IsFun(e)  == e.k = "fn" \/ (e.k = "bi" /\ e.n \in {"Integer", "Decimal"})

DefaultScope(s) == IF s.pk = 0 THEN <<GlobalTab>> ELSE <<GlobalTab, s.ents[s.pk].tab>>
Visible(s, pkg) == pkg = s.pk \/ pkg \in s.vis

(* --------------------------------------------------------------- record types *)
IsRecT(s, t) == t.k = "ent" /\ s.ents[t.id].k = "rec"
IsTupT(s, t) == t.k = "ent" /\ s.ents[t.id].k = "tup"
IsEnumT(s, t) == t.k = "ent" /\ s.ents[t.id].k = "enum"
IsRefT(s, t) == IsUni(t) \/ IsRecT(s, t)

RECURSIVE Ancestors(_, _)            \* the type itself first
Ancestors(s, id) == IF id = 0 THEN <<>> ELSE <<id>> \o Ancestors(s, s.ents[id].par)
IsSub(s, id, of) == \E i \in 1..Len(Ancestors(s, id)) : Ancestors(s, id)[i] = of
Related(s, a, b) == IsSub(s, a, b) \/ IsSub(s, b, a)
Members(t) == IF IsUni(t) THEN t.ts ELSE <<t.id>>

OwnComps(s, id) == s.tabs[s.ents[id].tab].ord
RECURSIVE CodesLE(_, _)              \* order of names
CodesLE(a, b) == IF a = <<>> THEN TRUE
                 ELSE IF b = <<>> THEN FALSE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1]
                 ELSE CodesLE(Tail(a), Tail(b))
NamedBefore(s, a, b) == CodesLE(Codes(s.ents[a].s), Codes(s.ents[b].s))
\* Components in the order of their names
ByName(s, id) == LET cs == OwnComps(s, id)
                 IN IF Len(cs) <= 1 THEN cs
                    ELSE SortSeq(cs, LAMBDA a, b : a # b /\ NamedBefore(s, a, b))
RECURSIVE AllComps(_, _)             \* inherited components come first
AllComps(s, id) == IF s.ents[id].k = "rec" /\ s.ents[id].par # 0
                   THEN AllComps(s, s.ents[id].par) \o OwnComps(s, id)
                   ELSE OwnComps(s, id)

\* The type in the ancestry of id that freezes the component of that name, or 0
RECURSIVE Freezer(_, _, _)
Freezer(s, id, name) == IF id = 0 THEN 0
                        ELSE IF name \in DOMAIN s.ents[id].fro THEN id
                        ELSE Freezer(s, s.ents[id].par, name)
IsFrozen(s, id, name) == Freezer(s, id, name) # 0

(* What a union offers under a field name: in how many members it exists, the *)
(* first component found, and whether all members agree on its type.          *)
UnionField(s, t, name) ==
  LET Hits == SelectSeq([i \in 1..Len(t.ts) |->
                 LET cs == SelectSeq(AllComps(s, t.ts[i]), LAMBDA c : s.ents[c].n = name)
                 IN IF cs = <<>> THEN 0 ELSE cs[1]], LAMBDA c : c # 0)
  IN [n |-> Len(Hits),
      comp |-> IF Hits = <<>> THEN 0 ELSE Hits[1],
      agree |-> \A i \in 1..Len(Hits) : SameT(s.ents[Hits[i]].t, s.ents[Hits[1]].t)]

(* ---------------------------------------------------------------- expressions *)
(* An expression has a kind k, a location l and a type t.                     *)
(*  lit   a literal value x (see Eval)      null                              *)
(*  name  component or variable nm          fld  field nm of expression a     *)
(*  un    operator op on a                  bin  operator op on a and b       *)
(*  rng   a in b .. c                       oneof choices es                  *)
(*  cond  sequence of actions <<cond, value>> and else part a                 *)
(*  quan  universal or not, variable nm, source component src, predicate a    *)
(*  ref   reference to object tok of package pkg                              *)
(*  arr   elements es                       tup  field values fs by name      *)
MkLit(loc, t, x) == [k |-> "lit", l |-> loc, t |-> t, x |-> x, refs |-> <<>>]
MkNull(loc) == [k |-> "null", l |-> loc, t |-> TNul]
XNull == [k |-> "null"]
XB(b) == [k |-> "b", b |-> b]
XI(i) == [k |-> "i", i |-> i]
XQ(q) == [k |-> "q", q |-> q]
XS(s) == [k |-> "s", s |-> s]
XE(id) == [k |-> "e", e |-> id]
XR(id) == [k |-> "r", r |-> id]
XA(a) == [k |-> "a", a |-> a]
XT(t) == [k |-> "t", t |-> t]
=============================================================================
