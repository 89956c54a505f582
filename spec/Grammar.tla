-------------------------------- MODULE Grammar -------------------------------
(* The grammar of the language manual as data, and the machine that reads     *)
(* token sequences by it: its state is the set of all ways in which what has  *)
(* been read can be completed, each a sequence of symbols still to come.  A   *)
(* token that fits none of them cannot continue any sentence.                 *)
(*                                                                            *)
(* Repetitions of the manual's notation are written as recursion to the right *)
(* (names ending in s or Rest), and common beginnings are written once.       *)
(* Where the manual's productions and its own examples are at odds, the       *)
(* examples are followed: Boolean values, and one pair of parentheses around  *)
(* quantified expressions.  Lists with a comma before the closing bracket are *)
(* no sentences; "EXTRA" marks where they are read all the same.              *)
EXTENDS Lexer, TLC

Prod == [
  RslFile   |-> << <<"Preamble", "RslItems">> >>,
  TrlcFile  |-> << <<"Preamble", "Entries">> >>,
  Preamble  |-> << <<"package", "IDENTIFIER", "Imports">> >>,
  Imports   |-> << <<>>, <<"import", "IDENTIFIER", "Imports">> >>,
  RslItems  |-> << <<>>, <<"RslItem", "RslItems">> >>,
  RslItem   |-> << <<"Enum">>, <<"Tuple">>, <<"Record">>, <<"Checks">> >>,
  DName     |-> << <<"IDENTIFIER">>, <<"IDENTIFIER", "STRING">> >>,
  QName     |-> << <<"IDENTIFIER">>, <<"IDENTIFIER", "DOT", "IDENTIFIER">> >>,
  Enum      |-> << <<"enum", "DName", "C_BRA", "Literals", "C_KET">> >>,
  Literals  |-> << <<>>, <<"DName", "Literals">> >>,
  Tuple     |-> << <<"tuple", "DName", "C_BRA", "Field", "Fields", "C_KET">> >>,
  Fields    |-> << <<>>, <<"Field", "Fields">>, <<"separator", "SepSymbol", "Field", "Fields">> >>,
  Field     |-> << <<"DName", "AnyType">>, <<"DName", "optional", "AnyType">> >>,
  AnyType   |-> << <<"QName">>, <<"Union">> >>,
  Union     |-> << <<"S_BRA", "QName", "UnionRest", "S_KET">> >>,
  UnionRest |-> << <<>>, <<"COMMA", "QName", "UnionRest">> >>,
  SepSymbol |-> << <<"IDENTIFIER">>, <<"AT">>, <<"COLON">>, <<"SEMICOLON">> >>,
  Record    |-> << <<"Qualifier", "type", "DName", "Extends", "C_BRA", "Members", "C_KET">> >>,
  Qualifier |-> << <<>>, <<"abstract">>, <<"final">> >>,
  Extends   |-> << <<>>, <<"extends", "QName">> >>,
  Members   |-> << <<>>, <<"Field", "Bounds", "Members">>, <<"freeze", "IDENTIFIER", "ASSIGN", "Value", "Members">> >>,
  Bounds    |-> << <<>>, <<"S_BRA", "INTEGER", "RANGE", "UpperBound", "S_KET">> >>,
  UpperBound |-> << <<"*">>, <<"INTEGER">> >>,
  Checks    |-> << <<"checks", "IDENTIFIER", "C_BRA", "CheckDecls", "C_KET">> >>,
  CheckDecls |-> << <<>>, <<"Expr", "COMMA", "Severity", "STRING", "Details", "CheckDecls">> >>,
  Severity  |-> << <<>>, <<"warning">>, <<"error">>, <<"fatal">> >>,
  Details   |-> << <<"Anchor">>, <<"COMMA", "STRING", "Anchor">> >>,
  Anchor    |-> << <<>>, <<"COMMA", "IDENTIFIER">> >>,
  Expr      |-> << <<"Relation", "ExprRest">> >>,
  ExprRest  |-> << <<>>, <<"and", "Relation", "Ands">>, <<"or", "Relation", "Ors">>,
                   <<"xor", "Relation">>, <<"implies", "Relation">> >>,
  Ands      |-> << <<>>, <<"and", "Relation", "Ands">> >>,
  Ors       |-> << <<>>, <<"or", "Relation", "Ors">> >>,
  Relation  |-> << <<"Simple", "RelRest">> >>,
  RelRest   |-> << <<>>, <<"Comparison", "Simple">>, <<"in", "Simple", "RangeRest">>,
                   <<"not", "in", "Simple", "RangeRest">> >>,
  Comparison |-> << <<"==">>, <<"!=">>, <<"<">>, <<"<=">>, <<">">>, <<">=">> >>,
  RangeRest |-> << <<>>, <<"RANGE", "Simple">> >>,
  Simple    |-> << <<"Term", "Terms">>, <<"Adding", "Term", "Terms">> >>,
  Terms     |-> << <<>>, <<"Adding", "Term", "Terms">> >>,
  Adding    |-> << <<"+">>, <<"-">> >>,
  Term      |-> << <<"Factor", "Factors">> >>,
  Factors   |-> << <<>>, <<"Multiplying", "Factor", "Factors">> >>,
  Multiplying |-> << <<"*">>, <<"/">>, <<"%">> >>,
  Factor    |-> << <<"Primary", "Power">>, <<"not", "Primary">>, <<"abs", "Primary">> >>,
  Power     |-> << <<>>, <<"**", "Primary">> >>,
  Primary   |-> << <<"INTEGER">>, <<"DECIMAL">>, <<"STRING">>, <<"true">>, <<"false">>, <<"null">>, <<"Name">>,
                   <<"BRA", "Expr", "KET">>, <<"BRA", "Quantified", "KET">>, <<"BRA", "Conditional", "KET">> >>,
  Name      |-> << <<"QName", "NameRest">> >>,
  NameRest  |-> << <<>>, <<"DOT", "IDENTIFIER", "NameRest">>, <<"S_BRA", "Expr", "S_KET", "NameRest">>,
                   <<"BRA", "Expr", "Params", "KET", "NameRest">>,
                   <<"BRA", "EXTRA", "KET", "NameRest">> >>,
  Params    |-> << <<>>, <<"COMMA", "Expr", "Params">>, <<"COMMA", "EXTRA">> >>,
  Quantified |-> << <<"Quantifier", "IDENTIFIER", "in", "IDENTIFIER", "ARROW", "Expr">> >>,
  Quantifier |-> << <<"forall">>, <<"exists">> >>,
  Conditional |-> << <<"if", "Expr", "then", "Expr", "Elsifs", "else", "Expr">> >>,
  Elsifs    |-> << <<>>, <<"elsif", "Expr", "then", "Expr", "Elsifs">> >>,
  Entries   |-> << <<>>, <<"Entry", "Entries">> >>,
  Entry     |-> << <<"section", "STRING", "C_BRA", "Entries", "C_KET">>,
                   <<"QName", "IDENTIFIER", "C_BRA", "Assocs", "C_KET">> >>,
  Assocs    |-> << <<>>, <<"IDENTIFIER", "ASSIGN", "Value", "Assocs">> >>,
  Value     |-> << <<"Atom", "Segments">> >>,
  Segments  |-> << <<>>, <<"SepSymbol", "Atom", "Segments">> >>,
  Atom      |-> << <<"INTEGER">>, <<"DECIMAL">>, <<"Adding", "INTEGER">>, <<"Adding", "DECIMAL">>, <<"STRING">>,
                   <<"true">>, <<"false">>, <<"QName">>, <<"QName", "DOT", "IDENTIFIER">>,
                   <<"S_BRA", "S_KET">>, <<"S_BRA", "Value", "Elements", "S_KET">>,
                   <<"BRA", "Value", "Values", "KET">> >>,
  Elements  |-> << <<>>, <<"COMMA", "Value", "Elements">>, <<"COMMA", "EXTRA">> >>,
  Values    |-> << <<>>, <<"COMMA", "Value", "Values">> >>
]
Nonterms == DOMAIN Prod

(* ------------------------------------------------- what a symbol may start with *)
NoStart == [n \in Nonterms |-> [eps |-> FALSE, ts |-> {}]]
StartSeq(m, q) ==                    \* of a sequence of symbols
  FoldLeft(LAMBDA a, x :
    IF ~a.eps THEN a
    ELSE IF x \in Nonterms THEN [eps |-> m[x].eps, ts |-> a.ts \cup m[x].ts]
    ELSE IF x = "EXTRA" THEN a
    ELSE [eps |-> FALSE, ts |-> a.ts \cup {x}],
    [eps |-> TRUE, ts |-> {}], q)
Wider(m) == TLCEval([n \in Nonterms |->
  LET rs == {StartSeq(m, Prod[n][i]) : i \in 1..Len(Prod[n])}
  IN [eps |-> \E r \in rs : r.eps, ts |-> UNION {r.ts : r \in rs}]])
Starts == FoldLeft(LAMBDA m, i : Wider(m), NoStart, [i \in 1..20 |-> i])
ASSUME Starts = Wider(Starts)

(* ------------------------------------------------------------------ the machine *)
(* A way to go on: [q |-> symbols to come, x |-> has an EXTRA been used?]     *)
Begin(n) == {[q |-> <<n>>, x |-> FALSE]}
\* By[h][t]: the productions of h that may begin with t, or with nothing
Terminals == TLCEval((UNION {Starts[n].ts : n \in Nonterms} \cup
                      UNION {UNION {ToSet(Prod[n][i]) : i \in 1..Len(Prod[n])} : n \in Nonterms}) \ Nonterms)
By == TLCEval([h \in Nonterms |-> TLCEval([t \in Terminals |-> TLCEval(
  {q \in ToSet(Prod[h]) : LET s == StartSeq(Starts, q) IN s.eps \/ t \in s.ts})])])
RECURSIVE Ways(_, _)                 \* what remains after reading terminal t
Ways(w, t) ==
  IF w.q = <<>> THEN {}
  ELSE LET h == Head(w.q)  r == Tail(w.q)
       IN IF h = "EXTRA" THEN Ways([q |-> r, x |-> TRUE], t)
          ELSE IF h \notin Nonterms THEN IF h = t THEN {[w EXCEPT !.q = r]} ELSE {}
          ELSE IF t \notin Terminals THEN {}
          ELSE UNION {Ways([w EXCEPT !.q = q \o r], t) : q \in By[h][t]}
Read(ws, t) == UNION {Ways(w, t) : w \in ws}
Complete(ws) == \E w \in ws : StartSeq(Starts, w.q).eps
Strict(ws) == {w \in ws : ~w.x}
Terminal(tok) == IF tok.k \in {"KEYWORD", "OPERATOR"} THEN tok.v ELSE tok.k
=============================================================================
