--------------------------------- MODULE LexRun -------------------------------
(* The lexer as a transition system, one token or comment per step, with the  *)
(* declarative meaning of its result as invariants.  Runs the texts of a file *)
(* and prints the tokens of each.                                             *)
EXTENDS Lexer, Json, IOUtils, TLC

FileCases == ndJsonDeserialize(IOEnv.TRLC_CASES)
VARIABLES id, tx, s, ph
vars == <<id, tx, s, ph>>
View == <<id, ph, IF ph = "lex" THEN s.i ELSE 0>>

\* Where the last character of a token stands
EndOf(t) == LET z == Move(tx, [i |-> t.p, l |-> t.l, b |-> t.p - t.c + 1], t.e) IN <<z.l, z.i - z.b + 1>>

Init == id = 0 /\ tx = <<>> /\ s = [i |-> 1, l |-> 1, b |-> 1, a |-> <<>>] /\ ph = "load"
Load == /\ ph = "load"
        /\ \E c \in ToSet(FileCases) : id' = c.id /\ tx' = c.text
        /\ ph' = "lex" /\ UNCHANGED s
Token == /\ ph = "lex" /\ s.i <= Len(tx)
         /\ s' = LexStep(tx, s, TRUE)
         /\ UNCHANGED <<id, tx, ph>>
Done == /\ ph = "lex" /\ s.i > Len(tx)
        /\ PrintT(ToJson([id |-> id, toks |-> [i \in 1..Len(s.a) |->
              LET t == s.a[i] IN [k |-> t.k, l |-> t.l, c |-> t.c, p |-> t.p, e |-> t.e, x |-> t.x,
                                 last |-> IF t.k \in {"ERR", "COMMENT"} THEN <<0, 0>> ELSE EndOf(t)]]]))
        /\ ph' = "done" /\ UNCHANGED <<id, tx, s>>
Next == Load \/ Token \/ Done
Spec == Init /\ [][Next]_vars

(* ----------------------------------------------------------------- properties *)
Good == SelectSeq(s.a, LAMBDA t : t.k # "ERR")
\* Tokens do not overlap, and only blank space is between them
Partition ==
  \A i \in 1..Len(s.a) :
    LET from == IF i = 1 THEN 1 ELSE s.a[i - 1].e + 1
    IN /\ s.a[i].p <= s.a[i].e \/ s.a[i].k = "ERR"
       /\ from <= s.a[i].p
       /\ \A j \in from..(s.a[i].p - 1) : Space(tx[j])
       /\ ~Space(tx[s.a[i].p])
\* Lines are counted by line feeds, columns from the last one
Positions ==
  \A i \in 1..Len(s.a) :
    LET t == s.a[i]
        breaks == {j \in 1..(t.p - 1) : tx[j] = NL}
    IN /\ t.l = 1 + Cardinality(breaks)
       /\ t.c = t.p - (IF breaks = {} THEN 0 ELSE CHOOSE j \in breaks : \A k \in breaks : k <= j)
\* The last character is in the same line unless there are line ends in between
Ends ==
  \A i \in 1..Len(Good) :
    LET t == Good[i]
        breaks == {j \in t.p..(t.e - 1) : tx[j] = NL}
    IN /\ EndOf(t)[1] = t.l + Cardinality(breaks)
       /\ breaks = {} => EndOf(t)[2] = t.c + t.e - t.p
       /\ breaks # {} => EndOf(t)[2] \in 1..(t.e - t.p)
\* An error is the last thing reported
ErrorLast == \A i \in 1..Len(s.a) : s.a[i].k = "ERR" => i = Len(s.a)
\* Every token is the longest possible: extended by the next character it is
\* not a token of the language
Longest ==
  \A i \in 1..Len(Good) :
    LET t == Good[i]
        more == SubSeq(tx, t.p, t.e + 1)
    IN t.e < Len(tx) /\ t.k # "COMMENT" =>
         LET r == Raw(more, 1) IN r.k = "ERR" \/ r.n <= Len(more)
\* Read on its own, a token is the same token
Alone ==
  \A i \in 1..Len(Good) :
    LET t == Good[i]
        r == LexStep(SubSeq(tx, t.p, t.e), [i |-> 1, l |-> 1, b |-> 1, a |-> <<>>], TRUE)
    IN Len(r.a) = 1 /\ r.a[1].k = t.k /\ r.a[1].x = t.x
Inv == ph = "lex" => Partition /\ Positions /\ Ends /\ ErrorLast /\ Longest /\ Alone
=============================================================================
