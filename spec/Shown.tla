---------------------------------- MODULE Shown --------------------------------
(* How messages are shown in the detailed style: the source line, markers      *)
(* under the text that the message is about, the message, its explanation.     *)
(*                                                                             *)
(* A case has the names and texts of files, the messages, each with the file,  *)
(* line and column, what is said (tail) and the explanation (ex), whether      *)
(* explanations are wanted (info), and a prefix that is cut from file names.   *)
(* Messages are shown one per step; out is what has been written.              *)
EXTENDS Lexer, Json, IOUtils, TLC

FileCases == ndJsonDeserialize(IOEnv.TRLC_CASES)
VARIABLES job, toks, k, out
vars == <<job, toks, k, out>>

Gap == 32
Rep(c, n) == [i \in 1..n |-> c]
NoTabs(x) == [i \in 1..Len(x) |-> IF x[i] = 9 THEN Gap ELSE x[i]]
StartsWith(x, p) == Len(p) <= Len(x) /\ SubSeq(x, 1, Len(p)) = p

\* The index of a place, 0 if the text has no such place
RECURSIVE LineAt(_, _, _)
LineAt(tx, n, i) == IF n = 1 THEN i
                    ELSE IF i > Len(tx) THEN 0
                    ELSE LineAt(tx, IF tx[i] = NL THEN n - 1 ELSE n, i + 1)
LineEndAt(tx, i) == ScanLine(tx, i) - 1
Place(tx, l, c) == IF l = 0 \/ c = 0 \/ LineAt(tx, l, 1) = 0 THEN 0
                   ELSE LET b == LineAt(tx, l, 1)
                        IN IF b + c - 1 <= LineEndAt(tx, b) THEN b + c - 1 ELSE 0

\* How much is marked: the token, cut off at the end of its line; of names
\* within a string the name.  0: not determined (text that is no token)
Marked(tx, ts, i, lineEnd) ==
  LET at == {j \in 1..Len(ts) : ts[j].p <= i /\ i <= ts[j].e}
  IN IF at = {} THEN 0
     ELSE LET t == ts[CHOOSE j \in at : TRUE]
          IN IF t.k = "ERR" THEN 0
             ELSE IF t.p = i THEN (IF t.e < lineEnd THEN t.e ELSE lineEnd) - i + 1
             ELSE IF t.k = "STRING" /\ Alpha(tx[i]) /\ ~IdChar(tx[i - 1]) THEN ScanId(tx, i) - i
             ELSE 0

Number(n) == Codes(ToString(n))
Colon(x) == x \o <<58>>
\* What is written for one message; n as in Marked, -1: no source line is shown
Rendered(j, ts, m) ==
  LET f == j.files[m.f]
      tx == FileText(f.text)
      i == IF m.eof THEN 0 ELSE Place(tx, m.l, m.c)
      name == IF StartsWith(f.name, j.strip) THEN SubSeq(f.name, Len(j.strip) + 1, Len(f.name)) ELSE f.name
      where == Colon(Colon(name) \o Number(m.l))
      ex == IF j.info THEN Lines(m.ex) ELSE <<>>
  IN IF m.l = 0
     THEN [n |-> -1, line |-> <<>>, off |-> 0, msg |-> Colon(name) \o <<Gap>> \o m.tail, ex |-> ex]
     ELSE IF i = 0
     THEN [n |-> -1, line |-> <<>>, off |-> 0,
           msg |-> Colon(Colon(Colon(name) \o Number(m.l)) \o Number(m.c)) \o <<Gap>> \o m.tail, ex |-> ex]
     ELSE LET b == LineAt(tx, m.l, 1)
              e == LineEndAt(tx, b)
              line == SubSeq(tx, b, e)
              cut == Len(line) - Len(StripL(line))
          IN [n |-> Marked(tx, ts, i, e), line |-> NoTabs(StripL(line)), off |-> m.c - 1 - cut,
              msg |-> where \o <<Gap>> \o m.tail, ex |-> [x \in 1..Len(ex) |-> StripR(ex[x])]]

Init == /\ job \in ToSet(FileCases)
        /\ toks = TLCEval([f \in 1..Len(job.files) |-> LexAll(FileText(job.files[f].text))])
        /\ k = 1 /\ out = <<>>
Show == /\ k <= Len(job.msgs)
        /\ out' = Append(out, Rendered(job, toks[job.msgs[k].f], job.msgs[k]))
        /\ k' = k + 1 /\ UNCHANGED <<job, toks>>
Done == /\ k = Len(job.msgs) + 1
        /\ PrintT(ToJson([id |-> job.id, out |-> out]))
        /\ k' = k + 1 /\ UNCHANGED <<job, toks, out>>
Next == Show \/ Done
Spec == Init /\ [][Next]_vars
View == <<job.id, k>>

(* ----------------------------------------------------------------- properties *)
\* What is marked stands in the line that is shown, and it is the token
Inside == \A i \in 1..Len(out) :
            LET m == job.msgs[i]  r == out[i]
                tx == FileText(job.files[m.f].text)
            IN r.n > 0 => /\ r.off >= 0 /\ r.off + r.n <= Len(r.line)
                          /\ SubSeq(r.line, r.off + 1, r.off + r.n)
                               = NoTabs(SubSeq(tx, Place(tx, m.l, m.c), Place(tx, m.l, m.c) + r.n - 1))
\* One message after the other, none left out
InTurn == Len(out) = (IF k > Len(job.msgs) THEN Len(job.msgs) ELSE k - 1)
Inv == Inside /\ InTurn
=============================================================================
