------------------------------- MODULE GrammarRun ------------------------------
(* Reads the files of cases by the grammar and prints whether they are        *)
(* sentences, or else where that is certain not to be so.                     *)
EXTENDS Grammar, Json, IOUtils

FileCases == ndJsonDeserialize(IOEnv.TRLC_CASES)
VARIABLES job, tk, ph
vars == <<job, tk, ph>>
View == <<job, ph>>

Init == job \in 1..Len(FileCases) /\ tk = <<>> /\ ph = "load"
Load == LET c == FileCases[job]
        IN /\ ph = "load" /\ ph' = "read" /\ UNCHANGED job
           /\ tk' = IF Undecodable(c.text) THEN NoText ELSE LexText(FileText(c.text))
\* Reads from token i on.  slip: the first token only readable by what is no
\* part of the grammar, if any.
At_(j) == IF j > Len(tk) \/ j = 0 THEN <<0, 0>> ELSE <<tk[j].l, tk[j].c>>
Said(res, i, slip) == [id |-> FileCases[job].id, res |-> res, at |-> At_(i), slip |-> At_(slip), n |-> Len(tk)]
RECURSIVE From(_, _, _)
From(ws, i, slip) ==
  IF i > Len(tk)
  THEN Said(IF Complete(Strict(ws)) THEN "yes" ELSE IF Complete(ws) THEN "extra" ELSE "more", i, slip)
  ELSE LET next == TLCEval(Read(ws, Terminal(tk[i])))
       IN IF next = {} THEN Said(IF tk[i].k = "ERR" THEN "lexer" ELSE "no", i, slip)
          ELSE From(next, i + 1, IF slip = 0 /\ Strict(next) = {} THEN i ELSE slip)
Judge == /\ ph = "read" /\ ph' = "done" /\ tk' = <<>> /\ UNCHANGED job
         /\ PrintT(ToJson(From(Begin(IF FileCases[job].kind = "rsl" THEN "RslFile" ELSE "TrlcFile"), 1, 0)))
Spec == Init /\ [][Load \/ Judge]_vars
=============================================================================
