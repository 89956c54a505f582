------------------------------- MODULE GrammarGen ------------------------------
(* All beginnings of sentences up to a length: from the ways to go on after a *)
(* given text, all further tokens of an alphabet that fit.                    *)
(* A row has: id, kind, text (what comes first), alpha (terminals), n.        *)
EXTENDS Grammar, Json, IOUtils

FileCases == ndJsonDeserialize(IOEnv.TRLC_CASES)
VARIABLES job, ws, w
vars == <<job, ws, w>>
After(c) ==
  LET tk == LexText(FileText(c.text))
  IN FoldLeft(LAMBDA a, t : Read(a, Terminal(t)), Begin(IF c.kind = "rsl" THEN "RslFile" ELSE "TrlcFile"), tk)
Init == \E c \in ToSet(FileCases) : job = [id |-> c.id, n |-> c.n, alpha |-> c.alpha] /\ ws = Strict(After(c)) /\ w = <<>>
More(k) == /\ Len(w) < job.n
           /\ Strict(Read(ws, job.alpha[k])) # {}
           /\ ws' = Strict(Read(ws, job.alpha[k])) /\ w' = Append(w, k) /\ UNCHANGED job
Next == \E k \in 1..Len(job.alpha) : More(k)
Spec == Init /\ [][Next]_vars
Show == PrintT(ToJson([id |-> job.id, w |-> w, fin |-> Complete(ws), q |-> SetToSeq({SubSeq(x.q, 1, IF Len(x.q) < 3 THEN Len(x.q) ELSE 3) : x \in ws})]))
=============================================================================
