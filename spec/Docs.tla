---------------------------------- MODULE Docs --------------------------------
(* Documentation with requirements: documents define and refer to             *)
(* requirements, and are built again and again while they change.             *)
(*                                                                            *)
(* A case is [id, docs, rounds]: the names of the documents, and what happens *)
(* between builds, each round being [files, fresh, par]: for every document   *)
(* [there, own] the sequence of what it has now, whether all that is known    *)
(* from earlier builds is thrown away, and whether documents are read side by *)
(* side.  What a document has is [k, n, t, ln]: a definition ("def") of n, a  *)
(* reference ("ref") to n shown as t, or just the text t ("plain"), written   *)
(* on line ln (0 if that is open).                                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, TLCExt, Json, IOUtils

DocCases == ndJsonDeserialize(IOEnv.TRLC_CASES)
VARIABLES job,     \* the case
          r,       \* the round
          src,     \* the documents as they are
          read,    \* the documents as they were read: d -> what it has, if known
          reg,     \* the definitions known: [d, i, n]
          todo,    \* documents to read
          ph       \* "edit", "drop", "read", "write"
vars == <<job, r, src, read, reg, todo, ph>>

Round == job.rounds[r]
All == 1..Len(job.docs)
There == {d \in All : src[d].there}
Defs(d, own) == {[d |-> d, i |-> i, n |-> own[i].n] : i \in {j \in 1..Len(own) : own[j].k = "def"}}

Init == /\ \E c \in ToSet(DocCases) : job = c
        /\ r = 0 /\ src = <<>> /\ read = <<>> /\ reg = {} /\ todo = {} /\ ph = "edit"

Edit == /\ ph = "edit" /\ r < Len(job.rounds)
        /\ r' = r + 1 /\ src' = job.rounds[r + 1].files
        /\ (IF job.rounds[r + 1].fresh THEN read' = <<>> /\ reg' = {} ELSE UNCHANGED <<read, reg>>)
        /\ ph' = "drop" /\ UNCHANGED <<job, todo>>
\* What is known of documents that went away or changed is forgotten
Drop == /\ ph = "drop"
        /\ todo' = {d \in There : d \notin DOMAIN read \/ read[d] # src[d].own}
        /\ LET keep == (DOMAIN read \cap There) \ todo'
           IN /\ reg' = {x \in reg : x.d \in keep}
              /\ read' = [d \in keep |-> read[d]]
        /\ ph' = "read" /\ UNCHANGED <<job, r, src>>
\* One document is read: the next one, or side by side any
Read == /\ ph = "read" /\ todo # {}
        /\ \E d \in todo :
             /\ Round.par \/ \A x \in todo : d <= x
             /\ reg' = reg \cup Defs(d, src[d].own)
             /\ read' = [x \in DOMAIN read \cup {d} |-> IF x = d THEN src[d].own ELSE read[x]]
             /\ todo' = todo \ {d}
        /\ UNCHANGED <<job, r, src, ph>>
Done == ph = "read" /\ todo = {} /\ ph' = "write" /\ UNCHANGED <<job, r, src, read, reg, todo>>

(* ------------------------------------------------------------------- writing *)
Suffix == <<46, 114, 115, 116>>                             \* ".rst"
Sources == <<95, 115, 111, 117, 114, 99, 101, 115, 47>>     \* "_sources/"
\* How a document is named in messages: from its sources directory on
Pretty(x) ==
  LET at == {i \in 1..(Len(x) - 8) : SubSeq(x, i, i + 8) = Sources}
      y == IF at = {} THEN x ELSE SubSeq(x, 9 + CHOOSE i \in at : \A j \in at : i <= j, Len(x))
  IN IF Len(y) >= 4 /\ SubSeq(y, Len(y) - 3, Len(y)) = Suffix THEN y ELSE y \o Suffix

Targets(n) == {x \in reg : x.n = n}
Shown(own, i) ==
  LET x == own[i]
      m == Targets(x.n)
  IN [k |-> x.k, t |-> x.t, ln |-> x.ln, n |-> x.n, many |-> IF x.k = "ref" THEN Cardinality(m) ELSE 0,
      to |-> IF x.k = "ref" /\ Cardinality(m) = 1 THEN (CHOOSE y \in m : TRUE).d ELSE 0]

\* Names in the order of their characters
RECURSIVE Before(_, _, _)
Before(x, y, i) == IF i > Len(x) THEN i <= Len(y)
                   ELSE IF i > Len(y) THEN FALSE
                   ELSE IF x[i] # y[i] THEN x[i] < y[i] ELSE Before(x, y, i + 1)
First(x, y) == IF x.n # y.n THEN Before(x.n, y.n, 1) ELSE IF x.d # y.d THEN x.d < y.d ELSE x.i < y.i
\* The letter a name is listed under, "?" if it does not begin with a letter
Letter(n) == LET c == n[1]
             IN IF c \in 97..122 \/ c \in 224..246 \/ c \in 248..254 THEN c - 32
                ELSE IF c \in 65..90 \/ c \in 192..214 \/ c \in 216..222 THEN c ELSE 63
Index == LET ls == SetToSortSeq({Letter(x.n) : x \in reg}, <)
         IN [i \in 1..Len(ls) |-> [of |-> ls[i], has |->
              LET es == SetToSortSeq({x \in reg : Letter(x.n) = ls[i]}, First)
              IN [j \in 1..Len(es) |-> <<es[j].n, es[j].d>>]]]

Report == [id |-> job.id, round |-> r,
           docs |-> [d \in All |-> IF src[d].there THEN [i \in 1..Len(src[d].own) |-> Shown(src[d].own, i)] ELSE <<>>],
           names |-> [d \in All |-> Pretty(job.docs[d])],
           reg |-> [d \in All |-> LET es == SetToSortSeq({x \in reg : x.d = d}, LAMBDA x, y : x.i < y.i)
                                  IN [j \in 1..Len(es) |-> es[j].n]],
           index |-> Index]
Write == /\ ph = "write" /\ PrintT(ToJson(Report))
         /\ ph' = "edit" /\ UNCHANGED <<job, r, src, read, reg, todo>>

Next == Edit \/ Drop \/ Read \/ Done \/ Write
DocSpec == Init /\ [][Next]_vars

(* ----------------------------------------------------------------- properties *)
\* Whatever happened before, exactly what the documents say now is known
Truthful == ph = "write" => reg = UNION {Defs(d, src[d].own) : d \in There}
\* A reference leads somewhere if there is one such place, and then there
Leads == ph = "write" =>
  \A d \in There : \A i \in 1..Len(src[d].own) :
    src[d].own[i].k = "ref" =>
      LET at == {<<e, j>> : e \in There, j \in 1..9}
          def == {x \in at : x[2] <= Len(src[x[1]].own) /\ src[x[1]].own[x[2]].k = "def"
                             /\ src[x[1]].own[x[2]].n = src[d].own[i].n}
          s == Shown(src[d].own, i)
      IN IF \E x \in def : def = {x} THEN s.to = (CHOOSE x \in def : TRUE)[1] ELSE s.to = 0
\* The index lists every definition once
Listed == ph = "write" =>
  FoldSeq(LAMBDA g, n : n + Len(g.has), 0, Index) = Cardinality(reg)
=============================================================================
