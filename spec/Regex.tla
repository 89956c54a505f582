--------------------------------- MODULE Regex --------------------------------
(* Regular expressions as used by the builtin function matches: whether some  *)
(* prefix of a text belongs to the language of a pattern.                     *)
(*                                                                            *)
(* Covered: characters, dot, classes with ranges and negation, the escapes    *)
(* \d \w \s \D \W \S \n \t and escaped punctuation, groups (also (?:..)),     *)
(* alternatives, anchors ^ and $, and the repetitions * + ? {m} {m,} {,n}     *)
(* {m,n} with an optional lazy mark (which has no influence on whether a      *)
(* prefix matches).  A pattern is "ok", "bad" (illegal) or "open" (outside    *)
(* this fragment: the specification gives no answer).                         *)
(*                                                                            *)
(* Patterns and texts are sequences of code points.                           *)
EXTENDS Lexer

\* Abstract syntax.  Every node has a status st; o, the next index.
RBad(i) == [st |-> "bad", o |-> i, r |-> [k |-> "eps"]]
ROpen(i) == [st |-> "open", o |-> i, r |-> [k |-> "eps"]]
ROk(i, r) == [st |-> "ok", o |-> i, r |-> r]

WordSet == {c \in 0..127 : IdChar(c)}
DigSet == 48..57
SpaSet == {9, 10, 11, 12, 13, 28, 29, 30, 31, 32}
AllSet == 0..127
\* The characters an escape stands for; {} if it is outside the fragment
EscSet(c) == CASE c = 100 -> DigSet [] c = 119 -> WordSet [] c = 115 -> SpaSet
               [] c = 68 -> AllSet \ DigSet [] c = 87 -> AllSet \ WordSet
               [] c = 83 -> AllSet \ SpaSet [] c = 110 -> {10} [] c = 116 -> {9}
               [] OTHER -> IF c = 0 \/ Alnum(c) \/ c > 127 THEN {} ELSE {c}
EscIsSet(c) == c \in {100, 119, 115, 68, 87, 83}

RECURSIVE ClassItems(_, _, _, _)     \* [st, o, s: set]
ClassItems(p, i, first, acc) ==
  LET c == At(p, i)
      \* one class member: [st, o, s, one]
      Mem(j) == LET d == At(p, j)
                IN IF d = 0 THEN [st |-> "bad", o |-> j, s |-> {}, one |-> FALSE]
                   ELSE IF d = 92
                   THEN LET e == At(p, j + 1)
                        IN IF e = 0 THEN [st |-> "bad", o |-> j, s |-> {}, one |-> FALSE]
                           ELSE IF EscSet(e) = {} THEN [st |-> "open", o |-> j, s |-> {}, one |-> FALSE]
                           ELSE [st |-> "ok", o |-> j + 2, s |-> EscSet(e), one |-> ~EscIsSet(e)]
                   ELSE IF d = 91 \/ (d \in {38, 124, 126, 45} /\ At(p, j + 1) = d)
                        THEN [st |-> "open", o |-> j, s |-> {}, one |-> FALSE]
                   ELSE [st |-> "ok", o |-> j + 1, s |-> {d}, one |-> TRUE]
  IN IF c = 0 THEN [st |-> "bad", o |-> i, s |-> acc]
     ELSE IF c = 93 /\ ~first THEN [st |-> "ok", o |-> i + 1, s |-> acc]
     ELSE LET m == Mem(i)
          IN IF m.st # "ok" THEN [st |-> m.st, o |-> m.o, s |-> acc]
             ELSE IF At(p, m.o) = 45 /\ At(p, m.o + 1) \notin {0, 93}
             THEN LET h == Mem(m.o + 1)
                  IN IF h.st # "ok" THEN [st |-> h.st, o |-> h.o, s |-> acc]
                     ELSE IF ~m.one \/ ~h.one THEN [st |-> "bad", o |-> h.o, s |-> acc]
                     ELSE LET lo == CHOOSE x \in m.s : TRUE  hi == CHOOSE x \in h.s : TRUE
                          IN IF lo > hi THEN [st |-> "bad", o |-> h.o, s |-> acc]
                             ELSE ClassItems(p, h.o, FALSE, acc \cup (lo..hi))
             ELSE IF At(p, m.o) = 45 /\ At(p, m.o + 1) = 0
                  THEN [st |-> "bad", o |-> m.o, s |-> acc]
             ELSE ClassItems(p, m.o, FALSE, acc \cup m.s)

RECURSIVE RNat(_, _, _)              \* digits: [o, v, any]
RNat(p, i, v) == IF Digit(At(p, i)) /\ v < 1000 THEN RNat(p, i + 1, 10 * v + At(p, i) - 48)
                 ELSE [o |-> i, v |-> v]
\* A counted repetition at i (an opening brace): [is, o, lo, hi], hi = -1: none
Counted(p, i) ==
  LET a == RNat(p, i + 1, 0)
      b == RNat(p, a.o + 1, 0)
      No == [is |-> FALSE, o |-> i, lo |-> 0, hi |-> 0]
  IN IF At(p, a.o) = 125
     THEN IF a.o = i + 1 THEN No ELSE [is |-> TRUE, o |-> a.o + 1, lo |-> a.v, hi |-> a.v]
     ELSE IF At(p, a.o) = 44 /\ At(p, b.o) = 125
          THEN [is |-> TRUE, o |-> b.o + 1, lo |-> a.v,
                hi |-> IF b.o = a.o + 1 THEN -1 ELSE b.v]
     ELSE No

RECURSIVE RAlt(_, _, _), RSeq(_, _, _, _), RAtom(_, _, _)
RAtom(p, i, dep) ==
  LET c == At(p, i)
  IN CASE c = 40 -> IF At(p, i + 1) = 63 /\ At(p, i + 2) # 58 THEN ROpen(i)
                    ELSE LET g == RAlt(p, IF At(p, i + 1) = 63 THEN i + 3 ELSE i + 1, dep + 1)
                         IN IF g.st # "ok" THEN g
                            ELSE IF At(p, g.o) # 41 THEN RBad(g.o)
                            ELSE ROk(g.o + 1, g.r)
       [] c = 91 -> LET neg == At(p, i + 1) = 94
                        m == ClassItems(p, IF neg THEN i + 2 ELSE i + 1, TRUE, {})
                    IN [st |-> m.st, o |-> m.o,
                        r |-> [k |-> "set", s |-> m.s, neg |-> neg]]
       [] c = 46 -> ROk(i + 1, [k |-> "set", s |-> {10}, neg |-> TRUE])
       [] c = 94 -> ROk(i + 1, [k |-> "bol"])
       [] c = 36 -> ROk(i + 1, [k |-> "eol"])
       [] c = 92 -> LET e == At(p, i + 1)
                    IN IF e = 0 THEN RBad(i)
                       ELSE IF EscSet(e) = {} THEN ROpen(i)
                       ELSE ROk(i + 2, [k |-> "set", s |-> EscSet(e), neg |-> FALSE])
       [] OTHER -> ROk(i + 1, [k |-> "set", s |-> {c}, neg |-> FALSE])
RSeq(p, i, dep, acc) ==
  LET c == At(p, i)
  IN IF i > Len(p) \/ c = 124 \/ (c = 41 /\ dep > 0) THEN ROk(i, acc)
     ELSE IF c = 41 THEN RBad(i)
     ELSE IF c \in {42, 43, 63} \/ (c = 123 /\ Counted(p, i).is) THEN RBad(i)
     ELSE LET a == RAtom(p, i, dep)
          IN IF a.st # "ok" THEN a
             ELSE LET q == At(p, a.o)
                      cn == Counted(p, a.o)
                      rep == q \in {42, 43, 63} \/ (q = 123 /\ cn.is)
                      lo == IF q = 123 THEN cn.lo ELSE IF q = 43 THEN 1 ELSE 0
                      hi == IF q = 123 THEN cn.hi ELSE IF q = 63 THEN 1 ELSE -1
                      o1 == IF q = 123 THEN cn.o ELSE a.o + 1
                      nx == At(p, o1)
                  IN IF ~rep THEN RSeq(p, a.o, dep, [k |-> "seq", a |-> acc, b |-> a.r])
                     ELSE IF a.r.k \in {"bol", "eol"} \/ (hi >= 0 /\ lo > hi) THEN RBad(a.o)
                     ELSE IF nx = 43 THEN ROpen(o1)              \* possessive
                     ELSE LET o2 == IF nx = 63 THEN o1 + 1 ELSE o1
                          IN IF At(p, o2) \in {42, 43, 63} \/ (At(p, o2) = 123 /\ Counted(p, o2).is)
                             THEN RBad(o2)
                             ELSE RSeq(p, o2, dep,
                                       [k |-> "seq", a |-> acc,
                                        b |-> [k |-> "rep", a |-> a.r, lo |-> lo, hi |-> hi]])
RAlt(p, i, dep) ==
  LET a == RSeq(p, i, dep, [k |-> "eps"])
  IN IF a.st # "ok" THEN a
     ELSE IF At(p, a.o) = 124
          THEN LET b == RAlt(p, a.o + 1, dep)
               IN IF b.st # "ok" THEN b ELSE ROk(b.o, [k |-> "alt", a |-> a.r, b |-> b.r])
     ELSE a
RParse(p) == IF \E i \in 1..Len(p) : p[i] = 0 \/ p[i] > 127 THEN ROpen(1)
             ELSE RAlt(p, 1, 0)

(* All indices at which a match of r that starts at i can end (exclusive).    *)
RECURSIVE RM(_, _, _), RTimes(_, _, _, _), RClose(_, _, _)
RM(r, s, i) ==
  CASE r.k = "eps" -> {i}
    [] r.k = "set" -> IF i > Len(s) THEN {}
                      ELSE IF (s[i] \in r.s) # r.neg THEN {i + 1} ELSE {}
    [] r.k = "seq" -> UNION {RM(r.b, s, j) : j \in RM(r.a, s, i)}
    [] r.k = "alt" -> RM(r.a, s, i) \cup RM(r.b, s, i)
    [] r.k = "rep" -> LET base == RTimes(r.a, s, {i}, r.lo)
                      IN IF r.hi < 0 THEN RClose(r.a, s, base)
                         ELSE UNION {RTimes(r.a, s, base, n) : n \in 0..(r.hi - r.lo)}
    [] r.k = "bol" -> IF i = 1 THEN {i} ELSE {}
    [] r.k = "eol" -> IF i = Len(s) + 1 \/ (i = Len(s) /\ s[i] = 10) THEN {i} ELSE {}
RTimes(r, s, I, n) == IF n = 0 THEN I
                      ELSE RTimes(r, s, UNION {RM(r, s, j) : j \in I}, n - 1)
RClose(r, s, I) == LET J == I \cup UNION {RM(r, s, j) : j \in I}
                   IN IF J = I THEN I ELSE RClose(r, s, J)

Matches(pat, txt) == RM(RParse(pat).r, txt, 1) # {}
\* The fragment knows the meaning of character classes on ASCII texts only
RKnown(pat, txt) == RParse(pat).st = "ok" /\ \A i \in 1..Len(txt) : txt[i] <= 127
=============================================================================
