-------------------------------- MODULE Lexer --------------------------------
(* From characters to tokens.                                                 *)
(*                                                                            *)
(* A text is a sequence of Unicode code points.  LexText(tx) gives the        *)
(* sequence of tokens; if the text cannot be completely split into tokens the *)
(* last one has kind "ERR" and stands for the first lexical error.  Comments  *)
(* are kept by LexAll (they matter for C03) and dropped by LexText.           *)
(*                                                                            *)
(* Token: k kind, v the spelling of identifiers, keywords and operators,      *)
(*        s the simplified spelling of an identifier,                        *)
(*        x the value of a literal, q and raw the style and text of a string, *)
(*        l line, c column, p..e the extent.                                  *)
EXTENDS Big, FiniteSets, SequencesExt

Keywords == {"abs", "abstract", "and", "checks", "else", "elsif", "enum",
  "error", "exists", "extends", "false", "fatal", "final", "forall", "freeze",
  "if", "implies", "import", "in", "not", "null", "optional", "or", "package",
  "section", "separator", "then", "true", "tuple", "type", "warning", "xor"}

\* Printable ASCII, in code order starting at 32
AsciiTable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Chr(c) == SubSeq(AsciiTable, c - 31, c - 31)
StrOf(codes) == FoldLeft(LAMBDA a, c: a \o Chr(c), "", codes)
\* The code of a one character string
CodeTab == [ch \in {Chr(c) : c \in 32..126} |-> CHOOSE c \in 32..126 : Chr(c) = ch]
Codes(str) == [i \in 1..Len(str) |-> CodeTab[SubSeq(str, i, i)]]

\* Names are the same if they agree after lower casing and dropping underscores
Simplified(codes) ==
  FoldLeft(LAMBDA a, c : IF c = 95 THEN a ELSE a \o Chr(IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c),
           "", codes)

Upper(c) == c >= 65 /\ c <= 90
Lower(c) == c >= 97 /\ c <= 122
Alpha(c) == Upper(c) \/ Lower(c)
Digit(c) == c >= 48 /\ c <= 57
Alnum(c) == Alpha(c) \/ Digit(c)
IdChar(c) == Alnum(c) \/ c = 95
Space(c) == \/ c = 32 \/ (c >= 9 /\ c <= 13) \/ (c >= 28 /\ c <= 31)
            \/ c > 127 /\ (\/ c \in {133, 160, 5760, 8232, 8233, 8239, 8287, 12288}
                           \/ (c >= 8192 /\ c <= 8202))
\* Characters at which a text is broken into lines (inside string values)
LineEnd(c) == \/ (c >= 10 /\ c <= 13) \/ (c >= 28 /\ c <= 30)
              \/ c \in {133, 8232, 8233}
HexLetter(c) == (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
DigitVal(c) == IF Digit(c) THEN c - 48 ELSE IF Upper(c) THEN c - 55 ELSE c - 87

NL == 10  DQ == 34  SQ == 39  BSL == 92  USC == 95  DOTC == 46
At(tx, i) == IF i <= Len(tx) THEN tx[i] ELSE 0     \* 0: end of text

(* ------------------------------------------------------------ string values *)
RECURSIVE StripL(_), StripR(_)
StripL(s) == IF s # <<>> /\ Space(s[1]) THEN StripL(SubSeq(s, 2, Len(s))) ELSE s
StripR(s) == IF s # <<>> /\ Space(s[Len(s)]) THEN StripR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Blank(s) == \A i \in 1..Len(s) : Space(s[i])

\* Split into lines; a CR LF pair is one line end
RECURSIVE SplitL(_, _, _, _)
SplitL(s, i, from, acc) ==
  IF i > Len(s) THEN (IF from > Len(s) THEN acc ELSE Append(acc, SubSeq(s, from, Len(s))))
  ELSE IF LineEnd(s[i])
       THEN LET nx == IF s[i] = 13 /\ At(s, i + 1) = 10 THEN i + 2 ELSE i + 1
            IN SplitL(s, nx, nx, Append(acc, SubSeq(s, from, i - 1)))
       ELSE SplitL(s, i + 1, from, acc)
Lines(s) == SplitL(s, 1, 1, <<>>)

RECURSIVE IndentOf(_, _)
IndentOf(s, i) == IF i <= Len(s) /\ s[i] \in {9, 32} THEN IndentOf(s, i + 1) ELSE i - 1
CommonLen(a, b) ==                   \* length of the common prefix
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      D == {i \in 1..n : a[i] # b[i]}
  IN IF D = {} THEN n ELSE (CHOOSE i \in D : \A j \in D : i <= j) - 1

\* The value of a triple quoted string with the given inner text: surrounding
\* blank space goes, so does the indentation common to all nonblank lines from
\* the second on, and the trailing blanks of each line.
TripleValue(inner) ==
  LET ls   == Lines(StripR(StripL(inner)))
      rest == SelectSeq(Tail(ls), LAMBDA l : ~Blank(l))
  IN IF ls = <<>> THEN <<>>
     ELSE IF rest = <<>> THEN StripR(ls[1])
     ELSE LET ind == SubSeq(rest[1], 1, IndentOf(rest[1], 1))
              k   == FoldLeft(LAMBDA n, l : LET m == CommonLen(ind, l) IN IF m < n THEN m ELSE n,
                              Len(ind), rest)
          IN FoldLeft(LAMBDA acc, l :
                        acc \o <<NL>> \o StripR(SubSeq(l, k + 1, Len(l))),
                      StripR(ls[1]), Tail(ls))

\* The value of a plain string: only an escaped quote is unescaped
RECURSIVE Unescape(_, _, _)
Unescape(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF s[i] = BSL /\ At(s, i + 1) = DQ THEN Unescape(s, i + 2, Append(acc, DQ))
  ELSE Unescape(s, i + 1, Append(acc, s[i]))

(* -------------------------------------------------------------------- scans *)
RECURSIVE ScanId(_, _)
ScanId(tx, i) == IF i <= Len(tx) /\ IdChar(tx[i]) THEN ScanId(tx, i + 1) ELSE i
RECURSIVE ScanLine(_, _)
ScanLine(tx, i) == IF i <= Len(tx) /\ tx[i] # NL THEN ScanLine(tx, i + 1) ELSE i
RECURSIVE ScanBlock(_, _)            \* first index after the closing star slash
ScanBlock(tx, i) == IF i >= Len(tx) THEN Len(tx) + 1
                    ELSE IF tx[i] = 42 /\ tx[i + 1] = 47 THEN i + 2
                    ELSE ScanBlock(tx, i + 1)
RECURSIVE ScanTriple(_, _, _)        \* first index after the closing quotes, 0 if none
ScanTriple(tx, i, q) == IF i + 2 > Len(tx) THEN 0
                        ELSE IF tx[i] = q /\ tx[i+1] = q /\ tx[i+2] = q THEN i + 3
                        ELSE ScanTriple(tx, i + 1, q)
RECURSIVE ScanPlain(_, _)            \* first index after the closing quote, 0 if none
ScanPlain(tx, i) == IF i > Len(tx) \/ tx[i] = NL THEN 0
                    ELSE IF tx[i] = DQ THEN i + 1
                    ELSE IF tx[i] = BSL /\ At(tx, i + 1) = DQ THEN ScanPlain(tx, i + 2)
                    ELSE ScanPlain(tx, i + 1)

(* Numbers: base prefix, then digits with single underscores between them and,*)
(* in base 10, at most one point with digits on both sides.  A range operator *)
(* ends a number.  z: index of the next character, 0 for a malformed number.  *)
RECURSIVE ScanNum(_, _, _, _, _, _)
ScanNum(tx, i, base, need, point, ds) ==
  LET c == At(tx, i)
      ok == \/ base = 16 /\ (Digit(c) \/ HexLetter(c))
            \/ base = 10 /\ Digit(c)
            \/ base = 2 /\ c \in {48, 49}
  IN IF ok THEN ScanNum(tx, i + 1, base, FALSE, IF point < 0 THEN point ELSE point + 1,
                        Append(ds, DigitVal(c)))
     ELSE IF base # 16 /\ c # 0 /\ (HexLetter(c) \/ (base = 2 /\ Digit(c)))
          THEN [z |-> 0, ds |-> ds, pt |-> point]
     ELSE IF need THEN [z |-> 0, ds |-> ds, pt |-> point]
     ELSE IF c = USC THEN ScanNum(tx, i + 1, base, TRUE, point, ds)
     ELSE IF c = DOTC /\ At(tx, i + 1) # DOTC
          THEN IF base = 10 /\ point < 0 THEN ScanNum(tx, i + 1, base, TRUE, 0, ds)
               ELSE [z |-> 0, ds |-> ds, pt |-> point]
     ELSE [z |-> i, ds |-> ds, pt |-> point]

(* ------------------------------------------------------------------- tokens *)
Punct(c) == CASE c = 40 -> "BRA"    [] c = 41 -> "KET"
              [] c = 123 -> "C_BRA" [] c = 125 -> "C_KET"
              [] c = 91 -> "S_BRA"  [] c = 93 -> "S_KET"
              [] c = 44 -> "COMMA"  [] c = 64 -> "AT"
              [] c = 58 -> "COLON"  [] c = 59 -> "SEMICOLON"
              [] OTHER -> ""

\* Kind and end of the token that starts at i (not a blank); "ERR" if none does
Raw(tx, i) ==
  LET c == tx[i]  d == At(tx, i + 1)
      R(k, n) == [k |-> k, n |-> i + n, x |-> <<>>]
  IN CASE Alpha(c) -> [k |-> "IDENTIFIER", n |-> ScanId(tx, i), x |-> <<>>]
       [] Punct(c) # "" -> R(Punct(c), 1)
       [] c = 61 -> IF d = 62 THEN R("ARROW", 2)
                    ELSE IF d = 61 THEN R("OPERATOR", 2) ELSE R("ASSIGN", 1)
       [] c = DOTC -> IF d = DOTC THEN R("RANGE", 2) ELSE R("DOT", 1)
       [] c \in {60, 62} -> R("OPERATOR", IF d = 61 THEN 2 ELSE 1)
       [] c = 33 -> IF d = 61 THEN R("OPERATOR", 2) ELSE R("ERR", 1)
       [] c = 42 -> R("OPERATOR", IF d = 42 THEN 2 ELSE 1)
       [] c \in {37, 43, 45} -> R("OPERATOR", 1)
       [] c = 47 -> IF d = 47 THEN [k |-> "COMMENT", n |-> ScanLine(tx, i), x |-> <<>>]
                    ELSE IF d = 42 THEN [k |-> "COMMENT", n |-> ScanBlock(tx, i + 2), x |-> <<>>]
                    ELSE R("OPERATOR", 1)
       [] c \in {DQ, SQ} ->
            IF d = c /\ At(tx, i + 2) = c
            THEN LET z == ScanTriple(tx, i + 3, c)
                 IN IF z = 0 THEN R("ERR", 1)
                    ELSE [k |-> "STRING", n |-> z,
                          x |-> TripleValue(SubSeq(tx, i + 3, z - 4))]
            ELSE IF c = SQ THEN R("ERR", 1)
            ELSE LET z == ScanPlain(tx, i + 1)
                 IN IF z = 0 THEN R("ERR", 1)
                    ELSE [k |-> "STRING", n |-> z,
                          x |-> Unescape(SubSeq(tx, i + 1, z - 2), 1, <<>>)]
       [] Digit(c) ->
            LET base == IF c = 48 /\ d = 98 THEN 2 ELSE IF c = 48 /\ d = 120 THEN 16 ELSE 10
                r == ScanNum(tx, IF base = 10 THEN i ELSE i + 2, base, base # 10, -1, <<>>)
            IN IF r.z = 0 THEN R("ERR", 1)
               ELSE IF r.pt < 0
               THEN [k |-> "INTEGER", n |-> r.z, x |-> FromDigits(r.ds, base)]
               ELSE [k |-> "DECIMAL", n |-> r.z,
                     x |-> [n |-> FromDigits(r.ds, 10), d |-> Ten(r.pt)]]
       [] OTHER -> R("ERR", 1)

\* Positions: i index, l line, b index of the first character of the line
RECURSIVE Move(_, _, _)              \* step over the characters before index n
Move(tx, s, n) == IF s.i >= n THEN s
                  ELSE IF tx[s.i] = NL THEN Move(tx, [s EXCEPT !.i = @ + 1, !.l = @ + 1, !.b = s.i + 1], n)
                  ELSE Move(tx, [s EXCEPT !.i = @ + 1], n)
RECURSIVE SkipWs(_, _)
SkipWs(tx, s) == IF s.i <= Len(tx) /\ Space(tx[s.i])
                 THEN SkipWs(tx, IF tx[s.i] = NL
                                 THEN [s EXCEPT !.i = @ + 1, !.l = @ + 1, !.b = s.i + 1]
                                 ELSE [s EXCEPT !.i = @ + 1])
                 ELSE s

\* q tells the two styles of strings, raw is the text before lines are trimmed
MkTok(tx, s, r) ==
  LET codes == IF r.k \in {"IDENTIFIER", "OPERATOR"} THEN SubSeq(tx, s.i, r.n - 1) ELSE <<>>
      v == StrOf(codes)
  IN [k |-> IF r.k = "IDENTIFIER" /\ v \in Keywords THEN "KEYWORD" ELSE r.k,
      v |-> v,
      s |-> IF r.k = "IDENTIFIER" THEN Simplified(codes) ELSE "",
      x |-> IF r.k = "IDENTIFIER" THEN codes ELSE r.x,
      q |-> IF r.k # "STRING" THEN 0
            ELSE IF r.n - s.i >= 6 /\ tx[s.i + 1] = tx[s.i] /\ tx[s.i + 2] = tx[s.i] THEN 3 ELSE 1,
      raw |-> IF r.k # "STRING" THEN <<>>
              ELSE IF r.n - s.i >= 6 /\ tx[s.i + 1] = tx[s.i] /\ tx[s.i + 2] = tx[s.i]
              THEN SubSeq(tx, s.i + 3, r.n - 4) ELSE r.x,
      l |-> s.l, c |-> s.i - s.b + 1, p |-> s.i, e |-> r.n - 1]

\* One token (or comment): s is the position, s.a the tokens so far
LexStep(tx, s0, comments) ==
  LET s == SkipWs(tx, s0)
  IN IF s.i > Len(tx) THEN [s EXCEPT !.i = Len(tx) + 1]
     ELSE LET r == Raw(tx, s.i)
              t == MkTok(tx, s, r)
              s2 == IF r.k \in {"STRING", "COMMENT"}        \* may span lines
                    THEN Move(tx, s, r.n) ELSE [s EXCEPT !.i = r.n]
          IN IF r.k = "ERR" THEN [s EXCEPT !.i = Len(tx) + 1, !.a = Append(@, t)]
             ELSE IF r.k = "COMMENT" /\ ~comments THEN s2
             ELSE [s2 EXCEPT !.a = Append(@, t)]

Lex(tx, comments) ==
  FoldLeft(LAMBDA s, k : IF s.i > Len(tx) THEN s ELSE LexStep(tx, s, comments),
           [i |-> 1, l |-> 1, b |-> 1, a |-> <<>>], [k \in 1..Len(tx) |-> k]).a
LexText(tx) == Lex(tx, FALSE)
LexAll(tx)  == Lex(tx, TRUE)

\* Reading a file translates the line ends CR LF and CR to LF
RECURSIVE UniNL(_, _, _)
UniNL(tx, i, acc) ==
  IF i > Len(tx) THEN acc
  ELSE IF tx[i] = 13 THEN UniNL(tx, IF At(tx, i + 1) = 10 THEN i + 2 ELSE i + 1, Append(acc, NL))
  ELSE UniNL(tx, i + 1, Append(acc, tx[i]))
\* A file that is not UTF-8: its odd bytes stand as U+DC80 to U+DCFF
Undecodable(tx) == \E i \in 1..Len(tx) : tx[i] \in 56448..56575
NoText == <<[k |-> "ERR", l |-> 0, c |-> 0]>>
FileText(tx) == IF \E i \in 1..Len(tx) : tx[i] = 13 THEN UniNL(tx, 1, <<>>) ELSE tx
=============================================================================
