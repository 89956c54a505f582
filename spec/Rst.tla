---------------------------------- MODULE Rst ---------------------------------
(* The export of objects to reStructuredText.                                 *)
(*                                                                            *)
(* A case is as in Trlc, with two things more: each file says whether its     *)
(* objects are to be shown (show), and views is a sequence of what is to be   *)
(* produced from the accepted objects, each                                   *)
(*   [v, title, fields, only, names, given, order, head, link]                *)
(* v is "file" (the document, with headings), "list" (without), "table" or    *)
(* "value" (of one field); title the title of the document; fields the        *)
(* [n, l] of the fields to show, a name and a label (empty: made from the     *)
(* name); if only is set then only the objects in names are shown; if given   *)
(* is set then the objects of order are shown in this order; head is the      *)
(* heading of the first column of a table, and link what the function of the  *)
(* caller writes into that column ("none": there is no such function).        *)
(*                                                                            *)
(* The document is a tree: a section is one node however often it is opened,  *)
(* objects go to their innermost section.  One action puts one object into    *)
(* the tree, or writes one node of it.                                        *)
EXTENDS TrlcRun

Dot == 46   Gap == 32   Colon == 58   Tick == 96   Less == 60   More == 62
OpenSq == 91   CloseSq == 93   OpenPar == 40   ClosePar == 41   Bang == 33   Dash == 45
White(c) == c \in 9..13 \cup 28..32
Times(c, n) == [i \in 1..n |-> c]

(* ------------------------------------------------------------------ plain text *)
Strip(x) ==
  LET ink == {i \in 1..Len(x) : ~White(x[i])}
  IN IF ink = {} THEN <<>>
     ELSE SubSeq(x, CHOOSE i \in ink : \A j \in ink : i <= j, CHOOSE i \in ink : \A j \in ink : i >= j)
\* One blank for each stretch of white space, none at the ends
Squeezed(x) ==
  LET y == Strip(x)
      keep == SelectSeq([i \in 1..Len(y) |-> i], LAMBDA i : ~White(y[i]) \/ ~White(y[i - 1]))
  IN [j \in 1..Len(keep) |-> IF White(y[keep[j]]) THEN Gap ELSE y[keep[j]]]
Indent(x) == IF Strip(x) = <<>> THEN Len(x)
             ELSE (CHOOSE i \in 1..Len(x) : ~White(x[i]) /\ \A j \in 1..(i - 1) : White(x[j])) - 1
Split(x) ==
  LET nl == SelectSeq([i \in 1..Len(x) |-> i], LAMBDA i : x[i] = NL)
      From(k) == IF k = 1 THEN 1 ELSE nl[k - 1] + 1
      To(k) == IF k > Len(nl) THEN Len(x) ELSE nl[k] - 1
  IN [k \in 1..(Len(nl) + 1) |-> SubSeq(x, From(k), To(k))]
\* The text in lines, all but the first one moved to the right
Hanging(pre, x, n) ==
  LET ls == Split(x)
  IN [k \in 1..Len(ls) |-> IF k = 1 THEN pre \o ls[1] ELSE Times(Gap, n) \o ls[k]]
\* "first_name" is labelled "First Name"
Label(n) ==
  LET c == Strip([i \in 1..Len(n) |-> IF n[i] = 95 THEN Gap ELSE n[i]])
      Up(x) == IF Lower(x) THEN x - 32 ELSE x
      Down(x) == IF Upper(x) THEN x + 32 ELSE x
  IN [i \in 1..Len(c) |-> IF i > 1 /\ Alpha(c[i - 1]) THEN Down(c[i]) ELSE Up(c[i])]

(* ----------------------------------------------------------------- descriptions *)
\* The first place of c in x from i on, or 0
NextOf(x, c, i) == LET at == {j \in i..Len(x) : x[j] = c}
                   IN IF at = {} THEN 0 ELSE CHOOSE j \in at : \A k \in at : j <= k
\* Is there [...](...) at i?  rv: where the parts end, or <<>>
Linked(x, i, empty) ==
  LET j == NextOf(x, CloseSq, i + 1)
      k == IF j = 0 \/ At(x, j + 1) # OpenPar THEN 0 ELSE NextOf(x, ClosePar, j + 2)
  IN IF At(x, i) = OpenSq /\ j > 0 /\ (empty \/ j > i + 1) /\ k > j + 2 THEN <<j, k>> ELSE <<>>
RECURSIVE Images(_, _, _), Links(_, _, _), Refs(_, _, _, _)
\* ![alt](path) is a picture
Images(x, i, acc) ==
  LET m == Linked(x, i + 1, TRUE)
  IN IF i > Len(x) THEN acc
     ELSE IF x[i] = Bang /\ m # <<>>
     THEN LET alt == SubSeq(x, i + 2, m[1] - 1)
          IN Images(x, m[2] + 1, acc \o Codes(".. image:: ") \o SubSeq(x, m[1] + 2, m[2] - 1)
                                     \o (IF alt = <<>> THEN <<>> ELSE <<NL>> \o Codes("   :alt: ") \o alt))
     ELSE Images(x, i + 1, Append(acc, x[i]))
\* [text](url) is a link
Links(x, i, acc) ==
  LET m == Linked(x, i, FALSE)
  IN IF i > Len(x) THEN acc
     ELSE IF m # <<>>
     THEN Links(x, m[2] + 1, acc \o <<Tick>> \o SubSeq(x, i + 1, m[1] - 1) \o <<Gap, Less>>
                                 \o SubSeq(x, m[1] + 2, m[2] - 1) \o <<More, Tick, 95>>)
     ELSE Links(x, i + 1, Append(acc, x[i]))
\* A list of references gives its targets, one role each
Refs(x, i, ts, acc) ==
  LET j == NextOf(x, CloseSq, i + 2)
      n == Cardinality({k \in (i + 2)..(j - 1) : x[k] = 44}) + 1
      RECURSIVE Roles(_)
      Roles(k) == (IF k = 1 THEN <<>> ELSE Roles(k - 1) \o <<44, Gap>>)
                  \o Codes(":requirement:upstream-ref:") \o <<Tick>>
                  \o Codes(ts[k][2]) \o <<Gap, Less>> \o Codes(ts[k][1]) \o <<Dot>> \o Codes(ts[k][2])
                  \o <<More, Tick>>
  IN IF i > Len(x) THEN acc
     ELSE IF At(x, i) = OpenSq /\ At(x, i + 1) = OpenSq /\ j > i + 2 /\ At(x, j + 1) = CloseSq
     THEN Refs(x, j + 2, SubSeq(ts, n + 1, Len(ts)), acc \o Roles(n))
     ELSE Refs(x, i + 1, ts, Append(acc, x[i]))

Item(x) == \/ x[1] = Dash
           \/ \E n \in 2..Len(x) : x[n] = Dot /\ \A i \in 1..(n - 1) : Digit(x[i])
Directive(x) ==                      \* .. name::
  /\ Len(x) > 3 /\ SubSeq(x, 1, 3) = Codes(".. ") /\ Alpha(x[4])
  /\ \E n \in 5..(Len(x) - 1) : /\ x[n] = Colon /\ x[n + 1] = Colon
                                /\ \A i \in 5..(n - 1) : IdChar(x[i]) \/ x[i] = Dash
(* A description line by line.  Paragraphs lose their layout; a code block    *)
(* (after a line ending in ::) and the body of a directive keep theirs; lists *)
(* are set apart by empty lines.                                              *)
Described(text, ind) ==
  LET ls == Split(Links(Images(text, 1, <<>>), 1, <<>>))
      Put(st, l) == [st EXCEPT !.out = Append(@, l)]
      Line(st, i) ==
        LET l == ls[i]
            x == Strip(l)
            q == Squeezed(l)
            d == Indent(l)
            a == IF st.code /\ d < st.cb THEN Put([st EXCEPT !.code = FALSE], <<>>) ELSE st
            item == Item(q)
            b == [a EXCEPT !.dir = FALSE]
            c == IF b.out # <<>> /\ b.list # item THEN Put(b, <<>>) ELSE b
            e == [Put(c, Times(Gap, ind) \o q) EXCEPT !.list = item]
        IN IF x = <<>> THEN [Put(st, <<>>) EXCEPT !.list = FALSE, !.code = FALSE]
           ELSE IF a.code THEN Put(a, Times(Gap, ind + 3 + d - a.cb) \o x)
           ELSE IF a.dir /\ d > a.db THEN [Put(a, Times(Gap, ind + d - a.db) \o x) EXCEPT !.list = FALSE]
           ELSE IF Directive(q) THEN [e EXCEPT !.dir = TRUE, !.db = d]
           ELSE IF Len(q) > 1 /\ q[Len(q)] = Colon /\ q[Len(q) - 1] = Colon
                   /\ i < Len(ls) /\ Strip(ls[i + 1]) # <<>>
           THEN [Put(e, <<>>) EXCEPT !.code = TRUE, !.cb = Indent(ls[i + 1])]
           ELSE e
  IN IF text = <<>> THEN <<<<>>>>
     ELSE FoldLeft(Line, [out |-> <<>>, list |-> FALSE, code |-> FALSE, cb |-> 0, dir |-> FALSE, db |-> 0],
                   [i \in 1..Len(ls) |-> i]).out

(* ---------------------------------------------------------------------- objects *)
Obj(id) == Ent(S, id)
FullName(id) == Codes(Ent(S, Obj(id).pkg).n) \o <<Dot>> \o Codes(Obj(id).n)
Has(id, n) == n \in DOMAIN Obj(id).fld
Val(id, n) == IF Has(id, n) THEN Eval(S, Obj(id).fld[n], Static).v.x ELSE [k |-> "null"]
Marked(id, n) == Has(id, n) /\ Obj(id).fld[n].k = "lit" /\ IsMup(Obj(id).fld[n].t)
\* The text of a string, with references replaced
StringOf(id, n) ==
  LET rs == Obj(id).fld[n].refs
  IN IF ~Marked(id, n) THEN Val(id, n).s
     ELSE Refs(Val(id, n).s, 1,
               [i \in 1..Len(rs) |-> LET t == Eval(S, rs[i], Static).v.x.r
                                     IN <<Ent(S, Obj(t).pkg).n, Obj(t).n>>], <<>>)
Absent(id, n) == Val(id, n).k = "null" \/ (Val(id, n).k = "s" /\ Val(id, n).s = <<>>)

\* What is written: lines of text, and lines of some text and a value
Txt(x) == [k |-> "t", x |-> x, o |-> 0, h |-> 0]
Txts(ls) == [i \in 1..Len(ls) |-> Txt(ls[i])]
Cell(pre, id, n, ind) ==
  IF Val(id, n).k = "s" THEN Txts(Hanging(pre, StringOf(id, n), ind))
  ELSE <<[k |-> "v", x |-> pre, v |-> DumpX(S, Val(id, n)), o |-> 0, h |-> 0]>>

LabelOf(f) == IF f.l = <<>> THEN Label(Codes(f.n)) ELSE f.l
Block(id, fields) ==
  LET here == SelectSeq(fields, LAMBDA f : ~Absent(id, f.n))
      plain == SelectSeq(here, LAMBDA f : ~Marked(id, f.n))
      prose == SelectSeq(here, LAMBDA f : Marked(id, f.n))
      Pre(f) == Times(Gap, 3) \o <<Colon>> \o LabelOf(f) \o <<Colon, Gap>>
      P == FlattenSeq([i \in 1..Len(plain) |-> Cell(Pre(plain[i]), id, plain[i].n, 6)])
      Q == FlattenSeq([i \in 1..Len(prose) |->
             Txts(Described(StringOf(id, prose[i].n), 3)) \o <<Txt(<<>>)>>])
  IN <<[Txt(Codes(".. requirement:definition:: ") \o FullName(id)) EXCEPT !.o = id], Txt(<<>>)>>
     \o P \o (IF P # <<>> \/ Q = <<>> THEN <<Txt(<<>>)>> ELSE <<>>) \o Q
\* What the caller's function makes of the full name and the name of an object
NameCell(id, how) ==
  CASE how = "full" -> FullName(id)
    [] how = "role" -> Codes(":ref:`") \o Codes(Obj(id).n) \o Codes(" <") \o FullName(id) \o Codes(">`")
    [] how = "empty" -> <<>>
    [] OTHER -> Codes(Obj(id).n)
Table(ids, v) ==
  LET Row(id) ==
        <<[Txt(Codes("   * - ") \o NameCell(id, v.link)) EXCEPT !.o = id]>>
        \o FlattenSeq([i \in 1..Len(v.fields) |->
             LET n == v.fields[i].n
             IN IF Val(id, n).k = "null" THEN <<Txt(Codes("     - "))>> ELSE Cell(Codes("     - "), id, n, 7)])
  IN Txts(<<Codes(".. list-table::"), Codes("   :header-rows: 1"), <<>>, Codes("   * - ") \o v.head>>)
     \o [i \in 1..Len(v.fields) |-> Txt(Codes("     - ") \o LabelOf(v.fields[i]))]
     \o FlattenSeq([i \in 1..Len(ids) |-> Row(ids[i])]) \o <<Txt(<<>>)>>
Single(ids, n) ==
  IF ids = <<>> \/ Absent(ids[1], n) THEN <<[k |-> "none", x |-> <<>>, o |-> 0, h |-> 0]>>
  ELSE IF Val(ids[1], n).k = "s" THEN Txts(Described(StringOf(ids[1], n), 0))
  ELSE Cell(<<>>, ids[1], n, 0)

(* --------------------------------------------------------------------- the views *)
\* The objects to be shown
Shown(v) == SelectSeq(InOrder(S), LAMBDA id : /\ Case.files[Obj(id).l.f].show
                                              /\ v.only => \E i \in 1..Len(v.names) : v.names[i] = FullName(id))
InGivenOrder(v) ==
  IF ~v.given THEN Shown(v)
  ELSE FlattenSeq([i \in 1..Len(v.order) |-> SelectSeq(Shown(v), LAMBDA id : FullName(id) = v.order[i])])
View1 == Case.views[Len(cs.done) + 1]

\* Nodes of the tree: a section below another node, or an object (o # 0)
Root == [up |-> 0, sec |-> <<>>, o |-> 0, d |-> 0]
Kids(t, n, objs) == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : t[i].up = n /\ (t[i].o # 0) = objs)
Enter(st, name) ==                   \* st: tree t and the node we are at
  LET there == SelectSeq(Kids(st.t, st.n, FALSE), LAMBDA i : st.t[i].sec = name)
  IN IF there # <<>> THEN [st EXCEPT !.n = there[1]]
     ELSE [t |-> Append(st.t, [up |-> st.n, sec |-> name, o |-> 0, d |-> st.t[st.n].d + 1]), n |-> Len(st.t) + 1]
SecNames(id) == [i \in 1..Len(Obj(id).sec) |-> Obj(id).sec[i].n]
Placed(t, id) ==
  LET st == FoldLeft(Enter, [t |-> t, n |-> 1], SecNames(id))
  IN Append(st.t, [up |-> st.n, sec |-> <<>>, o |-> id, d |-> st.t[st.n].d + 1])

Rules == <<61, 45, 94, 39>>          \* = - ^ '
Heading(name, d) ==
  <<[Txt(Squeezed(name)) EXCEPT !.h = d],
    Txt(Times(Rules[IF d > 4 THEN 4 ELSE d], Len(Squeezed(name))))>>
\* Depth as shown: without a title, sections move up
ShownDepth(v, d) == IF v.title = <<>> THEN d ELSE d + 1

RstStart ==
  /\ ph = "stab"
  /\ cs' = cs @@ [tree |-> <<Root>>, out |-> <<>>, done |-> <<>>]
  /\ Goto("view", <<>>) /\ Step(0) /\ UNCHANGED <<cur, cu, S, ok>>
\* The next view
Produce(out) == cs' = [cs EXCEPT !.done = Append(@, out), !.tree = <<Root>>, !.out = <<>>]
Open1 ==
  /\ ph = "view" /\ Len(cs.done) < Len(Case.views)
  /\ LET v == View1
         ids == InGivenOrder(v)
         L == FlattenSeq([i \in 1..Len(ids) |-> Block(ids[i], v.fields)])
     IN IF v.v = "file"
        THEN /\ cs' = [cs EXCEPT !.out = IF v.title = <<>> THEN <<>>
                                         ELSE Txts(<<v.title, Times(Rules[1], Len(v.title))>>)]
             /\ Goto("place", Shown(v))
        ELSE /\ Goto("view", <<>>)
             /\ Produce(CASE v.v = "list" -> IF L = <<>> THEN <<Txt(<<>>)>> ELSE L
                          [] v.v = "table" -> Table(ids, v)
                          [] v.v = "value" -> Single(ids, v.fields[1].n))
  /\ Step(0) /\ UNCHANGED <<cur, cu, S, ok>>
Place1 ==
  /\ ph = "place" /\ job # <<>>
  /\ cs' = [cs EXCEPT !.tree = Placed(@, job[1])]
  /\ Goto("place", Tail(job)) /\ Step(0) /\ UNCHANGED <<cur, cu, S, ok>>
PlaceEnd ==
  /\ ph = "place" /\ job = <<>>
  /\ Goto("write", <<1>>) /\ Step(0) /\ UNCHANGED <<cs, cur, cu, S, ok>>
\* The objects of a section, then the sections in it
Write1 ==
  /\ ph = "write" /\ job # <<>>
  /\ LET n == cs.tree[job[1]]
     IN /\ cs' = [cs EXCEPT !.out = @ \o
                   IF n.o # 0 THEN Block(n.o, View1.fields)
                   ELSE IF n.up = 0 THEN <<>> ELSE Heading(n.sec, ShownDepth(View1, n.d))]
        /\ Goto("write", Kids(cs.tree, job[1], TRUE) \o Kids(cs.tree, job[1], FALSE) \o Tail(job))
  /\ Step(0) /\ UNCHANGED <<cur, cu, S, ok>>
WriteEnd ==
  /\ ph = "write" /\ job = <<>>
  /\ Produce(cs.out) /\ Goto("view", <<>>) /\ Step(0) /\ UNCHANGED <<cur, cu, S, ok>>
RstReport ==
  /\ ph \in {"refused", "none"} \/ (ph = "view" /\ Len(cs.done) = Len(Case.views))
  /\ PrintT(ToJson([id |-> Case.id, res |-> IF ph = "view" THEN "stab" ELSE ph, open |-> S.tot, path |-> path,
                    soft |-> \E i \in 1..Len(S.msgs) : S.msgs[i].sv \in {"error", "check error"},
                    done |-> IF ph = "view" THEN cs.done ELSE <<>>]))
  /\ ph' = "reported" /\ Step(0)
  /\ UNCHANGED <<cs, job, cur, cu, S, ok>>
RstNext == Next \/ RstStart \/ Open1 \/ Place1 \/ PlaceEnd \/ Write1 \/ WriteEnd \/ RstReport
RstSpec == Init /\ [][RstNext]_vars

(* -------------------------------------------------------------------- properties *)
Written == ph = "write" /\ job = <<>>
Places(out, id) == {i \in 1..Len(out) : out[i].o = id}
\* Every object to be shown is there once, and no other
OnceEach ==
  Written => LET ids == Shown(View1)
             IN /\ \A i \in 1..Len(ids) : Cardinality(Places(cs.out, ids[i])) = 1
                /\ \A i \in 1..Len(cs.out) : cs.out[i].o # 0 => \E j \in 1..Len(ids) : ids[j] = cs.out[i].o
\* A reader takes an object to be in the sections whose headings are in force
InForce(out, i) ==
  FoldLeft(LAMBDA hs, j : IF out[j].h = 0 THEN hs
                          ELSE Append(SelectSeq(hs, LAMBDA k : out[k].h < out[j].h), j),
           <<>>, [j \in 1..i |-> j])
UnderItsSections ==
  Written => \A i \in 1..Len(cs.out) :
    cs.out[i].o # 0 =>
      LET hs == InForce(cs.out, i)
      IN [j \in 1..Len(hs) |-> cs.out[hs[j]].x] = [j \in 1..Len(SecNames(cs.out[i].o)) |-> Squeezed(SecNames(cs.out[i].o)[j])]
\* Objects of the same sections keep their order
InSourceOrder ==
  Written => LET ids == Shown(View1)
                 At1(id) == CHOOSE i \in Places(cs.out, id) : TRUE
             IN \A i, j \in 1..Len(ids) :
                  i < j /\ SecNames(ids[i]) = SecNames(ids[j]) => At1(ids[i]) < At1(ids[j])
Exported == OnceEach /\ UnderItsSections /\ InSourceOrder
=============================================================================
