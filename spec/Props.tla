--------------------------------- MODULE Props --------------------------------
(* What is to hold of every run, said without regard to how Parse and Trlc    *)
(* bring it about.  The invariants are looked at when a run has ended (or, if *)
(* they are about declarations, whatever its end); the numbers are those of   *)
(* the properties in properties.jsonl.                                        *)
EXTENDS Trlc

Ids(ks) == {i \in 1..Len(S.ents) : S.ents[i].k \in ks /\ S.ents[i].reg}
E(i) == S.ents[i]
Rng(q) == {q[i] : i \in 1..Len(q)}
Injective(q) == Cardinality(Rng(q)) = Len(q)
\* Types that occur in a type
In(t) == CASE t.k = "arr" -> (CASE t.el.k = "uni" -> Rng(t.el.ts) [] OTHER -> {t.el.id})
           [] t.k = "uni" -> Rng(t.ts)
           [] OTHER -> {t.id}
Comps(id) == Rng(AllComps(S, id))
Own(id) == Rng(OwnComps(S, id))

(* C01: no two names in a scope that agree but for case and underscores        *)
NamesDistinct ==
  /\ \A t \in 1..Len(S.tabs) : Injective([i \in 1..Len(S.tabs[t].ord) |-> E(S.tabs[t].ord[i]).s])
  /\ \A i \in Ids({"enum", "tup", "rec", "obj"}) :
       \A j \in Ids({"bi", "fn", "pkg"}) : E(i).s # E(j).s
  /\ \A r \in Ids({"rec"}) : LET cs_ == AllComps(S, r)
                             IN Injective([i \in 1..Len(cs_) |-> E(cs_[i]).s])

(* C02: what is mentioned was declared before, in a package that may be used;  *)
(* the files in use are those asked for and those they need.                   *)
MayUse(f, pkg) == pkg = cu[f].pk \/ pkg \in cu[f].vis
DependenciesFirst ==
  \A r \in Ids({"rec", "tup"}) :
    /\ E(r).k = "rec" /\ E(r).par # 0 => E(r).par < r /\ MayUse(E(r).l.f, E(E(r).par).pkg)
    /\ \A c \in Own(r) : \A t \in In(E(c).t) :
         /\ t <= r /\ (E(r).k = "tup" => t < r)
         /\ t > 10 => MayUse(E(r).l.f, E(t).pkg)
Used == {f \in FileTabs : cu[f].req}
FilesInUse ==
  ph # "refused" =>
    /\ \A f \in Used : ~Case.files[f].prim => \E g \in FileTabs : g # f /\ (g \in Used \/ Case.files[g].prim) /\ Needs(g, f)
    /\ \A f \in Used : \A g \in FileTabs : Needs(f, g) /\ Sound(g) => g \in Used
    /\ \A i \in Ids({"enum", "tup", "rec", "obj"}) : E(i).l.f \in Used
    /\ ~Case.trlc => Ids({"obj"}) = {}

(* C05                                                                         *)
TuplesWellFormed ==
  \A t \in Ids({"tup"}) :
    LET ps == OwnComps(S, t)  n == Len(ps)
    IN /\ n > 0 /\ Len(E(t).seps) \in {0, n - 1}
       /\ ~E(ps[1]).opt
       /\ \A i \in 1..n : E(ps[i]).opt => E(t).seps # <<>> /\ \A j \in i..n : E(ps[j]).opt
       /\ \A i \in 1..n : E(ps[i]).t.k # "arr" /\
            (E(t).seps # <<>> /\ IsTupT(S, E(ps[i]).t) => E(E(ps[i]).t.id).seps = <<>>)
EnumsWellFormed == \A e \in Ids({"enum"}) : S.tabs[E(e).tab].ord # <<>> \/ ~ok
RecordsWellFormed ==
  \A r \in Ids({"rec"}) :
    /\ E(r).par # 0 => E(E(r).par).k = "rec"
    /\ E(r).par # 0 /\ E(E(r).par).fin => OwnComps(S, r) = <<>> /\ (E(r).fin \/ ~ok)
    /\ DOMAIN E(r).fro \subseteq {E(c).n : c \in Comps(r)}
    /\ \A a \in Rng(Ancestors(S, r)) \ {r} : DOMAIN E(a).fro \cap DOMAIN E(r).fro = {}
    /\ ~(E(r).abs /\ E(r).fin) \/ (E(r).par # 0 /\ E(E(r).par).fin)

(* C07, C08: a value conforms to a type                                        *)
RECURSIVE Conforms(_, _)
Conforms(e, t) ==
  CASE e.k = "lit" ->
         (CASE e.x.k = "i" -> IsInt(t)  [] e.x.k = "q" -> IsDec(t)  [] e.x.k = "b" -> IsBool(t)
            [] e.x.k = "s" -> IsStr(t)  [] e.x.k = "e" -> t.k = "ent" /\ E(e.x.e).t = t.id
            [] OTHER -> FALSE)
    [] e.k = "un" -> e.op \in {"+", "-"} /\ Conforms(e.a, t) /\ IsNum(t)
    [] e.k = "ref" ->
         LET id == Find(S, E(e.pkg).tab, e.s)
         IN /\ id # 0 /\ E(id).k = "obj" /\ E(id).n = e.n
            /\ IsRefT(S, t) /\ \E m \in Rng(Members(t)) : m \in Rng(Ancestors(S, E(id).t.id))
    [] e.k = "arr" ->
         /\ IsArr(t) /\ \A i \in 1..Len(e.es) : Conforms(e.es[i], t.el)
         /\ \/ \E m \in Rng(S.msgs) : m.cat = "nonfatal"
            \/ ~Lt(FromInt(Len(e.es)), t.lo) /\ (t.inf \/ ~Lt(t.hi, FromInt(Len(e.es))))
    [] e.k = "tup" ->
         /\ IsTupT(S, t) /\ e.t.id = t.id
         /\ DOMAIN e.fs = {E(c).n : c \in Own(t.id)}
         /\ \A c \in Own(t.id) : LET v == e.fs[E(c).n]
                                 IN IF v.k = "null" THEN E(c).opt ELSE Conforms(v, E(c).t)
         /\ LET ps == OwnComps(S, t.id)                     \* fields left out are the last ones
            IN \A i \in 1..Len(ps) : e.fs[E(ps[i]).n].k = "null" =>
                 \A j \in i..Len(ps) : e.fs[E(ps[j]).n].k = "null"
    [] OTHER -> FALSE
(* C06                                                                         *)
ObjectsComplete ==
  ph = "stab" => \A o \in Ids({"obj"}) :
    LET t == E(o).t.id
    IN /\ E(t).k = "rec" /\ ~E(t).abs
       /\ DOMAIN E(o).fld = {E(c).n : c \in Comps(t)}
       /\ \A c \in Comps(t) :
            LET v == E(o).fld[E(c).n]
                by == {a \in Rng(Ancestors(S, t)) : E(c).n \in DOMAIN E(a).fro}
            IN IF by # {} THEN Cardinality(by) = 1 /\ \A a \in by : v = E(a).fro[E(c).n] /\ Conforms(v, E(c).t)
               ELSE IF v.k = "null" THEN E(c).opt ELSE Conforms(v, E(c).t)

(* C10 to C12: in a successful run every check holds, or has its warning       *)
RECURSIVE TuplesIn(_)
TuplesIn(e) == CASE e.k = "tup" -> {e} \cup UNION {TuplesIn(e.fs[n]) : n \in DOMAIN e.fs}
                 [] e.k = "arr" -> UNION {TuplesIn(e.es[i]) : i \in 1..Len(e.es)}
                 [] OTHER -> {}
Warned(chk, loc) == \E m \in Rng(S.msgs) : m.sv = "check warning" /\ m.tx = chk.tx
                                           /\ <<m.f, m.l, m.c>> = <<loc.f, loc.l, loc.c>>
Holds(chk, m, loc) ==
  LET r == Eval(S, chk.e, Context(m))
  IN r.st = "ok" /\ r.v.x.k = "b" /\
     (r.v.x.b \/ (chk.sev = "warning" /\ Warned(chk, IF chk.anc = "" THEN loc ELSE m[chk.anc].l)))
ChecksHold ==
  ph = "stab" => \A o \in Ids({"obj"}) :
    /\ \A a \in Rng(Ancestors(S, E(o).t.id)) : \A chk \in Rng(E(a).chks) : Holds(chk, E(o).fld, E(o).l)
    /\ \A n \in DOMAIN E(o).fld : \A t \in TuplesIn(E(o).fld[n]) :
         \A chk \in Rng(E(t.t.id).chks) : Holds(chk, t.fs, t.l)

(* C13                                                                         *)
Bad == {m \in Rng(S.msgs) : m.sv \in {"error", "check error"}}
Verdict ==
  /\ ph = "stab" => \A m \in Bad : m.cat = "nonfatal"
  /\ ph \in {"none", "refused"} => Bad # {} \/ S.tot
(* C16, C21                                                                    *)
IssuesOnlyByLint == (\E m \in Rng(S.msgs) : m.sv = "issue") => Case.lint
(* C14: what is said is about a place there is                                 *)
LineCount(f) == IF Undecodable(Case.files[f].text) THEN 1
            ELSE 1 + Len(SelectSeq(FileText(Case.files[f].text), LAMBDA c : c = NL))
PlacesExist ==
  \A m \in Rng(S.msgs) : m.f \in FileTabs /\ m.l <= LineCount(m.f)
(* C18: objects of a file follow each other as written, those of a section are *)
(* together                                                                    *)
SectionsNest ==
  ph = "stab" => \A a, b \in Ids({"obj"}) :
    a < b /\ E(a).l.f = E(b).l.f =>
      /\ E(a).l.l < E(b).l.l \/ (E(a).l.l = E(b).l.l /\ E(a).l.c < E(b).l.c)
      /\ \A i \in 1..Len(E(a).sec) : \A j \in 1..Len(E(b).sec) : E(a).sec[i].l = E(b).sec[j].l =>
           /\ i = j /\ \A k \in 1..i : E(a).sec[k] = E(b).sec[k]
           /\ \A o \in Ids({"obj"}) : a < o /\ o < b /\ E(o).l.f = E(a).l.f =>
                i <= Len(E(o).sec) /\ E(o).sec[i] = E(a).sec[i]

Declarations == NamesDistinct /\ TuplesWellFormed /\ RecordsWellFormed /\ EnumsWellFormed /\ DependenciesFirst
Properties == Final => Declarations /\ FilesInUse /\ ObjectsComplete /\ ChecksHold /\ Verdict
                       /\ IssuesOnlyByLint /\ PlacesExist /\ SectionsNest
=============================================================================
