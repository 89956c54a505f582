--------------------------------- MODULE Big ---------------------------------
(* Unbounded integers and exact rationals.                                    *)
(*                                                                            *)
(* TLC's own integers have 32 bit; TRLC promises unbounded Integer and exact  *)
(* Decimal arithmetic, so the specification carries its own.  An integer is   *)
(* [g |-> negative?, m |-> magnitude], the magnitude being a little endian    *)
(* sequence of base 10000 limbs without leading zero limbs (zero is <<>>).    *)
(* A rational is [n |-> integer, d |-> positive integer], not reduced: it is  *)
(* only ever compared by cross multiplication.                                *)
EXTENDS Integers, Sequences

B4 == 10000

RECURSIVE TrimM(_)
TrimM(m) == IF m = <<>> THEN m
            ELSE IF m[Len(m)] = 0 THEN TrimM(SubSeq(m, 1, Len(m) - 1)) ELSE m

SmallM(k) == IF k = 0 THEN <<>>
             ELSE IF k < B4 THEN <<k>>
             ELSE IF k < B4 * B4 THEN <<k % B4, k \div B4>>
             ELSE <<k % B4, (k \div B4) % B4, k \div (B4 * B4)>>
FromInt(k) == IF k < 0 THEN [g |-> TRUE, m |-> SmallM(-k)]
                       ELSE [g |-> FALSE, m |-> SmallM(k)]
Zero == [g |-> FALSE, m |-> <<>>]
One  == [g |-> FALSE, m |-> <<1>>]

\* Magnitudes that fit TLC's integers comfortably
IsSmall(b) == Len(b.m) <= 2
ToInt(b) == LET k == IF Len(b.m) = 0 THEN 0
                     ELSE IF Len(b.m) = 1 THEN b.m[1]
                     ELSE b.m[1] + B4 * b.m[2]
            IN IF b.g THEN -k ELSE k

IsZero(b) == b.m = <<>>
Mk(g, m) == [g |-> g /\ m # <<>>, m |-> m]

RECURSIVE CmpM(_, _, _)
CmpM(a, b, i) == IF i = 0 THEN 0
                 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1)
                 ELSE CmpM(a, b, i - 1)
CmpMag(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
                ELSE CmpM(a, b, Len(a))

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE AddM(_, _, _, _, _)
AddM(a, b, i, c, r) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN r ELSE Append(r, c))
  ELSE LET t == Limb(a, i) + Limb(b, i) + c
       IN AddM(a, b, i + 1, t \div B4, Append(r, t % B4))
RECURSIVE SubM(_, _, _, _, _)          \* a >= b
SubM(a, b, i, c, r) ==
  IF i > Len(a) THEN TrimM(r)
  ELSE LET t == a[i] - Limb(b, i) - c
       IN IF t < 0 THEN SubM(a, b, i + 1, 1, Append(r, t + B4))
                   ELSE SubM(a, b, i + 1, 0, Append(r, t))
RECURSIVE MulSmallM(_, _, _, _, _)
MulSmallM(a, k, i, c, r) ==            \* a * k + c,  k, c < B4
  IF i > Len(a) THEN (IF c = 0 THEN r ELSE Append(r, c))
  ELSE LET t == a[i] * k + c
       IN MulSmallM(a, k, i + 1, t \div B4, Append(r, t % B4))
MulAddSmall(a, k, c) == IF k = 0 THEN SmallM(c) ELSE MulSmallM(a, k, 1, c, <<>>)
RECURSIVE MulM(_, _, _, _)
MulM(a, b, i, r) ==                    \* from the most significant limb of b
  IF i = 0 THEN r
  ELSE LET sh == IF r = <<>> THEN <<>> ELSE <<0>> \o r
       IN MulM(a, b, i - 1, AddM(sh, MulAddSmall(a, b[i], 0), 1, 0, <<>>))

Neg(b) == Mk(~b.g, b.m)
Abs(b) == Mk(FALSE, b.m)
Add(a, b) ==
  IF IsSmall(a) /\ IsSmall(b) THEN FromInt(ToInt(a) + ToInt(b))
  ELSE IF a.g = b.g THEN Mk(a.g, AddM(a.m, b.m, 1, 0, <<>>))
  ELSE LET c == CmpMag(a.m, b.m)
       IN IF c = 0 THEN Zero
          ELSE IF c > 0 THEN Mk(a.g, SubM(a.m, b.m, 1, 0, <<>>))
          ELSE Mk(b.g, SubM(b.m, a.m, 1, 0, <<>>))
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) ==
  IF Len(a.m) <= 1 /\ Len(b.m) <= 1 THEN FromInt(ToInt(a) * ToInt(b))
  ELSE Mk(a.g # b.g, TrimM(MulM(a.m, b.m, Len(b.m), <<>>)))
Cmp(a, b) ==
  IF a.g # b.g THEN (IF a.g THEN -1 ELSE 1)
  ELSE LET c == CmpMag(a.m, b.m) IN IF a.g THEN -c ELSE c
Lt(a, b) == Cmp(a, b) < 0
Le(a, b) == Cmp(a, b) <= 0
BEq(a, b) == a.g = b.g /\ a.m = b.m

\* Long division of magnitudes, most significant limb first
RECURSIVE QDigit(_, _, _, _)           \* largest q in lo..hi with q*b <= r
QDigit(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF CmpMag(TrimM(MulAddSmall(b, mid, 0)), r) <= 0
          THEN QDigit(r, b, mid, hi) ELSE QDigit(r, b, lo, mid - 1)
RECURSIVE DivLoop(_, _, _, _, _)
DivLoop(a, b, i, q, r) ==              \* q: limbs found, most significant first
  IF i = 0 THEN [q |-> TrimM(q), r |-> r]
  ELSE LET r1 == TrimM(<<a[i]>> \o r)
           d  == QDigit(r1, b, 0, B4 - 1)
           r2 == IF d = 0 THEN r1
                 ELSE SubM(r1, TrimM(MulAddSmall(b, d, 0)), 1, 0, <<>>)
       IN DivLoop(a, b, i - 1, <<d>> \o q, r2)
DivModMag(a, b) ==
  IF Len(a) <= 2 /\ Len(b) <= 2
  THEN LET x == ToInt([g |-> FALSE, m |-> a])
           y == ToInt([g |-> FALSE, m |-> b])
       IN [q |-> SmallM(x \div y), r |-> SmallM(x % y)]
  ELSE DivLoop(a, b, Len(a), <<>>, <<>>)

\* Integer division rounds towards minus infinity
FloorDiv(a, b) ==
  LET dm == DivModMag(a.m, b.m)
  IN IF a.g = b.g THEN Mk(FALSE, dm.q)
     ELSE IF dm.r = <<>> THEN Mk(TRUE, dm.q)
     ELSE Neg(Add(Mk(FALSE, dm.q), One))
\* The remainder has the sign of the left operand
Rem(a, b) == Mk(a.g, DivModMag(a.m, b.m).r)

RECURSIVE PowMag(_, _)
Pow(a, k) == PowMag(a, k)              \* k: a TLC integer >= 0
PowMag(a, k) == IF k = 0 THEN One
                ELSE IF k % 2 = 1 THEN Mul(a, PowMag(a, k - 1))
                ELSE LET h == PowMag(a, k \div 2) IN Mul(h, h)

(* Rationals *)
QInt(b) == [n |-> b, d |-> One]
QAdd(x, y) == IF BEq(x.d, y.d) THEN [n |-> Add(x.n, y.n), d |-> x.d]
              ELSE [n |-> Add(Mul(x.n, y.d), Mul(y.n, x.d)), d |-> Mul(x.d, y.d)]
QNeg(x) == [x EXCEPT !.n = Neg(x.n)]
QAbs(x) == [x EXCEPT !.n = Abs(x.n)]
QSub(x, y) == QAdd(x, QNeg(y))
QMul(x, y) == [n |-> Mul(x.n, y.n), d |-> Mul(x.d, y.d)]
QDiv(x, y) == [n |-> Mk(x.n.g # y.n.g, Mul(Abs(x.n), y.d).m),
               d |-> Mul(x.d, Abs(y.n))]
QCmp(x, y) == Cmp(Mul(x.n, y.d), Mul(y.n, x.d))
QPow(x, k) == [n |-> Pow(x.n, k), d |-> Pow(x.d, k)]
\* Rounding to the nearest integer, ties away from zero
QRound(x) ==
  LET num == Add(Mul(FromInt(2), Abs(x.n)), x.d)
      q   == FloorDiv(num, Mul(FromInt(2), x.d))
  IN IF x.n.g THEN Neg(q) ELSE q

(* Digits *)
RECURSIVE Horner(_, _, _, _)
Horner(ds, base, i, m) ==
  IF i > Len(ds) THEN TrimM(m)
  ELSE Horner(ds, base, i + 1, MulAddSmall(m, base, ds[i]))
RECURSIVE DecLimbs(_, _)
DecLimbs(ds, r) ==                     \* groups of four digits from the right
  IF ds = <<>> THEN TrimM(r)
  ELSE LET n == Len(ds)
           k == IF n > 4 THEN n - 3 ELSE 1
           D(i) == IF i < k THEN 0 ELSE ds[i]
       IN DecLimbs(SubSeq(ds, 1, k - 1),
                   Append(r, D(n) + 10 * (IF n > 1 THEN D(n-1) ELSE 0)
                             + 100 * (IF n > 2 THEN D(n-2) ELSE 0)
                             + 1000 * (IF n > 3 THEN D(n-3) ELSE 0)))
FromDigits(ds, base) ==
  [g |-> FALSE, m |-> IF base = 10 THEN DecLimbs(ds, <<>>) ELSE Horner(ds, base, 1, <<>>)]
\* 10^k: the denominator of a decimal literal with k fractional digits
Ten(k) == Pow(FromInt(10), k)
=============================================================================
