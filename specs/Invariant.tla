------------------------------ MODULE Invariant -----------------------------
(* Scale-invariant numbering of the integer modes Z^d, inside out.             *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Abs(x) == IF x < 0 THEN -x ELSE x
Shell(x) == IF x = <<>> THEN 0 ELSE Max({Abs(x[d]) : d \in DOMAIN x})
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Cube(M, d) == [1 .. d -> -M .. M]
\* with compression only the modes with non-negative last coordinate have a number
Numbered(x, comp) == ~comp \/ x = <<>> \/ x[Len(x)] >= 0
\* how many modes lie in the shells up to s
Volume(s, d, comp) == IF d = 0 THEN 1 ELSE IF comp THEN Pow(2 * s + 1, d - 1) * (s + 1) ELSE Pow(2 * s + 1, d)

\* ---- the numbering used: faces of a shell in turn, every face inside out ----
\* a face is the set of axes that touch the shell (cut) and the set of those that
\* touch it at the negative end (neg); faces are visited by increasing neg, then cut
Cut(x) == {d \in DOMAIN x : Abs(x[d]) = Shell(x)}
NegCut(x) == {d \in Cut(x) : x[d] < 0}
Code(S) == FoldSet(LAMBDA d, a : a + Pow(2, d - 1), 0, S)
RestAxes(x) == {d \in DOMAIN x : d \notin Cut(x)}
\* the coordinates on a set of axes, in order
RECURSIVE Pick(_, _, _)
Pick(x, S, d) == IF d > Len(x) THEN <<>> ELSE (IF d \in S THEN <<x[d]>> ELSE <<>>) \o Pick(x, S, d + 1)
Rest(x) == Pick(x, RestAxes(x), 1)
\* the last axis is still compressed on the face if it does not touch the shell
FaceComp(x, comp) == comp /\ x # <<>> /\ Len(x) \in RestAxes(x)
\* modes on the face (neg, cut) of shell s in d dimensions
FaceSize(d, s, cut, comp) ==
  LET k == d - Cardinality(cut) IN
  IF comp /\ d \notin cut THEN Pow(2 * s - 1, k - 1) * s ELSE Pow(2 * s - 1, k)
FacesBefore(x, comp) ==
  {f \in (SUBSET (1 .. Len(x))) \X (SUBSET (1 .. Len(x))) :
     LET neg == f[1] cut == f[2] IN
     /\ neg \subseteq cut /\ ~(comp /\ Len(x) \in neg)
     /\ cut # {}
     /\ \/ Code(neg) < Code(NegCut(x))
        \/ Code(neg) = Code(NegCut(x)) /\ Code(cut) < Code(Cut(x))}
RECURSIVE Index(_, _)
Index(x, comp) ==
  LET s == Shell(x) d == Len(x) IN
  IF s = 0 THEN 0
  ELSE Volume(s - 1, d, comp)
       + FoldSet(LAMBDA f, a : a + FaceSize(d, s, f[2], comp), 0, FacesBefore(x, comp))
       + Index(Rest(x), FaceComp(x, comp))
\* x comes before y
RECURSIVE Before(_, _)
Before(x, y) ==
  IF Shell(x) # Shell(y) THEN Shell(x) < Shell(y)
  ELSE IF NegCut(x) # NegCut(y) THEN Code(NegCut(x)) < Code(NegCut(y))
  ELSE IF Cut(x) # Cut(y) THEN Code(Cut(x)) < Code(Cut(y))
  ELSE RestAxes(x) # {} /\ x # y /\ Before(Rest(x), Rest(y))

\* ---- queries on a mesh of size n ----
\* a mesh of even size calls its Nyquist mode by either sign
Folded(n, x) == [d \in DOMAIN x |-> IF 2 * x[d] = -n[d] THEN -x[d] ELSE x[d]]
OnMesh(n, x) == \A d \in DOMAIN x : Abs(x[d]) <= n[d] \div 2

\* far modes have numbers beyond what TLC counts with: they are recorded as their
\* base 1000 digits, least significant first; <<>> stands for "no number"
Base == 1000
RECURSIVE Times(_, _, _, _)
Times(a, m, k, carry) ==
  IF k > Len(a) THEN (IF carry = 0 THEN <<>> ELSE <<carry % Base>> \o Times(a, m, k, carry \div Base))
  ELSE LET t == a[k] * m + carry IN <<t % Base>> \o Times(a, m, k + 1, t \div Base)
RECURSIVE BigPow(_, _)
BigPow(m, e) == IF e = 0 THEN <<1>> ELSE Times(BigPow(m, e - 1), m, 1, 0)
\* the same count as Volume
BigVolume(s, d, comp) ==
  IF d = 0 THEN <<1>> ELSE IF comp THEN Times(BigPow(2 * s + 1, d - 1), s + 1, 1, 0) ELSE BigPow(2 * s + 1, d)
Digit(a, k) == IF k <= Len(a) THEN a[k] ELSE 0
RECURSIVE LessAt(_, _, _)
LessAt(a, b, k) == IF k = 0 THEN FALSE
                   ELSE IF Digit(a, k) # Digit(b, k) THEN Digit(a, k) < Digit(b, k) ELSE LessAt(a, b, k - 1)
Less(a, b) == LessAt(a, b, IF Len(a) > Len(b) THEN Len(a) ELSE Len(b))
=============================================================================
