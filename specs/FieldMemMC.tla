----------------------------- MODULE FieldMemMC -----------------------------
(* The abstract fields against a mechanism of strided views of words of        *)
(* memory, for every history of HLEN steps; also enumerates histories.         *)
EXTENDS FieldMem, Json
CONSTANTS HLEN, MAXF
VARIABLES s, words, hist
vars == <<s, words, hist>>
Vol == [r |-> 3, t |-> 2, u |-> 2]
\* cells of a view -> words; the last word is padding of the real view
Map == [r |-> << <<1>>, <<2>>, <<3>> >>, t |-> << <<1, 2>>, <<3, 4>> >>, u |-> << <<3, 4>>, <<1, 2>> >>]
View(w, k, c) == LET m == Map[k][c] IN IF Len(m) = 1 THEN <<w[m[1]], 0>> ELSE <<w[m[1]], w[m[2]]>>

Garbage == <<901, 902, 903, 904>>
\* the words of a buffer after writing v (a sequence of values) through kind k
Poke(w, k, v) == [i \in 1 .. 4 |-> IF \E c \in DOMAIN Map[k] : \E p \in DOMAIN Map[k][c] : Map[k][c][p] = i
                     THEN LET c == CHOOSE c \in DOMAIN Map[k] : \E p \in DOMAIN Map[k][c] : Map[k][c][p] = i
                              p == CHOOSE p \in DOMAIN Map[k][c] : Map[k][c][p] = i
                          IN v[c][p] ELSE w[i]]
Neg(v) == <<-v[1], -v[2]>>
Sum(v, x) == <<v[1] + x[1], v[2] + x[2]>>
Lift(op(_), v) == IF v = Unknown THEN Unknown ELSE op(v)
Lift2(op(_, _), v, x) == IF v = Unknown \/ x = Unknown THEN Unknown ELSE op(v, x)
\* what is seen by field f in the mechanism
Seen(f) == [c \in DOMAIN Map[Kind(s, f)] |-> View(words[Buf(s, f)], Kind(s, f), c)]
\* both take a step: abstract state a, memory w; unknown contents are then learnt
Go(a, w, h) == /\ s' = Learn(a, LAMBDA f, c : View(w[Buf(a, f)], Kind(a, f), c)) /\ words' = w /\ hist' = Append(hist, h)
H(op, a, b, k) == [op |-> op, a |-> a, b |-> b, k |-> k]
Last(x) == Len(x.fld)
Mk(k) == LET a == New(s, k, Vol) IN Go(a, Append(words, Garbage), H("new", 0, 0, k))
Sh(f, k) == Go(Share(s, f, k), words, H("share", f, 0, k))
\* a new field with an element-wise function of f
Un(f, n, op(_)) == LET k == Kind(s, f)
                       a == New(s, k, Vol)
                   IN Go(Put(a, Last(a), [c \in DOMAIN Val(s, f) |-> Lift(op, Val(s, f)[c])]),
                         Append(words, Poke(Garbage, k, [c \in DOMAIN Map[k] |-> op(Seen(f)[c])])), H(n, f, 0, k))
\* f op= g
In(f, g, n, op(_, _)) == LET k == Kind(s, f) IN
   /\ Kind(s, g) = k
   /\ Go(Put(s, f, [c \in DOMAIN Val(s, f) |-> Lift2(op, Val(s, f)[c], Val(s, g)[c])]),
         [words EXCEPT ![Buf(s, f)] = Poke(@, k, [c \in DOMAIN Map[k] |-> op(Seen(f)[c], Seen(g)[c])])], H(n, f, g, k))
Set(f, c) == LET k == Kind(s, f)
                 v == <<100 + 10 * Len(hist), IF k = "r" THEN 0 ELSE 101 + 10 * Len(hist)>>
             IN Go(Put(s, f, [Val(s, f) EXCEPT ![c] = v]), [words EXCEPT ![Buf(s, f)] = Poke(@, k, [Seen(f) EXCEPT ![c] = v])], H("set", f, c, k))
\* a transform from f to g: unspecified contents
Tr(f, g) == LET k == Kind(s, g)
                v == [c \in DOMAIN Map[k] |-> <<500 + c + 10 * Len(hist), IF k = "r" THEN 0 ELSE 600>>]
            IN /\ Kind(s, f) # k
               /\ Go(Scramble(s, g), [words EXCEPT ![Buf(s, g)] = Poke(@, k, v)], H("tr", f, g, k))
TrNew(f, k) == /\ Kind(s, f) # k
               /\ LET a == New(s, k, Vol)
                      v == [c \in DOMAIN Map[k] |-> <<500 + c + 10 * Len(hist), IF k = "r" THEN 0 ELSE 600>>]
                  IN Go(a, Append(words, Poke(Garbage, k, v)), H("trnew", f, 0, k))
Id(v) == v
Second(v, x) == x
Rm(f) == Go(Drop(s, f), words, H("drop", f, 0, Kind(s, f)))
More == Len(s.fld) < MAXF
Init == LET a == New(New(Empty, "r", Vol), "t", Vol)
            v == << <<1, 0>>, <<2, 0>>, <<3, 0>> >>
            x == << <<4, 5>>, <<6, 7>> >>
        IN /\ s = Put(Put(a, 1, v), 2, x) /\ words = <<Poke(Garbage, "r", v), Poke(Garbage, "t", x)>> /\ hist = <<>>
Step == \/ More /\ \E k \in DOMAIN Vol : Mk(k)
        \/ \E f \in Live(s) :
             \/ More /\ \E k \in DOMAIN Vol : Sh(f, k)
             \/ More /\ (Un(f, "copy", Id) \/ Un(f, "neg", Neg))
             \/ More /\ \E k \in DOMAIN Vol : TrNew(f, k)
             \/ \E g \in Live(s) : In(f, g, "add", Sum) \/ In(f, g, "into", Second) \/ Tr(f, g)
             \/ \E c \in DOMAIN Val(s, f) : c # 2 /\ Set(f, c)
             \/ Rm(f)
Next == IF Len(hist) = HLEN THEN UNCHANGED vars ELSE Step
\* whatever the specification claims to know of a field is what its view of the memory holds
Agree == Wrong(s, LAMBDA f, c : View(words[Buf(s, f)], Kind(s, f), c)) = {}
\* after a step every live field is fully known
Known == \A f \in Live(s) : \A c \in DOMAIN Val(s, f) : Val(s, f)[c] # Unknown
\* only fields on the memory written to change
Target(h) == CASE h.op \in {"new", "copy", "neg", "trnew"} -> Len(s.mem) + 1 [] h.op = "tr" -> Buf(s, h.b) [] OTHER -> Buf(s, h.a)
Others == [][hist' # hist => \A f \in Live(s) : Buf(s, f) # Target(hist'[Len(hist')]) => Val(s', f) = Val(s, f)]_vars
\* what is written through one field is seen through every other one of its kind
Same == \A f, g \in Live(s) : Buf(s, f) = Buf(s, g) /\ Kind(s, f) = Kind(s, g) => Val(s, f) = Val(s, g)
Emit == Len(hist) = HLEN => PrintT("H " \o ToJson(hist))
=============================================================================
