--------------------------- MODULE PlanCacheTrace ---------------------------
(* Recorded create/drop/collect histories of real mesh objects.                *)
EXTENDS Integers, Sequences, FiniteSets, TraceIO
VARIABLE i
Rks(r) == DOMAIN r.rk
Obs(r, q, k) == r.rk[q][k]
IsCreate(r, k) == r.ops[k].op = "create"
\* the number of the creation at step k, and the step of creation c
NumOf(r, k) == Cardinality({j \in 1 .. k : IsCreate(r, j)})
\* object created at step j, still there on rank q (1-based) after step k?
Has(r, q, j, k) ==
  LET drops == {d \in j + 1 .. k : r.ops[d].op = "drop" /\ r.ops[d].s = r.ops[j].s}
      d1 == CHOOSE d \in drops : \A e \in drops : d <= e
      lingers(x) == \E y \in DOMAIN r.ops[x].R : r.ops[x].R[y] = (q - 1) % 2
  IN IsCreate(r, j) /\ j <= k /\
     (drops # {} => lingers(d1) /\ ~\E e \in d1 + 1 .. k : r.ops[e].op = "collect" /\ lingers(e))
Held(r, q, k) == {j \in 1 .. k : Has(r, q, j, k)}
\* a mesh made from another keeps its window
Geometry(o) == o.win = 1 /\ o.n = o.wantn /\ o.box = o.wantbox /\ o.dtype = o.wantt /\ o.np = o.wantnp
Placed(o) == o.comm /\ o.members = o.wantm /\ o.pmembers = o.wantm /\ o.pnp = o.wantnp /\ o.partn = o.wantn /\ o.partt = o.wantt
Toks(o) == {o.tok} \cup {o.plans[x] : x \in DOMAIN o.plans}
\* the same thing was asked for, as far as plans and process meshes go
SameKey(a, b) == a.wantn = b.wantn /\ a.wantt = b.wantt /\ a.wantnp = b.wantnp /\ a.wantm = b.wantm /\ a.wanth = b.wanth
Creates(r) == {k \in DOMAIN r.ops : IsCreate(r, k)}
History(r) ==
  IF r.st # "ok" THEN {"completes"}
  ELSE Failed([
    geometry |-> \A q \in Rks(r), k \in Creates(r) : Geometry(Obs(r, q, k)),
    placed |-> \A q \in Rks(r), k \in Creates(r) : Placed(Obs(r, q, k)),
    works |-> \A q \in Rks(r), k \in Creates(r) : LET o == Obs(r, q, k) IN o.back /\ o.zero = o.sum
                /\ ("late" \in DOMAIN o => \A x \in DOMAIN o.late : o.late[x].back /\ o.late[x].zero = o.late[x].sum),
    \* what an object uses was made by one creation, the same one on every rank of its communicator
    agree |-> \A q \in Rks(r), k \in Creates(r) : LET o == Obs(r, q, k) IN
                Cardinality(Toks(o)) = 1 /\ \A m \in DOMAIN o.members : Obs(r, o.members[m] + 1, k).tok = o.tok,
    \* never shared with another configuration
    nomix |-> \A q \in Rks(r), k, j \in Creates(r) : Obs(r, q, k).tok = Obs(r, q, j).tok =>
                /\ SameKey(Obs(r, q, k), Obs(r, q, j))
                /\ (r.kind = "plan" /\ ~r.samecfg => r.ops[k].c = r.ops[j].c),
    \* only what some object still there uses is alive
    released |-> /\ \A q \in Rks(r), k \in DOMAIN r.ops :
                      {Obs(r, q, k).live[x] : x \in DOMAIN Obs(r, q, k).live} \subseteq {Obs(r, q, j).tok : j \in Held(r, q, k)}
                 /\ \A q \in Rks(r) : r.end[q] = <<>>])
Verdict(r) == CASE r.k = "pmcache" -> History(r) [] OTHER -> {"unknown-record"}
Init == i = 1
Next == /\ i <= NTrace /\ PrintT(<<"V", i, Verdict(Trace[i])>>) /\ i' = i + 1
=============================================================================
