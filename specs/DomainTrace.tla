---------------------------- MODULE DomainTrace ----------------------------
(* Conformance of recorded decompositions, exchanges, gathers and ownership   *)
(* histories with the geometry in Domain.tla.                                 *)
EXTENDS Domain, TraceIO, FiniteSetsExt, SequencesExt

VARIABLE i

Ranks(r) == 0 .. r.nr - 1

\* --------------------------------------------------------------------------
\* the ids a rank must receive, given a targets table  tg[src+1][idx+1] : set of ranks
Wanted(tg, dst) ==
  {<<s, p>> \in UNION {{s} \X (0 .. Len(tg[s + 1]) - 1) : s \in 0 .. Len(tg) - 1} : dst \in tg[s + 1][p + 1]}

NoDup(q) == \A a, b \in DOMAIN q : a # b => q[a] # q[b]
IdLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Ordered(q) == \A a \in 1 .. Len(q) - 1 : IdLess(q[a], q[a + 1])
Set(q) == {q[a] : a \in DOMAIN q}

ValidAssign(r) == /\ r.agree
                  /\ Len(r.assign) = NDomains(r.edges)
                  /\ \A d \in DOMAIN r.assign : r.assign[d] \in Ranks(r)

TargetTable(r, smoothing) ==
  [s \in DOMAIN r.pos |-> [p \in DOMAIN r.pos[s] |-> Targets(r.edges, r.per, r.assign, r.pos[s][p], smoothing)]]

Decomp(r) ==
  IF ~ValidAssign(r) THEN {"assignment"}
  ELSE LET tg == TargetTable(r, r.s)
       IN Failed([
            missing |-> \A q \in Ranks(r) : Wanted(tg, q) \subseteq Set(r.got[q + 1]),
            extra   |-> \A q \in Ranks(r) : Set(r.got[q + 1]) \subseteq Wanted(tg, q),
            once    |-> \A q \in Ranks(r) : NoDup(r.got[q + 1]),
            lengths |-> \A q \in Ranks(r) : r.len[q + 1] = <<Len(r.pos[q + 1]), Len(r.got[q + 1])>>,
            inputs  |-> r.posok])

\* many particles at few distinct positions: counts per (source, class)
Bulk(r) ==
  IF ~ValidAssign(r) THEN {"assignment"}
  ELSE LET tg == [c \in DOMAIN r.pos |-> Targets(r.edges, r.per, r.assign, r.pos[c], r.s)]
       IN Failed([
            counts |-> \A q \in Ranks(r), s \in Ranks(r), c \in DOMAIN r.pos :
                         r.obs[q + 1][s + 1][2][c] = (IF q \in tg[c] THEN r.n[s + 1][c] ELSE 0),
            order  |-> \A q \in Ranks(r), s \in Ranks(r) : r.obs[q + 1][s + 1][1]])

\* positions just below zero in one axis: the wrapped point rounds to the upper
\* edge, so the last or the first non-empty cell may take it, but only one does,
\* and the decomposition, the primary test and the load agree on which
Tiny(r) ==
  IF ~ValidAssign(r) THEN {"assignment"}
  ELSE LET n == Len(r.base)
           cand(p) == LET hi == [r.base[p] EXCEPT ![r.ax[p]] = Period(r.edges[r.ax[p]]) - 1]
                          lo == [r.base[p] EXCEPT ![r.ax[p]] = 0]
                      IN DomainOf(r.edges, TRUE, hi) \cup DomainOf(r.edges, TRUE, lo)
           own(p) == {r.assign[d + 1] : d \in cand(p)}
           dest(p) == {q \in Ranks(r) : \E a \in DOMAIN r.got[q + 1] : r.got[q + 1][a] = p - 1}
           prim(p) == {q \in Ranks(r) : r.prim[q + 1][p]}
       IN Failed([
            delivered |-> \A p \in 1 .. n : Cardinality(dest(p)) = 1 /\ dest(p) \subseteq own(p),
            once      |-> \A q \in Ranks(r) : NoDup(r.got[q + 1]),
            primary   |-> \A p \in 1 .. n : prim(p) = dest(p),
            load      |-> \A q \in Ranks(r) : Len(r.load[q + 1]) = Len(r.assign) /\ FoldSeq(LAMBDA a, b : a + b, 0, r.load[q + 1]) = n])

\* --------------------------------------------------------------------------
\* Exchange: ids are what the layout delivers; every other array must follow them
IdsOk(r) == \A q \in Ranks(r) :
   /\ Ordered(r.ids[q + 1])
   /\ \A a \in DOMAIN r.ids[q + 1] : LET x == r.ids[q + 1][a] IN x[1] \in Ranks(r) /\ x[2] \in 0 .. r.lens[x[1] + 1] - 1

Copies(r, s) == Cardinality({<<q, a>> \in Ranks(r) \X (1 .. 100) : q # s /\ a <= Len(r.ids[q + 1]) /\ r.ids[q + 1][a][1] = s})

Exch(r) ==
  IF ~IdsOk(r) THEN {"order"}
  ELSE Failed([
     completes |-> \A c \in DOMAIN r.calls : \A q \in DOMAIN r.calls[c].st : r.calls[c].st[q] = "ok",
     fidelity  |-> \A c \in DOMAIN r.calls : \A k \in DOMAIN r.calls[c].cols :
                     LET col == r.calls[c].cols[k]
                     IN \A q \in Ranks(r) :
                          /\ Len(col.out[q + 1]) = Len(r.ids[q + 1])
                          /\ \A a \in DOMAIN r.ids[q + 1] :
                                col.out[q + 1][a] = col.inp[r.ids[q + 1][a][1] + 1][r.ids[q + 1][a][2] + 1],
     form      |-> \A c \in DOMAIN r.calls : \A k \in DOMAIN r.calls[c].cols : r.calls[c].cols[k].form,
     inputs    |-> \A c \in DOMAIN r.calls : r.calls[c].unch,
     layout    |-> r.layok,
     cost      |-> \A q \in Ranks(r) : Len(r.cost[q + 1]) = r.nr
                       /\ \A s \in Ranks(r) : r.cost[q + 1][s + 1] = Copies(r, s)])

\* A mismatch anywhere makes every rank raise; none anywhere lets every rank pass;
\* afterwards the layout still works.
ExErr(r) ==
  Failed([
     raises |-> IF r.anybad THEN \A q \in DOMAIN r.st : r.st[q] # "ok" ELSE \A q \in DOMAIN r.st : r.st[q] = "ok",
     usable |-> \A q \in DOMAIN r.st2 : r.st2[q] = "ok",
     order  |-> (\A q \in DOMAIN r.st2 : r.st2[q] = "ok") => IdsOk(r)])

\* --------------------------------------------------------------------------
\* Gather
CopiesOf(r, s, p) ==
  LET RECURSIVE F(_)
      F(q) == IF q < 0 THEN <<>>
              ELSE F(q - 1) \o SelectSeq([a \in DOMAIN r.ids[q + 1] |-> <<q, a>>],
                                        LAMBDA z : r.ids[z[1] + 1][z[2]] = <<s, p>>)
  IN F(r.nr - 1)

MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
Bool(x) == IF x # 0 THEN 1 ELSE 0
Fold(op(_, _), q) == LET RECURSIVE G(_)
                         G(k) == IF k = 1 THEN q[1] ELSE op(G(k - 1), q[k])
                     IN G(Len(q))
Plus(a, b) == a + b
Times(a, b) == a * b
Or(a, b) == Bool(Bool(a) + Bool(b))

Reduce(mode, q, got, first, useout, sent) ==
  \* q: values of the copies (possibly none), got: observed value
  CASE mode \in {"sum", "default"} -> got = (IF Len(q) = 0 THEN 0 ELSE Fold(Plus, q))
    [] mode = "add" -> IF Len(q) = 0 THEN TRUE ELSE got = Fold(Plus, q)
    [] mode = "multiply" -> IF Len(q) = 0 THEN TRUE ELSE got = Fold(Times, q)
    [] mode \in {"maximum", "fmax"} -> IF Len(q) = 0 THEN TRUE ELSE got = Fold(MaxI, q)
    [] mode = "minimum" -> IF Len(q) = 0 THEN TRUE ELSE got = Fold(MinI, q)
    [] mode = "logical_or" -> IF Len(q) = 0 THEN TRUE ELSE Bool(got) = Bool(Fold(Or, q))
    [] mode = "mean" -> IF Len(q) = 0 THEN TRUE ELSE got * Len(q) = 2520 * Fold(Plus, q)
    [] mode \in {"any", "round"} -> IF Len(q) = 0 THEN (useout => got = sent) ELSE \E a \in DOMAIN q : got = q[a]
    [] OTHER -> FALSE

GatherRows(r, c) ==
  \* the reducing modes: one row per original particle
  \A s \in Ranks(r) :
     /\ Len(c.out[s + 1]) = r.lens[s + 1]
     /\ \A p \in 1 .. r.lens[s + 1] :
          LET cp == CopiesOf(r, s, p - 1)
          IN /\ Len(c.out[s + 1][p]) = c.width
             /\ \A w \in 1 .. c.width :
                  Reduce(c.mode, [a \in DOMAIN cp |-> c.inp[cp[a][1] + 1][cp[a][2]][w]], c.out[s + 1][p][w], 0, c.useout, c.sent)

\* 'any' must not mix the components of different copies
AnyWhole(r, c) ==
  c.mode \in {"any", "round"} =>
    \A s \in Ranks(r) : \A p \in 1 .. r.lens[s + 1] :
      LET cp == CopiesOf(r, s, p - 1)
      IN Len(cp) = 0 \/ \E a \in DOMAIN cp : c.out[s + 1][p] = c.inp[cp[a][1] + 1][cp[a][2]]

GatherLocal(r, c) ==
  \A s \in Ranks(r) :
     /\ Len(c.out[s + 1]) = r.lens[s + 1]
     /\ \A p \in 1 .. r.lens[s + 1] :
          LET cp == SelectSeq(CopiesOf(r, s, p - 1), LAMBDA z : z[1] = s)
          IN IF Len(cp) = 0 THEN (c.useout => \A w \in 1 .. c.width : c.out[s + 1][p][w] = c.sent)
             ELSE c.out[s + 1][p] = c.inp[cp[1][1] + 1][cp[1][2]]

\* all copies, by destination rank and then by original position
GatherAll(r, c) ==
  \A s \in Ranks(r) :
    LET RECURSIVE F(_)
        F(q) == IF q < 0 THEN <<>>
                ELSE F(q - 1) \o SelectSeq([a \in DOMAIN r.ids[q + 1] |-> <<q, a>>],
                                          LAMBDA z : r.ids[z[1] + 1][z[2]][1] = s)
        cp == F(r.nr - 1)
    IN /\ Len(c.out[s + 1]) = Len(cp)
       /\ \A a \in DOMAIN cp : c.out[s + 1][a] = c.inp[cp[a][1] + 1][cp[a][2]]

GatherCall(r, c) ==
  IF \E q \in DOMAIN c.st : c.st[q] # "ok" THEN {"completes:" \o c.mode}
  ELSE (IF c.mode = "local" THEN (IF GatherLocal(r, c) THEN {} ELSE {"local"})
        ELSE IF c.mode = "all" THEN (IF GatherAll(r, c) THEN {} ELSE {"all"})
        ELSE (IF GatherRows(r, c) /\ AnyWhole(r, c) THEN {} ELSE {c.mode}))
       \cup (IF c.unch THEN {} ELSE {"inputs"})
       \cup (IF c.form THEN {} ELSE {"form"})

GatherV(r) ==
  IF ~IdsOk(r) THEN {"order"}
  ELSE UNION {GatherCall(r, r.calls[c]) : c \in DOMAIN r.calls}

\* --------------------------------------------------------------------------
\* Ownership histories: the state is the owner map; it changes only at "balance".
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)

AllPos(pp) == FlattenSeq(pp)

LoadOk(r, e) ==
  LET all == AllPos(e.pos)
      cnt(d) == Cardinality({a \in DOMAIN all : DomainOf(r.edges, r.per, all[a]) = {d}})
  IN \A q \in Ranks(r) : /\ Len(e.res[q + 1]) = NDomains(r.edges)
                         /\ \A d \in 0 .. NDomains(r.edges) - 1 : e.res[q + 1][d + 1] = Pow(cnt(d), e.gamma)

SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)

BalanceOk(r, e, old) ==
  LET new == e.res[1]
      nd == NDomains(r.edges)
      w(d) == e.w[d]
      tot == SumOver(1 .. nd, w)
      mx == Max({w(d) : d \in 1 .. nd})
      rl(q) == SumOver({d \in 1 .. nd : new[d] = q}, w)
  IN Failed([
       agree   |-> \A q \in Ranks(r) : e.res[q + 1] = new,
       valid   |-> Len(new) = nd /\ \A d \in 1 .. nd : new[d] \in Ranks(r),
       balance |-> nd > r.nr => \A q \in Ranks(r) : rl(q) * r.nr <= tot + mx * r.nr])

PrimOk(r, e, assign) ==
  \A a \in DOMAIN e.pos :
     {q \in Ranks(r) : e.res[q + 1][a]} = OwnerOf(r.edges, r.per, assign, e.pos[a])

DecOk(r, e, assign) ==
  LET tg == [s \in DOMAIN e.pos |-> [p \in DOMAIN e.pos[s] |-> OwnerOf(r.edges, r.per, assign, e.pos[s][p])]]
  IN \A q \in Ranks(r) : Set(e.res[q + 1]) = Wanted(tg, q) /\ NoDup(e.res[q + 1])

RECURSIVE Hist(_, _, _)
Hist(r, k, assign) ==
  IF k > Len(r.ev) THEN {}
  ELSE LET e == r.ev[k]
       IN CASE e.op = "load"    -> (IF LoadOk(r, e) THEN {} ELSE {"load"}) \cup Hist(r, k + 1, assign)
            [] e.op = "balance" -> LET f == BalanceOk(r, e, assign)
                                   IN IF "agree" \in f \/ "valid" \in f THEN f ELSE f \cup Hist(r, k + 1, e.res[1])
            [] e.op = "prim"    -> (IF PrimOk(r, e, assign) THEN {} ELSE {"primary"}) \cup Hist(r, k + 1, assign)
            [] e.op = "decomp"  -> (IF DecOk(r, e, assign) THEN {} ELSE {"decomposed"}) \cup Hist(r, k + 1, assign)
            [] OTHER -> {"unknown"}

HistV(r) == IF ~ValidAssign(r) THEN {"assignment"} ELSE Hist(r, 1, r.assign)

BulkOwn(r) ==
  IF ~ValidAssign(r) THEN {"assignment"}
  ELSE LET own(c) == OwnerOf(r.edges, r.per, r.assign, r.pos[c])
           dom(c) == DomainOf(r.edges, r.per, r.pos[c])
           ld(d) == SumOver({c \in DOMAIN r.pos : dom(c) = {d}}, LAMBDA c : r.n[c])
       IN Failed([
            primary |-> \A q \in Ranks(r), c \in DOMAIN r.pos : r.prim[q + 1][c] = (IF q \in own(c) THEN r.n[c] ELSE 0),
            load    |-> \A q \in Ranks(r) : Len(r.load[q + 1]) = NDomains(r.edges)
                           /\ \A d \in 0 .. NDomains(r.edges) - 1 : r.load[q + 1][d + 1] = ld(d)])

Uniform(r) ==
  IF ~(/\ r.close
       /\ Len(r.edges) = Len(r.box)
       /\ \A d \in DOMAIN r.edges : /\ Len(r.edges[d]) >= 2 /\ r.edges[d][1] = 0 /\ Period(r.edges[d]) = r.box[d]
                                    /\ \A j \in 1 .. Len(r.edges[d]) - 1 : r.edges[d][j] < r.edges[d][j + 1])
  THEN {"tiling"}
  ELSE LET nd == NDomains(r.edges)
           tg == [s \in DOMAIN r.pos |-> [p \in DOMAIN r.pos[s] |-> OwnerOf(r.edges, TRUE, r.assign, r.pos[s][p])]]
       IN Failed([
            size    |-> nd >= 1 /\ nd <= r.nr /\ Len(r.assign) = nd /\ \A d \in 1 .. nd : r.assign[d] \in Ranks(r),
            owner   |-> \A q \in Ranks(r) : Set(r.got[q + 1]) = Wanted(tg, q) /\ NoDup(r.got[q + 1]),
            primary |-> \A a \in DOMAIN r.all : {q \in Ranks(r) : r.prim[q + 1][a]} = OwnerOf(r.edges, TRUE, r.assign, r.all[a])])

\* grids too wide to list: equal cells, the owner map as runs, the load as its non-zero entries
Wide(r) ==
  LET nd == UniFlat([d \in DOMAIN r.n |-> r.n[d]], [d \in DOMAIN r.n |-> r.n[d] - 1]) + 1
      zero == Zero(Len(r.n))
      tg == [p \in DOMAIN r.pos |-> UniTargets(r.n, r.h, r.per, r.runs, r.pos[p], r.s)]
      dom(p) == UniDomains(r.n, r.h, r.per, r.pos[p], zero)
      ins == {p \in DOMAIN r.pos : dom(p) # {}}
      cnt(d) == Cardinality({p \in ins : dom(p) = {d}})
      doms == UNION {dom(p) : p \in ins}
      runsok == /\ r.agree /\ Len(r.runs) >= 1 /\ r.runs[1][1] = 0 /\ r.runs[Len(r.runs)][2] = nd - 1
                /\ \A k \in DOMAIN r.runs : r.runs[k][1] <= r.runs[k][2] /\ r.runs[k][3] \in Ranks(r)
                                           /\ (k > 1 => r.runs[k][1] = r.runs[k - 1][2] + 1)
  IN IF ~runsok THEN {"assignment"}
     ELSE Failed([
       completes |-> \A q \in DOMAIN r.st : r.st[q] = "ok",
       missing |-> \A p \in DOMAIN tg : \A q \in tg[p] : p - 1 \in Set(r.got[q + 1]),
       extra   |-> \A q \in Ranks(r) : \A a \in DOMAIN r.got[q + 1] : q \in tg[r.got[q + 1][a] + 1],
       once    |-> \A q \in Ranks(r) : NoDup(r.got[q + 1]),
       load    |-> \A q \in Ranks(r) : Set(r.load[q + 1]) = {<<d, cnt(d)>> : d \in doms} /\ NoDup(r.load[q + 1]),
       primary |-> \A p \in ins : {q \in Ranks(r) : r.prim[q + 1][p]} = UniTargets(r.n, r.h, r.per, r.runs, r.pos[p], zero)])

Verdict(r) ==
  CASE r.k = "decomp"  -> Decomp(r)
    [] r.k = "bulk"    -> Bulk(r)
    [] r.k = "tiny"    -> Tiny(r)
    [] r.k = "exch"    -> Exch(r)
    [] r.k = "experr"  -> ExErr(r)
    [] r.k = "gather"  -> GatherV(r)
    [] r.k = "hist"    -> HistV(r)
    [] r.k = "bulkown" -> BulkOwn(r)
    [] r.k = "uniform" -> Uniform(r)
    [] r.k = "wide"    -> Wide(r)
    [] OTHER -> {"unknown-record"}

Init == i = 0
Next == i < NTrace /\ i' = i + 1 /\ PrintT(<<"V", i + 1, Verdict(Trace[i + 1])>>)
=============================================================================
