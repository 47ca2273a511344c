------------------------------ MODULE PlanCache ------------------------------
(* Mesh objects sharing plans and process meshes through a weak cache, one     *)
(* cache per rank.  An object dropped by the caller may linger on some ranks   *)
(* until their garbage collector runs.  A creation is collective: all ranks    *)
(* must take the same decision, reuse or build anew.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NR, NSLOT, NCFG, HLEN
VARIABLES objs, slot, cache, nt, hist
vars == <<objs, slot, cache, nt, hist>>
Ranks == 0 .. NR - 1
Slots == 1 .. NSLOT
Cfgs == 1 .. NCFG
\* a template lives on a rank as long as an object that uses it does
Alive(r, t) == \E k \in DOMAIN objs : objs[k].t = t /\ objs[k].st[r] # "gone"
Has(r, c) == cache[r][c] # 0 /\ Alive(r, cache[r][c])
Init == /\ objs = <<>> /\ slot = [s \in Slots |-> 0] /\ cache = [r \in Ranks |-> [c \in Cfgs |-> 0]]
        /\ nt = 0 /\ hist = <<>>
Op(op, s, c, R) == hist' = Append(hist, [op |-> op, s |-> s, c |-> c, R |-> R])
Create(s, c) ==
  /\ slot[s] = 0 /\ \A z \in Slots : z < s => slot[z] # 0
  /\ LET reuse == \A r \in Ranks : Has(r, c)
         t(r) == IF reuse THEN cache[r][c] ELSE nt + 1
     IN /\ nt' = IF reuse THEN nt ELSE nt + 1
        /\ objs' = Append(objs, [cfg |-> c, t |-> t(0), st |-> [r \in Ranks |-> "live"]])
        /\ cache' = [r \in Ranks |-> [cache[r] EXCEPT ![c] = t(r)]]
  /\ slot' = [slot EXCEPT ![s] = Len(objs) + 1]
  /\ Op("create", s, c, {})
\* the caller lets go of an object; on the ranks in R it lingers
Drop(s, R) ==
  /\ slot[s] # 0
  /\ objs' = [objs EXCEPT ![slot[s]].st = [r \in Ranks |-> IF r \in R THEN "trash" ELSE "gone"]]
  /\ slot' = [slot EXCEPT ![s] = 0]
  /\ UNCHANGED <<cache, nt>> /\ Op("drop", s, 0, R)
Collect(r) ==
  /\ \E k \in DOMAIN objs : objs[k].st[r] = "trash"
  /\ objs' = [k \in DOMAIN objs |-> IF objs[k].st[r] = "trash" THEN [objs[k] EXCEPT !.st[r] = "gone"] ELSE objs[k]]
  /\ UNCHANGED <<slot, cache, nt>> /\ Op("collect", 0, 0, {r})
Step == \/ \E s \in Slots, c \in Cfgs : Create(s, c)
        \/ \E s \in Slots : \E R \in SUBSET Ranks : Drop(s, R)
        \/ \E r \in Ranks : Collect(r)
Next == IF Len(hist) = HLEN THEN UNCHANGED vars ELSE Step
\* whenever all ranks have something cached for a configuration it is the same thing
Agree == \A c \in Cfgs : (\A r \in Ranks : Has(r, c)) => \A r \in Ranks : cache[r][c] = cache[0][c]
\* a template serves one configuration
NoMix == \A a, b \in DOMAIN objs : objs[a].t = objs[b].t => objs[a].cfg = objs[b].cfg
\* what is cached for a configuration was made for it
Right == \A r \in Ranks, c \in Cfgs : Has(r, c) => \E k \in DOMAIN objs : objs[k].t = cache[r][c] /\ objs[k].cfg = c
\* templates held on a rank are those of objects still there
Released == \A r \in Ranks : Cardinality({t \in 1 .. nt : Alive(r, t)}) <= Cardinality({k \in DOMAIN objs : objs[k].st[r] # "gone"})
\* histories for replay end in a creation
Emit == (Len(hist) = HLEN /\ hist[HLEN].op = "create") => PrintT("H " \o ToJson(hist))
=============================================================================
