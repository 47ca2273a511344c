------------------------------- MODULE Rotator -------------------------------
(* Taking turns with barriers only: rank r passes r + 1 barriers, works, and   *)
(* passes SIZE - r + 1 more, whether its work succeeds or raises.  A barrier   *)
(* lets a rank through once all ranks have arrived at it.                      *)
EXTENDS Integers, FiniteSets
CONSTANTS SIZE, TURNS
R == 0 .. SIZE - 1
Before(r) == r + 1
After(r) == SIZE - r + 1
Cycle == SIZE + 2
VARIABLES
  arrived,   \* barriers a rank has arrived at
  left,      \* barriers it has left
  work,      \* "no", "in": inside the body
  done,      \* turns finished by each rank, as outcomes
  turn       \* current turn of each rank
vars == <<arrived, left, work, done, turn>>
Init == arrived = [r \in R |-> 0] /\ left = [r \in R |-> 0] /\ work = [r \in R |-> "no"] /\ done = [r \in R |-> 0] /\ turn = [r \in R |-> 0]
\* barriers of the current turn that rank r has left
In(r) == left[r] - turn[r] * Cycle
Arrive(r) == /\ arrived[r] = left[r] /\ work[r] = "no" /\ turn[r] < TURNS
             /\ (In(r) = Before(r) => done[r] = turn[r] + 1) /\ In(r) < Cycle
             /\ arrived' = [arrived EXCEPT ![r] = @ + 1] /\ UNCHANGED <<left, work, done, turn>>
Leave(r) == /\ arrived[r] > left[r] /\ \A q \in R : arrived[q] >= arrived[r]
            /\ left' = [left EXCEPT ![r] = @ + 1] /\ UNCHANGED <<arrived, work, done, turn>>
Start(r) == /\ arrived[r] = left[r] /\ In(r) = Before(r) /\ work[r] = "no" /\ done[r] = turn[r] /\ turn[r] < TURNS
            /\ work' = [work EXCEPT ![r] = "in"] /\ UNCHANGED <<arrived, left, done, turn>>
Stop(r) == /\ work[r] = "in" /\ work' = [work EXCEPT ![r] = "no"] /\ done' = [done EXCEPT ![r] = @ + 1] /\ UNCHANGED <<arrived, left, turn>>
NextTurn(r) == /\ turn[r] < TURNS /\ arrived[r] = left[r] /\ In(r) = Cycle
               /\ turn' = [turn EXCEPT ![r] = @ + 1] /\ UNCHANGED <<arrived, left, work, done>>
Finished == \A r \in R : turn[r] = TURNS
Next == (\E r \in R : Arrive(r) \/ Leave(r) \/ Start(r) \/ Stop(r) \/ NextTurn(r)) \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* at most one rank works
Alone == Cardinality({r \in R : work[r] = "in"}) <= 1
\* in the order of the ranks, turn after turn
Ordered == \A r \in R : work[r] = "in" => \A q \in R : (q < r => done[q] > turn[r]) /\ (q > r => done[q] = turn[r])
\* nobody starts the next turn before all have finished this one
Together == \A r, q \in R : work[r] = "in" => done[q] >= turn[r]
Ends == <>Finished
=============================================================================
