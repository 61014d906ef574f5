-------------------------------- MODULE SessionGen --------------------------------
(***************************************************************************)
(* Sessions over N calls.  Weave(a) = a, a, a, a+1, a, a+2, a, ... round   *)
(* to half of the circle: both orders of a with each of these; all weaves  *)
(* together have every ordered pair of calls as neighbours (AllPairs).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
N == atoi(IOEnv.N)
VARIABLES first, walk
H == N \div 2 + 1
Plus(a, k) == 1 + ((a + k - 1) % N)
Weave(a) == FoldLeft(LAMBDA s, k : s \o <<Plus(a, k - 1), a>>, <<a>>, [k \in 1..H |-> k])
Init == first \in 1..N /\ walk = Weave(first) /\ PrintT("BEH " \o ToJson([session |-> walk]))
Next == FALSE /\ UNCHANGED <<first, walk>>
Spec == Init /\ [][Next]_<<first, walk>>
Neighbours(x, y) == \E j \in 1..Len(walk) - 1 : walk[j] = x /\ walk[j + 1] = y
(* first meets the half circle behind it here, the other half meets it in its own weave *)
AllPairs == /\ \A k \in 0..H - 1 : Neighbours(first, Plus(first, k)) /\ Neighbours(Plus(first, k), first)
            /\ 2 * (H - 1) >= N - 1
=============================================================================
