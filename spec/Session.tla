--------------------------------- MODULE Session ---------------------------------
(***************************************************************************)
(* A process that uses the package: any number of calls in any order.      *)
(* The package keeps no memory that shows: the answer to a call is a       *)
(* function of the call alone (Fresh), and a call leaves the shared state  *)
(* of the process as it was except for the components it exists to change  *)
(* (MayChange).                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Calls,            \* calls with all their arguments
          Fresh(_),         \* what a new process answers
          Components,       \* shared state of the process
          MayChange(_)      \* call -> the components it may change
VARIABLES shared,           \* [Components -> version]
          answers           \* history of <<call, answer>>
SessionInit == shared = [c \in Components |-> 0] /\ answers = <<>>
Answer(call, ans, after) ==
  /\ ans = Fresh(call)
  /\ \A c \in Components \ MayChange(call) : after[c] = shared[c]
  /\ shared' = after
  /\ answers' = Append(answers, <<call, ans>>)
=============================================================================
