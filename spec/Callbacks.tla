----------------------------- MODULE Callbacks -----------------------------
(* Visiting the rows of the requested events of a trace in trace order:    *)
(* queues[e] are the positions of event e's rows still to be visited.      *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES queues, calls
cvars == <<queues, calls>>

HeadsOf(qs) == {e \in DOMAIN qs : qs[e] # <<>>}
NextEvent(qs) == CHOOSE e \in HeadsOf(qs) : \A x \in HeadsOf(qs) : Head(qs[e]) <= Head(qs[x])
Visit == /\ HeadsOf(queues) # {}
         /\ LET e == NextEvent(queues) IN
            /\ calls' = Append(calls, <<e, Head(queues[e])>>)
            /\ queues' = [queues EXCEPT ![e] = Tail(@)]
Done == HeadsOf(queues) = {}
InOrder == \A i, j \in 1..Len(calls) : i < j => calls[i][2] < calls[j][2]
===========================================================================
