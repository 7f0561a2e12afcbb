-------------------------------- MODULE Trace --------------------------------
(* Validates recorded sessions of the real library: a behaviour reads the    *)
(* events of one session, each of which the specification must explain in    *)
(* the state that the events before it lead to.                              *)
EXTENDS Api, TLC, IOUtils, Json, CSV

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s,      \* the session that is read
          n,      \* events read so far
          store   \* the state of the library
vars == <<s, n, store>>

Events == Sessions[s][2]
Init == /\ s \in DOMAIN Sessions
        /\ n = 0
        /\ store = EmptyStore
(* A rejected event is reported (with what was expected, unless that is long) *)
(* and then passed over, so that the others are still read.                                                               *)
Next == /\ n < Len(Events)
        /\ LET e == Events[n + 1] IN
           /\ IF Explains(store, e[1], e[2], e[3], e[4]) THEN TRUE
              ELSE LET x == IF e[1] \in Relational THEN <<>> ELSE <<Expected(store, e[1], e[2])>>
                   IN CSVWrite("%1$s", <<<<s, n + 1, IF Len(ToString(x)) < 2000 THEN x ELSE <<>>>>>>, IOEnv.REJECTED)
           /\ store' = After(store, e[1], e[2], e[4])
        /\ n' = n + 1
        /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
(* A session's state is determined by what was read of it. *)
View == <<s, n>>
=============================================================================
