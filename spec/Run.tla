--------------------------------- MODULE Run ---------------------------------
(***************************************************************************)
(* Runs the programs of the file named by environment variable PROGRAMS    *)
(* and prints what each must be observed to do.                            *)
(***************************************************************************)
EXTENDS Interp
Programs == JsonDeserialize(IOEnv.PROGRAMS)
Init == \E k \in 1..Len(Programs) : m = InitOf(Programs[k]) /\ pid = Programs[k].id
Report == /\ (Done \/ Lost) /\ m.n >= 0
          /\ PrintT("@@" \o ToJson([Observation EXCEPT !.n = IF Done /\ "Racing" \notin m.seen THEN @ ELSE -1]))
          /\ m' = [n |-> -1] /\ UNCHANGED pid
Next == IF m.n < 0 THEN FALSE ELSE IF Done \/ Lost THEN Report ELSE Step
Spec == Init /\ [][Next]_vars
View == <<pid, m.n>>
=============================================================================
