------------------------------ MODULE DiffTrace ------------------------------
(* Every recorded call has to be one that Diff.tla allows.                     *)
EXTENDS Diff, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF Valid(e) THEN TRUE
           ELSE PrintT(<<"MISMATCH", l, e.op, "expected", Show(e), "observed", e.out>>) /\ FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
==============================================================================
