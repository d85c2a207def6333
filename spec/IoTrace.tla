------------------------------- MODULE IoTrace ------------------------------
(* Is a recorded history of I/O calls a behaviour of IoModel?                *)
EXTENDS IoModel, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES st, l
Ev == Trace[l]
(* a call never changes the process-wide HDF5 options                        *)
Bad(r, e) == ~e.same \/ r.ok # e.ok \/ r.post # e.post \/ (e.ok /\ r.res # e.res)
Diag(r, e) == PrintT(<<"MISMATCH", l, e.op, "same options", e.same, "ok", r.ok, "res", r.res, IF r.post # e.post THEN <<"post", r.post>> ELSE <<>>>>)
TInit == l = 1 /\ st = Init0
Begin == Ev.op = "begin" /\ st' = Init0
Call == /\ Ev.op # "begin"
        /\ LET r == Step(st, Ev) IN
           /\ IF Bad(r, Ev) THEN Diag(r, Ev) /\ FALSE ELSE TRUE
           /\ st' = r.st
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Call)
TSpec == TInit /\ [][TNext]_<<st, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
