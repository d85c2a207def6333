---------------------------- MODULE BpFilesTrace ----------------------------
(* Is a recorded history of mesh file set calls a behaviour of BpFiles?      *)
EXTENDS BpFiles, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES st, l
Ev == Trace[l]
Diag(s, e) == PrintT(<<"MISMATCH", l, e.op, "expected", Show(s, e), "observed", e.out>>)
TInit == l = 1 /\ st = Init0
Begin == Ev.op = "begin" /\ st' = Init0
Call == /\ Ev.op # "begin"
        /\ IF Valid(st, Ev) THEN TRUE ELSE Diag(st, Ev) /\ FALSE
        /\ st' = Next(st, Ev)
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Call)
TSpec == TInit /\ [][TNext]_<<st, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
