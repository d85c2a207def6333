------------------------------ MODULE SlabTrace -----------------------------
(* Is a recorded history of partial reads and writes a behaviour of Slab?    *)
EXTENDS Slab, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES st, l
Ev == Trace[l]
TInit == l = 1 /\ st = NoData
Begin == Ev.op = "begin" /\ st' = NoData
Call == /\ Ev.op # "begin"
        /\ LET r == Step(st, Ev) IN
           /\ IF r.good THEN TRUE ELSE PrintT(<<"MISMATCH", l, Ev.op, "before", st, "after", r.st>>) /\ FALSE
           /\ st' = r.st
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Call)
TSpec == TInit /\ [][TNext]_<<st, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
