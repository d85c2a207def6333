------------------------------ MODULE NodeTrace ------------------------------
(* Is a recorded execution of the library a behaviour of NodeModel?          *)
EXTENDS NodeModel, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES st, l
Ev == Trace[l]
Matches(r, e) ==
    /\ r.ok = e.ok
    /\ r.res = e.res
    /\ Observe(r.st) = e.post
    /\ Externals(r.st) = e.xs
    /\ LiveCount(r.st) = e.lv
    /\ AllocBytes(r.st) = e.ab
    /\ e.sane = <<>>
Diag(r, e) ==
    PrintT(<<"MISMATCH", l, e.op,
       IF r.ok # e.ok THEN <<"ok", r.ok>> ELSE <<>>,
       IF r.res # e.res THEN <<"res", r.res>> ELSE <<>>,
       IF Observe(r.st) # e.post THEN <<"post", Observe(r.st)>> ELSE <<>>,
       IF Externals(r.st) # e.xs THEN <<"xs", Externals(r.st)>> ELSE <<>>,
       IF LiveCount(r.st) # e.lv THEN <<"lv", LiveCount(r.st)>> ELSE <<>>,
       IF AllocBytes(r.st) # e.ab THEN <<"ab", AllocBytes(r.st)>> ELSE <<>>,
       IF e.sane # <<>> THEN <<"sane", e.sane>> ELSE <<>>>>)
TInit == l = 1 /\ st = Init0(<<>>)
Begin == Ev.op = "begin" /\ st' = Init0(Ev.xs)
Call  == /\ Ev.op # "begin"
         /\ LET r == Step(st, Ev) IN
            /\ IF Matches(r, Ev) THEN TRUE ELSE Diag(r, Ev) /\ FALSE
            /\ st' = r.st
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Call)
TSpec == TInit /\ [][TNext]_<<st, l>>
Inv == l > 1 => TreeOK(st) /\ OwnOK(st)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
