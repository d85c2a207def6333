#!/usr/bin/env python3
"""Writes spec/<M>Trace.tla/.cfg: trace acceptance for a functional module M
(operators Valid(e) and Show(e))."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for m in sys.argv[1:]:
    n = m + "Trace"
    head = "-" * 30 + " MODULE " + n + " " + "-" * 30
    open(V + "/spec/%s.tla" % n, "w").write(head + """
(* Every recorded call has to be one that %s.tla allows.                     *)
EXTENDS %s, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1
Next == /\\ l <= Len(Trace)
        /\\ LET e == Trace[l] IN
           IF Valid(e) THEN TRUE
           ELSE PrintT(<<"MISMATCH", l, e.op, "expected", Show(e), "observed", e.out>>) /\\ FALSE
        /\\ l' = l + 1
Spec == Init /\\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
""" % (m, m) + "=" * len(head) + "\n")
    open(V + "/spec/%s.cfg" % n, "w").write("SPECIFICATION Spec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n")
