------------------------------ MODULE AddrCheck -----------------------------
(* Conversions of addresses: every line of TRACE is an address and what became of it. *)
EXTENDS Link, TLC, Json, IOUtils
VARIABLE cs
Cases == ndJsonDeserialize(IOEnv.TRACE)
AInit == Init /\ cs \in 1..Len(Cases)
ASpec == AInit /\ [][FALSE]_<<cs, lvars>>
Ok(c, o) ==
  LET m == Mac(c.ip, c.port) IN
  /\ o.e = "res"
  /\ \A k \in 1..5 : o.addr[k] = <<m, 6, 0, 0, <<>>>>
  /\ \A k \in 1..3 : o.back[k] = <<c.ip, c.port>>
  /\ o.nb = m
  \* a device whose port is not given has the standard port
  /\ o.dev = Mac(c.ip, RealPort(c.port)) /\ o.back[4] = <<c.ip, RealPort(c.port)>>
Accepted == Ok(Cases[cs].in, Cases[cs].out) => PrintT(<<"ACCEPT", cs>>)
=============================================================================
