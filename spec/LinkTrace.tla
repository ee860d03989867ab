----------------------------- MODULE LinkTrace ------------------------------
(* Is a recorded execution with real sockets a behaviour of Link? *)
EXTENDS Link, TLC, Json, IOUtils
VARIABLES cs, l
tvars == <<links, peers, mail, cs, l>>
Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[cs].ev
More == l <= Len(Ev)
E == Ev[l]
TraceInit == cs \in 1..Len(Cases) /\ l = 1 /\ Init
EvOpen ==
  LET a == [via |-> E.via, adr |-> E.adr, pre |-> E.pre, port |-> E.port] IN
  /\ Open(E.l, a, E.cli)
  /\ E.ok = Opens(a)
  /\ (E.ok /\ ~E.cli => E.my = MyMac(E.l) /\ E.bc = BcMac(E.l))
EvClose == Close(E.l)
EvDown == Down(E.l)
EvPOpen == E.ok = PeerOpens(E.ip, E.port) /\ PeerOpen(E.p, E.ip, E.port)
EvPClose == PeerClose(E.p)
EvSend == Send(E.l, E.mac, E.b)
EvSent == E.ok = Sends(E.l, E.mac) /\ UNCHANGED lvars
EvPSend == PeerSend(E.p, E.ip, E.port, E.b)
EvGot == Got(E.to, E.ip, E.port, E.b)
EvWho == Who(E.l)
EvAsked == /\ E.ok = Asks(E.l, E.p)
           /\ (E.ok => E.v = E.tok /\ E.via = links[E.l].via /\ (IsUdp(E.l) => E.fport = links[E.l].port))
           /\ UNCHANGED lvars
EvSync == Settled /\ UNCHANGED lvars
EvEnd == Settled /\ UNCHANGED lvars
TraceNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED cs
  /\ CASE E.e = "open" -> EvOpen [] E.e = "close" -> EvClose [] E.e = "down" -> EvDown
       [] E.e = "popen" -> EvPOpen [] E.e = "pclose" -> EvPClose
       [] E.e = "send" -> EvSend [] E.e = "sent" -> EvSent [] E.e = "psend" -> EvPSend
       [] E.e = "got" -> EvGot [] E.e = "who" -> EvWho [] E.e = "asked" -> EvAsked
       [] E.e = "sync" -> EvSync [] E.e = "end" -> EvEnd
       [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Ended == Len(Ev) > 0 /\ Ev[Len(Ev)].e = "end"
Accepted == (~More /\ Ended) => PrintT(<<"ACCEPT", cs>>)
Reached == PrintT(<<"AT", cs, l>>)
=============================================================================
