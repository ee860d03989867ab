------------------------------ MODULE Requests ------------------------------
(***************************************************************************)
(* C18, C19, C20.  What a call of the client puts on the link: which       *)
(* requests are refused before anything is sent, and for the others the    *)
(* complete frame and where it goes.  One call is made after another.      *)
(***************************************************************************)
EXTENDS Wire, TLC
VARIABLES cur,    \* the call being made; its kind is "none" between two calls
          sent,   \* how often it was transmitted
          id,     \* with which invoke id
          acked   \* its acknowledgement was received
rvars == <<cur, sent, id, acked>>
Confirmed == {"rp", "rpm", "wp", "wpm"}
Writes == {"wp", "wpm"}
LinkBroadcast == <<10, 0, 0, 255, 186, 192>>       \* of the data link in use

(* ------------------------------------------------------- what is refused *)
ValueFits(c, o, p) ==
  /\ p.v.t # "list" => Encodable(p.v)
  /\ c.kind = "wp" /\ BinaryPV(o) => p.v.t \in {"uint", "null"}
ObjectFits(c, o) ==
  /\ IdFits(o.ty, o.in)
  /\ o.props # <<>>
  /\ \A i \in 1..Len(o.props) : IdFits(0, o.props[i].p) /\ (c.kind \in Writes => ValueFits(c, o, o.props[i]))
Expressible(c) ==
  CASE c.kind \in Confirmed -> c.objs # <<>> /\ \A i \in 1..Len(c.objs) : ObjectFits(c, c.objs[i])
    [] c.kind = "iam" -> IdFits(8, c.iam.id)
    [] OTHER -> TRUE

(* -------------------------------------------------------------- its frame *)
APDU(c, i) ==
  CASE c.kind = "rp"  -> ConfReq(i, SvcRP, RPBody(c.objs[1]))
    [] c.kind = "wp"  -> ConfReq(i, SvcWP, WPBody(c.objs[1]))
    [] c.kind = "rpm" -> ConfReq(i, SvcRPM, RPMBody(c.objs))
    [] c.kind = "wpm" -> ConfReq(i, SvcWPM, WPMBody(c.objs))
    [] c.kind = "whois" -> LET lo == IF c.low < 0 THEN 0 ELSE c.low
                               all == c.high <= 0 \/ c.high >= 4194303 \/ lo >= 4194303
                           IN UnconfReq(8, WhoIsBody(all, U32(lo), U32(IF all THEN 0 ELSE c.high)))
    [] c.kind = "iam" -> UnconfReq(0, IAmBody([ty |-> 8] @@ c.iam))
    [] OTHER -> <<>>
Dst(c) == CASE c.kind \in Confirmed \cup {"iam"} -> IF c.dev.addr.net = 0 THEN NoAddr ELSE [net |-> c.dev.addr.net, adr |-> c.dev.addr.adr]
            [] c.kind = "whois" -> [net |-> IF c.gb THEN 65535 ELSE c.net, adr |-> <<>>]
            [] OTHER -> NoAddr
Head6(c) == LET b == CASE c.kind = "router" -> NetMsg(0) [] c.kind = "netnum" -> NetMsg(18) [] OTHER -> PlainNPDU
            IN [b EXCEPT !.der = c.kind \in Confirmed, !.dst = Dst(c)]
Packet(c, i) == NPDU(Head6(c)) \o APDU(c, i)
\* an I-Am for one device is sent to it, others to everybody on a network
Everybody(c) == \/ c.kind \in {"whois", "router", "netnum"}
                \/ c.kind = "iam" /\ c.dev.addr.adr = <<>> /\ (c.dev.addr.net # 0 \/ c.dev.all)
Frame(c, i) == BVLC(IF Everybody(c) THEN Broadcast ELSE Unicast, Packet(c, i))
Target(c) == IF c.kind \in Confirmed \cup {"iam"} THEN c.dev.addr.mac ELSE LinkBroadcast
\* the network header counts, too
FitsDevice(c) == c.kind \in {"rpm", "wpm"} => c.dev.max > 0 /\ Len(Packet(c, 0)) <= c.dev.max
Sendable(c) == Expressible(c) /\ FitsDevice(c)

(* ----------------------------------------------------------------- steps *)
None == [kind |-> "none"]
Tries(c) == IF c.kind \in {"wp", "rpm", "wpm"} THEN 2 ELSE 1
Init == cur = None /\ sent = 0 /\ id = 0 /\ acked = FALSE
Call(c) == cur = None /\ cur' = c /\ sent' = 0 /\ acked' = FALSE /\ UNCHANGED id
Transmit(i) == /\ cur # None /\ Sendable(cur) /\ sent < Tries(cur) /\ ~acked
               /\ sent > 0 => i = id
               /\ id' = i /\ sent' = sent + 1 /\ UNCHANGED <<cur, acked>>
Reply == cur.kind \in Confirmed /\ sent > 0 /\ acked' = TRUE /\ UNCHANGED <<cur, sent, id>>
Outcome == IF ~Sendable(cur) THEN FALSE ELSE cur.kind \in Confirmed => acked
Return == /\ cur # None /\ Sendable(cur) => sent > 0
          /\ Sendable(cur) /\ cur.kind \in Confirmed /\ ~acked => sent = Tries(cur)
          /\ cur' = None /\ UNCHANGED <<sent, id, acked>>

(* ------------------------------------------------------------ properties *)
\* a peer reads the frame
ParsedNPDU(f) == SubSeq(f, 5, Len(f))
ParsedDst(f) == LET b == ParsedNPDU(f) IN
  IF (b[2] \div 32) % 2 = 0 THEN NoAddr
  ELSE [net |-> b[3] * 256 + b[4], adr |-> SubSeq(b, 6, 5 + b[5])]
ExpectsReply(f) == (f[6] \div 4) % 2 = 1
IsNetMsg(f) == f[6] \div 128 = 1
OnTheWire == cur # None /\ sent > 0
Addressed == OnTheWire => LET f == Frame(cur, id) IN
  /\ f[1] = 129 /\ f[3] * 256 + f[4] = Len(f)
  /\ cur.kind \in Confirmed => f[2] = 10 /\ ExpectsReply(f) /\ ~IsNetMsg(f)
  /\ cur.kind \in {"whois", "router", "netnum"} => f[2] = 11 /\ ~ExpectsReply(f)
  /\ ParsedDst(f) = Dst(cur)
  /\ cur.kind \in Confirmed \cup {"iam"} => (ParsedDst(f).net = 0) = (cur.dev.addr.net = 0)
NotTooLarge == OnTheWire /\ cur.kind \in {"rpm", "wpm"} => Len(ParsedNPDU(Frame(cur, id))) <= cur.dev.max
OnlyExpressible == OnTheWire => Expressible(cur)
BoundedTries == OnTheWire => sent <= Tries(cur)
Returns == cur # None ~> cur = None
=============================================================================
