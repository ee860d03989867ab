---------------------------- MODULE DiscoveryGen ----------------------------
(* Random behaviours of Discovery, as scripts for the real client. *)
EXTENDS Discovery, Wire, TLC, Json
CONSTANTS Profile, NC, MaxOps
VARIABLES script, nc, emitted, nums
gvars == <<now, coll, script, nc, emitted, nums>>
R(S) == RandomElement(S)
GDescribes(a, b) == TRUE
Instances == {0, 1, 2, 3, 5, 7, 100, 101, 255, 256, 65535, 4194302, 4194303}
Bounds == {-1, 0, 1, 2, 3, 5, 99, 100, 101, 256, 65535, 4194302, 4194303, 4194304}
Networks == {1, 2, 3, 5, 100, 255, 256, 1000, 65533, 65534}
GInit == Init /\ script = <<>> /\ nc = 0 /\ emitted = FALSE /\ nums = <<>>
Out(r) == script' = Append(script, r)

(* -------------------------------------------------------------- calls *)
Snds == <<<<>>, <<>>, <<>>, <<>>, <<[ok |-> TRUE, dur |-> 100]>>, <<[ok |-> FALSE, dur |-> 0]>>, <<[ok |-> TRUE, dur |-> 2500]>>,
          <<[ok |-> FALSE, dur |-> 1500]>>>>
GStart == \E k \in {R(1..6)} : \E a \in {R(Bounds)} : \E b \in {R(Bounds)} : \E w \in {R(1..3)} : \E s \in {R(1..Len(Snds))} :
          \E gb \in {R(1..6)} : \E net \in {R({0, 0, 0, 1, 7, 65534, 65535})} :
  LET kind == IF k <= 4 THEN "whois" ELSE IF k = 5 THEN "router" ELSE "netnum"
      lo == IF w = 1 THEN a ELSE IF a <= b THEN a ELSE b
      hi == IF w = 1 THEN b ELSE IF a <= b THEN b ELSE a
      L == IF lo <= 0 THEN 0 ELSE lo
      H == IF hi <= 0 THEN 4194304 ELSE hi
  IN /\ Start(nc + 1, kind, IF kind = "whois" THEN L ELSE 1, IF kind = "whois" THEN H ELSE 65534)
     /\ nc' = nc + 1
     /\ Out([op |-> kind, at |-> now, c |-> nc + 1, low |-> lo, high |-> hi, gb |-> gb = 1, net |-> net,
             snd |-> IF Profile = "fault" THEN Snds[s] ELSE <<>>])
     /\ UNCHANGED <<emitted, nums>>

(* ------------------------------------------------------ announcements *)
Quads == {<<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<0, 0, 0, 255>>, <<0, 0, 1, 0>>, <<0, 0, 5, 196>>, <<0, 0, 255, 255>>,
          <<0, 1, 0, 0>>, <<0, 0, 0, 206>>, <<0, 0, 4, 0>>, <<0, 255, 255, 255>>, <<1, 0, 0, 0>>, <<127, 255, 255, 255>>}
Macs == {<<10, 0, 0, 2, 186, 192>>, <<10, 0, 0, 3, 186, 192>>, <<192, 168, 15, 255, 0, 1>>, <<10, 0, 0, 2, 186, 193>>,
         <<255, 255, 255, 255, 255, 255>>, <<1, 2, 3, 4, 5, 6>>}
Adrs == {<<1>>, <<2>>, <<127>>, <<254>>, <<0>>, <<1, 2>>, <<9, 8, 7>>, <<1, 2, 3, 4, 5, 6>>, <<1, 2, 3, 4, 5, 6, 7>>}
IAmApdu(num, max, seg, vend) == UnconfReq(0, IAmBody([ty |-> 8, id |-> U32(num), max |-> max, seg |-> U32(seg), vend |-> vend]))
\* how it gets here: bytes of the frame, originating address, whether it counts at all
Wrap(w, body) ==
  CASE w = 1 -> BVLC(Unicast, body) [] w = 2 -> BVLC(Broadcast, body)
    [] w = 3 -> Fwd(<<172, 16, 5, 9, 186, 200>>, body) [] w = 4 -> Fwd(<<10, 0, 0, 3, 186, 192>>, body)
    [] w = 5 -> BVLC(0, body) [] w = 6 -> BVLC(9, body) [] w = 7 -> BVLC(5, body)
    [] w = 8 -> <<130>> \o Tail(BVLC(Broadcast, body)) [] w = 9 -> <<1>> \o Tail(BVLC(Unicast, body)) [] w = 10 -> BVLC(12, body)
Counts(w) == w <= 4
Origin(w, src) == CASE w = 3 -> <<172, 16, 5, 9, 186, 200>> [] w = 4 -> <<10, 0, 0, 3, 186, 192>> [] OTHER -> src
WrapMix == <<1, 1, 1, 2, 2, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, 10>>
None == [eff |-> "none", num |-> 0, dev |-> 0, nets |-> <<>>]
GIam == \E q \in {R(1..5)} : \E i0 \in {R(Instances)} : \E c \in {IF Colls = {} THEN 0 ELSE R(Colls)} : \E z \in {R(1..6)} :
        \E max \in {R(Quads)} : \E seg \in {R(0..3)} : \E vend \in {R(Quads)} : \E src \in {R(Macs)} :
        \E net \in {R({0, 0} \cup Networks)} : \E adr \in {R(Adrs)} : \E w \in {R(1..Len(WrapMix))} : \E bad \in {R(1..24)} :
        \E dst \in {R(1..4)} : \E nth \in {IF nums = <<>> THEN 0 ELSE R(1..Len(nums))} :
  LET edge == IF c # 0 /\ z <= 4
              THEN CASE z = 1 -> coll[c].lo [] z = 2 -> coll[c].hi [] z = 3 -> coll[c].lo - 1 [] OTHER -> coll[c].hi + 1
              ELSE i0
      num == IF q = 1 /\ nth # 0 THEN nums[nth] ELSE IF edge < 0 \/ edge > 4194303 THEN i0 ELSE edge
      dev == [num |-> num, id |-> U32(num), max |-> max, seg |-> U32(seg), vend |-> vend,
              org |-> Origin(WrapMix[w], src), net |-> net, adr |-> IF net = 0 THEN <<>> ELSE adr]
      good == IAmApdu(num, max, seg, vend)
      m == IAmBody([ty |-> 8, id |-> U32(num), max |-> max, seg |-> U32(seg), vend |-> vend])
      apdu == CASE bad = 1 -> UnconfReq(0, SubSeq(m, 1, Len(m) - 1 - Len(StripZeros(vend))))      \* no vendor
                [] bad = 2 -> UnconfReq(1, m)                                             \* I-Have
                [] bad = 3 -> UnconfReq(8, m)                                             \* Who-Is
                [] bad = 4 -> UnconfReq(0, SubSeq(m, 1, 3))
                [] bad = 5 -> ConfReq(0, 0, m)                                            \* a confirmed request
                [] bad = 6 -> ComplexAck(0, 0, m)
                [] bad = 7 -> UnconfReq(0, AppValue([t |-> "uint", b |-> max]) \o SubSeq(m, 6, Len(m)))  \* not an object id
                [] OTHER -> good
      np == [PlainNPDU EXCEPT !.src = IF net = 0 THEN NoAddr ELSE [net |-> net, adr |-> adr],
                              !.dst = IF dst = 1 THEN [net |-> 65535, adr |-> <<>>] ELSE NoAddr,
                              !.net = bad = 8, !.msg = IF bad = 8 THEN 3 ELSE 0]
      f == IF bad > 8 /\ Counts(WrapMix[w]) THEN [eff |-> "iam", num |-> num, dev |-> dev, nets |-> <<>>] ELSE None
  IN /\ coll' = [x \in Colls |-> Arrived(x, Len(script), f)] /\ UNCHANGED now
     /\ Out([op |-> "rx", at |-> now, b |-> Wrap(WrapMix[w], NPDU(np) \o apdu), src |-> src, f |-> f])
     /\ nums' = Append(nums, num)
     /\ UNCHANGED <<nc, emitted>>
GNet == \E k \in {R(1..5)} : \E nn \in {R({0, 1, 2, 3, 4, 6, 40})} : \E w \in {R(1..Len(WrapMix))} :
        \E src \in {R(Macs)} : \E one \in {R(Networks)} : \E two \in {R(Networks)} : \E s \in {R(1..4)} : \E tail \in {R({0, 1})} :
  LET List == [i \in 1..nn |-> IF i = 1 THEN one ELSE IF i = 2 THEN two ELSE IF i = 3 THEN one ELSE 300 + i]
      n0 == [PlainNPDU EXCEPT !.net = TRUE, !.src = IF s = 1 THEN [net |-> 77, adr |-> <<4, 4>>] ELSE NoAddr,
                              !.dst = IF s = 2 THEN [net |-> 65535, adr |-> <<>>] ELSE NoAddr]
      msg == CASE k <= 3 -> 1 [] k = 4 -> 19 [] OTHER -> R({0, 2, 3, 4, 5, 6, 7, 8, 9, 18, 129})
      body == CASE k <= 3 -> FlatSeq([i \in 1..nn |-> U16(List[i])]) [] k = 4 -> U16(one) \o <<tail>> [] OTHER -> U16(one)
      f == CASE ~Counts(WrapMix[w]) -> None
             [] k <= 3 -> [eff |-> "routers", num |-> 0, dev |-> 0, nets |-> List]
             [] k = 4 -> [eff |-> "netnum", num |-> 0, dev |-> 0, nets |-> <<one>>]
             [] OTHER -> None
  IN /\ coll' = [x \in Colls |-> Arrived(x, Len(script), f)] /\ UNCHANGED now
     /\ Out([op |-> "rx", at |-> now, b |-> Wrap(WrapMix[w], NPDU([n0 EXCEPT !.msg = msg]) \o body), src |-> src, f |-> f])
     /\ UNCHANGED <<nc, emitted, nums>>
GSync == Settle /\ Out([op |-> "sync", at |-> now]) /\ UNCHANGED <<nc, emitted, nums>>
GDone == \E c \in {x \in Colls : now >= DMin(x)} : coll' = [d \in Colls \ {c} |-> coll[d]] /\ UNCHANGED <<now, script, nc, emitted, nums>>
MinD == IF Colls = {} THEN now + 1000 ELSE CHOOSE d \in {DMin(c) : c \in Colls} : \A c \in Colls : d <= DMin(c)
GTick == \E p \in {R(1..8)} :
  LET t0 == CASE p = 1 -> MinD [] p = 2 -> MinD - 1 [] p = 3 -> now + 1 [] p = 4 -> now + 1999 [] p = 5 -> now + 700
              [] p = 6 -> now + 150 [] OTHER -> now + ((MinD - now) \div 2)
      t == IF t0 <= now THEN now + 1 ELSE IF t0 > MinD /\ MinD > now THEN MinD ELSE t0
  IN now' = t /\ coll' = [c \in Colls |-> [coll[c] EXCEPT !.reg = TRUE]] /\ UNCHANGED <<script, nc, emitted, nums>>
Over == Len(script) >= MaxOps \/ (nc = NC /\ Colls = {})
Emit == ~emitted /\ emitted' = TRUE /\ PrintT("SCRIPT " \o ToJson([full |-> TRUE, ops |-> script]))
        /\ UNCHANGED <<now, coll, script, nc, nums>>
GNext ==
  IF Over THEN Emit
  ELSE IF \E c \in Colls : now >= DMin(c) + 1 THEN GDone
  ELSE \E p \in {R(1..100)} :
     IF nc < NC /\ (Colls = {} \/ p <= 8) THEN GStart
     ELSE IF p <= 38 THEN (IF Profile = "nets" THEN GNet ELSE GIam)
     ELSE IF p <= 48 THEN (IF Profile = "nets" THEN GIam ELSE GNet)
     ELSE IF p <= 53 THEN GSync
     ELSE IF p <= 58 /\ \E c \in Colls : now >= DMin(c) THEN GDone
     ELSE GTick
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
