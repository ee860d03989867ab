------------------------------ MODULE NetOpsMC ------------------------------
(***************************************************************************)
(* The algorithms of the calls, as steps against devices that may fail:    *)
(* every way they can end is allowed by NetOps (Ends), a priority slot     *)
(* changes only by the write or release aimed at it (OneSlot), and a write *)
(* reported as done is in its slot (Commanded).                            *)
(***************************************************************************)
EXTENDS NetOps
CONSTANTS Ops, Calls
VARIABLES cl,     \* the client: [ph, plan, at, tries, got]
          made    \* number of calls
mvars == <<nvars, cl, made>>
One == <<0, 0, 0, 1>>
IdD == <<0, 0, 0, 9>>
Oid(ty, in4) == AppValue([t |-> "oid", ty |-> ty, in |-> in4])
Real(b) == AppValue([t |-> "real", b |-> <<b, 0, 0, 0>>])
Ent(k, v, l, pa, def, whole) == [k |-> k, b |-> v, w |-> FALSE, l |-> l, whole |-> whole, pa |-> pa, def |-> def, vt |-> 4, of |-> Key(1, One, PV)]
E1(v) == Ent("v", v, <<>>, <<>>, <<>>, "ok")
NoPa == [i \in 1..16 |-> NullB]
\* an analog output, an analog value without description, and the device
Table(whole, els, descr) ==
  [key \in {Key(1, One, PV), Key(1, One, PA), Key(1, One, ObjName), Key(2, One, ObjName), Key(8, IdD, ObjList)} \cup
           {Key(1, One, Descr), Key(1, One, Units), Key(4, One, Units)} \cup (IF descr THEN {Key(2, One, Descr)} ELSE {}) |->
    CASE key = Key(1, One, PV) -> Ent("c", <<>>, <<>>, NoPa, Real(60), "ok")
      [] key = Key(1, One, PA) -> Ent("r", <<>>, <<>>, <<>>, <<>>, "ok")
      [] key = Key(8, IdD, ObjList) -> Ent("a", <<>>, els, <<>>, <<>>, whole)
      [] key = Key(1, One, ObjName) -> E1(Text8(<<65>>))
      [] key = Key(2, One, ObjName) -> E1(Text8(<<66>>))
      [] key \in {Key(1, One, Units), Key(4, One, Units)} -> E1(Enu(62))
      [] OTHER -> E1(Text8(<<67>>))]
Lists == {<<>>, <<Oid(1, One)>>, <<Oid(1, One), Oid(2, One)>>, <<Oid(8, IdD), <<>>>>}
Dev == [id |-> IdD, mac |-> <<10, 0, 0, 1, 186, 192>>, net |-> 0, adr |-> <<>>, iam |-> <<>>]
PCall(op, m, pri, b) == [op |-> op, d |-> 1, ty |-> 1, in |-> One, m |-> m, v |-> [t |-> "x", b |-> <<b, 0, 0, 0>>], pri |-> pri, max |-> 50, chk |-> FALSE]
CallsOf == {PCall(op, "real", pri, b) : op \in Ops \cap {"pwr"}, pri \in {0, 8, 16}, b \in {61, 62}}
           \cup {PCall(op, "real", pri, 0) : op \in Ops \cap {"prel"}, pri \in {0, 8, 16, 17}}
           \cup {PCall(op, "real", 0, 0) : op \in Ops \cap {"prd", "ppri", "rname", "rdname", "devobjs", "objects", "pdet"}}
           \cup {[PCall("pdet", "real", 0, 0) EXCEPT !.ty = t] : t \in IF "pdet" \in Ops THEN {2, 4} ELSE {}}
MCInit == \E whole \in IF Ops \cap {"devobjs", "objects"} = {} THEN {"ok"} ELSE {"ok", "abort", "error", "drop"},
             els \in IF Ops \cap {"devobjs", "objects"} = {} THEN {<<>>} ELSE Lists, descr \in IF "objects" \in Ops THEN BOOLEAN ELSE {TRUE} :
            NInit(<<Dev>>, <<Table(whole, els, descr)>>) /\ cl = [ph |-> "idle"] /\ made = 0

(* ------------------------------------------------------------ the plans *)
Read(ty, in4, p4, ix4) == [svc |-> SvcRP, os |-> <<[ty |-> ty, in |-> in4, props |-> <<[p |-> p4, ix |-> ix4, pri |-> 0, raw |-> <<>>]>>]>>]
Many(refs) == [svc |-> SvcRPM, os |-> [i \in 1..Len(refs) |-> [ty |-> refs[i].ty, in |-> refs[i].in, props |-> <<[p |-> refs[i].p, ix |-> refs[i].ix, pri |-> 0, raw |-> <<>>]>>]]]
Ref(ty, in4, p4, ix4) == [ty |-> ty, in |-> in4, p |-> p4, ix |-> ix4]
Plan(c) ==
  CASE c.op \in Writers -> IF Expressible(c) THEN <<[svc |-> SvcWP, os |-> <<[ty |-> c.ty, in |-> c.in, props |-> <<WantedProp(c)>>]>>]>> ELSE <<>>
    [] c.op = "prd" -> <<Read(c.ty, c.in, PV, ArrayAll)>>
    [] c.op = "ppri" -> <<Read(c.ty, c.in, PA, ArrayAll)>>
    [] c.op = "rname" -> <<Read(c.ty, c.in, ObjName, ArrayAll)>>
    [] c.op = "rdname" -> <<Read(8, IdD, ObjName, ArrayAll)>>
    [] c.op = "devobjs" -> <<Read(8, IdD, ObjList, ArrayAll)>>
    [] c.op = "pdet" -> <<Read(c.ty, c.in, ObjName, ArrayAll)>> \o IF c.ty \in {3, 4, 5} THEN <<>> ELSE <<Read(c.ty, c.in, Units, ArrayAll)>>
    [] c.op = "objects" -> <<Many(<<Ref(8, IdD, ObjList, <<0, 0, 0, 0>>)>>)>>
\* what a list is read as
Sent(d, q) == PropList(q.os)
ValueOf(d, r) == ReadOf(Tab(d), r.ty, r.in, r.p.p, r.p.ix)
Reply(q, fault) == IF fault \in {"drop", "lost", "late"} THEN [k |-> "none"]
                   ELSE IF fault \in {"error", "abort"} THEN [k |-> "err"]
                   ELSE IF q.svc = SvcWP THEN (IF WriteAll(Tab(1), PropList(q.os)).err = <<0, 0>> THEN [k |-> "ok", vs |-> <<>>] ELSE [k |-> "err"])
                   ELSE LET ps == PropList(q.os)
                            vs == [i \in 1..Len(ps) |-> [ref |-> ps[i], v |-> ValueOf(1, ps[i])]]
                        IN IF \E i \in 1..Len(vs) : vs[i].v.k \notin {"v", "e"} THEN [k |-> "none"]
                           ELSE IF \E i \in 1..Len(vs) : vs[i].v.k = "e" THEN [k |-> "err"]
                           ELSE [k |-> "ok", vs |-> CASE fault = "dropprop" -> SubSeq(vs, 1, Len(vs) - 1)
                                                      [] fault = "dupprop" -> [i \in 1..Len(vs) |-> vs[1]]
                                                      [] fault = "revobj" -> [i \in 1..Len(vs) |-> vs[Len(vs) + 1 - i]]
                                                      [] fault = "swapid" -> [i \in 1..Len(vs) |-> [vs[i] EXCEPT !.v = vs[Len(vs) + 1 - i].v, !.ref = vs[Len(vs) + 1 - i].ref]]
                                                      [] OTHER -> vs]
Faults(q) == {"", "drop", "lost", "error"} \cup (IF q.svc = SvcRPM THEN {"dropprop", "dupprop", "revobj"} ELSE {})
Tries(q) == IF q.svc = SvcRP THEN 1 ELSE 2
\* a reply is taken only if it answers exactly what was asked, in any order
Matches(q, vs) == LET ps == PropList(q.os) IN Len(vs) = Len(ps) /\ \A i \in 1..Len(ps) : \E j \in 1..Len(vs) : vs[j].ref = ps[i]
InOrder(q, vs) == LET ps == PropList(q.os) IN [i \in 1..Len(ps) |-> (vs[CHOOSE j \in 1..Len(vs) : vs[j].ref = ps[i]]).v]
\* what comes after the answers so far: more requests, or the end
Chunk(refs) == IF refs = <<>> THEN <<>> ELSE IF Len(refs) = 1 THEN <<Many(refs)>> ELSE <<Many(SubSeq(refs, 1, 2))>> \o (IF Len(refs) > 2 THEN <<Many(SubSeq(refs, 3, Len(refs)))>> ELSE <<>>)
Count(v) == IF IsUns(v) THEN N4(UnsOf(v)) ELSE 0
More(c, got) ==
  CASE c.op = "devobjs" /\ Len(got) = 1 /\ cl.fb -> IF IsUns(got[1]) THEN [i \in 1..Count(got[1]) |-> Read(8, IdD, ObjList, U32(i))] ELSE <<>>
    [] c.op = "objects" /\ Len(got) = 1 -> Chunk([i \in 1..Count(got[1]) |-> Ref(8, IdD, ObjList, U32(i))])
    [] c.op = "objects" /\ Len(got) = 1 + Count(got[1]) /\ Len(got) > 1 /\ (\A i \in 2..Len(got) : IsOid(got[i].b)) ->
         Chunk(FlatSeq([i \in 1..(Len(got) - 1) |-> <<Ref(OidOf(got[i + 1].b).ty, OidOf(got[i + 1].b).in, ObjName, ArrayAll), Ref(OidOf(got[i + 1].b).ty, OidOf(got[i + 1].b).in, Descr, ArrayAll)>>]))
    [] OTHER -> <<>>

Begin(c) == /\ made < Calls /\ cl.ph = "idle" /\ Call(c) /\ made' = made + 1
            /\ cl' = IF Plan(c) = <<>> THEN [ph |-> "fail", got |-> <<>>, fb |-> FALSE]
                     ELSE [ph |-> "run", plan |-> Plan(c), at |-> 1, tries |-> 0, got |-> <<>>, fb |-> FALSE]
Took(vs) == LET got == cl.got \o vs
                plan == IF cl.at = Len(cl.plan) THEN cl.plan \o More(cur, got) ELSE cl.plan
            IN [cl EXCEPT !.got = got, !.plan = plan, !.at = @ + 1, !.tries = 0, !.ph = IF cl.at = Len(plan) THEN "ok" ELSE "run"]
Failed(q) == IF cl.tries + 1 < Tries(q) THEN [cl EXCEPT !.tries = @ + 1]
             ELSE IF cur.op = "devobjs" /\ ~cl.fb THEN [cl EXCEPT !.fb = TRUE, !.plan = <<Read(8, IdD, ObjList, <<0, 0, 0, 0>>)>>, !.at = 1, !.tries = 0]
             ELSE IF cur.op = "pdet" THEN Took(<<[k |-> "e", b |-> <<>>]>>)
             ELSE [cl EXCEPT !.ph = "fail"]
Step == /\ cl.ph = "run" /\ UNCHANGED made
        /\ LET q == cl.plan[cl.at] IN \E f \in Faults(q) :
             LET rep == Reply(q, f) IN
             /\ Serve(1, q.svc, q.os, f)
             /\ cl' = CASE rep.k # "ok" -> Failed(q)
                        [] q.svc = SvcWP -> [cl EXCEPT !.ph = "ok"]
                        [] ~Matches(q, rep.vs) -> Failed(q)
                        [] OTHER -> Took(InOrder(q, rep.vs))
\* the value returned; a mistyped answer ends in an error
Split(b) == IF b = <<>> THEN <<>> ELSE LET RECURSIVE S(_)
                                         S(x) == IF x = <<>> THEN <<>> ELSE IF x[1] = 0 THEN <<NullB>> \o S(Tail(x))
                                                 ELSE <<SubSeq(x, 1, 5)>> \o S(SubSeq(x, 6, Len(x))) IN S(b)
SlotR(b) == IF b = NullB THEN [set |-> FALSE, b |-> <<>>] ELSE [set |-> TRUE, b |-> Tail(b)]
GotList == CASE cur.op = "devobjs" /\ ~cl.fb -> Split(cl.got[1].b)
             [] cur.op = "devobjs" -> [i \in 1..(Len(cl.got) - 1) |-> cl.got[i + 1].b]
GoodEnd == CASE cur.op = "devobjs" -> (cl.fb => IsUns(cl.got[1])) /\ \A i \in 1..Len(GotList) : IsOid(GotList[i])
             [] cur.op = "objects" -> IsUns(cl.got[1]) /\ (\A i \in 1..Count(cl.got[1]) : IsOid(cl.got[i + 1].b))
                                      /\ \A i \in (Count(cl.got[1]) + 2)..Len(cl.got) : IsStr(cl.got[i])
             [] OTHER -> TRUE
Result ==
  IF cl.ph = "fail" \/ ~GoodEnd THEN [ok |-> FALSE]
  ELSE CASE cur.op = "prd" -> [ok |-> TRUE, v |-> Tail(cl.got[1].b)]
         [] cur.op = "ppri" -> LET pa == Split(cl.got[1].b) IN [ok |-> TRUE, pa |-> [i \in 1..16 |-> SlotR(pa[i])], high |-> SlotR(FirstSet(pa, NullB))]
         [] cur.op \in {"rname", "rdname"} -> [ok |-> TRUE, s |-> NameOr(cl.got[1])]
         [] cur.op = "devobjs" -> [ok |-> TRUE, list |-> [i \in 1..Len(GotList) |-> OidOf(GotList[i])]]
         [] cur.op = "pdet" -> LET has == Len(cl.got) = 2 /\ IsUns(cl.got[2]) IN
              [ok |-> TRUE, det |-> [ty |-> cur.ty, in |-> cur.in, name |-> NameOr(cl.got[1]), unit |-> IF has THEN UnsOf(cl.got[2]) ELSE <<0, 0, 0, 0>>,
                                     us |-> IF has THEN UN!UnitName(N4(UnsOf(cl.got[2]))) ELSE "", pt |-> UN!TypeNames[cur.ty]]]
         [] cur.op = "objects" -> LET n == Count(cl.got[1]) IN
              [ok |-> TRUE, list |-> [i \in 1..n |-> LET o == OidOf(cl.got[i + 1].b) IN
                 [ty |-> o.ty, in |-> o.in, mty |-> o.ty, min |-> o.in, name |-> StrOf(cl.got[n + 2 * i]), desc |-> StrOf(cl.got[n + 2 * i + 1])]]]
         [] OTHER -> [ok |-> TRUE]
End == cl.ph \in {"ok", "fail"} /\ Return(Result) /\ cl' = [ph |-> "idle"] /\ UNCHANGED made
MCNext == (\E c \in CallsOf : Begin(c)) \/ Step \/ End
MCSpec == MCInit /\ [][MCNext]_mvars

(* ------------------------------------------------------- the properties *)
Ends == cl.ph \in {"ok", "fail"} => Outcome(cur, Result)
Spoken == cl.ph = "run" => LET q == cl.plan[cl.at] IN SizeOk(cur, q.svc, q.os) /\ (q.svc = SvcWP => MayWrite(cur, 1, q.svc, q.os))
PaNow == tabs[1][Key(1, One, PV)].pa
Commanded == (cl.ph = "ok" /\ cur.op \in {"pwr", "prel"}) =>
               /\ PaNow[Wanted(cur).slot] = Wanted(cur).raw
               /\ Current(tabs[1][Key(1, One, PV)]) = FirstSet(PaNow, Real(60))
OneSlot == [][\A i \in 1..16 : tabs'[1][Key(1, One, PV)].pa[i] # PaNow[i] => cur.op \in {"pwr", "prel"} /\ i = Wanted(cur).slot]_mvars
OnlyPV == [][\A key \in DOMAIN tabs[1] : key # Key(1, One, PV) => tabs'[1][key] = tabs[1][key]]_mvars
=============================================================================
