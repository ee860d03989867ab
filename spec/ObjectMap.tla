----------------------------- MODULE ObjectMap -----------------------------
(***************************************************************************)
(* C28.  A map from (object type, instance) to an object; a round trip     *)
(* through JSON is a step that changes nothing.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE om             \* the set of entries; an entry is a record with the key in ty, in
Key(e) == <<e.ty, e.in>>
Init == om = {}
Put(e) == om' = {x \in om : Key(x) # Key(e)} \cup {e}
Del(ty, in) == om' = {x \in om : Key(x) # <<ty, in>>}
RoundTrip == om' = om
OneEach == \A x, y \in om : Key(x) = Key(y) => x = y
=============================================================================
