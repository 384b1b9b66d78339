-------------------------------- MODULE Trie --------------------------------
(***************************************************************************)
(* The generic record store of package trie.  A store maps lists of key    *)
(* values to records; a key value is written with its type, "nil" stands   *)
(* for an absent one.  Records are handles; keys gives a record's list.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, Functions, TLC

VARIABLES
  keys,     \* record -> its list of key values
  stores,   \* store -> (list of key values -> record)
  out
vars == <<keys, stores, out>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Init == keys = << >> /\ stores = << >> /\ out = "ok"

NewRecord(h, ks) == keys' = Put(keys, h, ks) /\ out' = "ok" /\ UNCHANGED stores
NewStore(t) == stores' = Put(stores, t, << >>) /\ out' = "ok" /\ UNCHANGED keys
Insert(t, h) == stores' = Put(stores, t, Put(stores[t], keys[h], h)) /\ out' = "ok" /\ UNCHANGED keys
InsertNothing(t) == out' = "ok" /\ UNCHANGED <<keys, stores>>

Do(e) ==
  CASE e.op = "newRecord" -> NewRecord(e.h, e.ks)
    [] e.op = "newStore"  -> NewStore(e.t)
    [] e.op = "insert"    -> Insert(e.t, e.h)
    [] e.op = "insertNil" -> InsertNothing(e.t)

Stored(t) == {stores[t][k] : k \in DOMAIN stores[t]}
(* Predicates: every record; none; those with a given value at a place of  *)
(* the list; those with lists of a length; those agreeing with a list in   *)
(* every place where it is not absent; those in a given set.               *)
Accepts(f, h) ==
  LET ks == keys[h] IN
  CASE f.by = "all"   -> TRUE
    [] f.by = "none"  -> FALSE
    [] f.by = "at"    -> f.i <= Len(ks) /\ ks[f.i] = f.v
    [] f.by = "len"   -> Len(ks) = f.n
    [] f.by = "like"  -> \A i \in 1..Len(f.ks) : f.ks[i] # "nil" => (i <= Len(ks) /\ ks[i] = f.ks[i])
    [] f.by = "in"    -> h \in ToSet(f.hs)
Found(q) == {h \in Stored(q.t) : Accepts(q.f, h)}

SetValued(q) == q.op \in {"search", "searchFunc", "data", "held"}
Answer(q) ==
  CASE q.op \in {"search", "searchFunc"} -> Found(q)
    [] q.op = "data" -> Stored(q.t)
    [] q.op = "held" -> ToSet(q.was)
    [] q.op \in {"first", "firstFunc"} -> IF Found(q) = {} THEN {"none"} ELSE Found(q)   \* one of these
Allowed(q, res) ==
  IF SetValued(q) THEN ToSet(res) = Answer(q) /\ Len(res) = Cardinality(Answer(q)) ELSE res \in Answer(q)

-----------------------------------------------------------------------------
OnePerKeys == \A t \in DOMAIN stores : \A h \in Stored(t) : stores[t][keys[h]] = h
FirstIsFound(q) == (Answer(q) = {"none"}) <=> (Found(q) = {})
=============================================================================
