------------------------------ MODULE LinTrie ------------------------------
(***************************************************************************)
(* Checks histories of concurrent calls recorded from package trie.  For   *)
(* every list of key values there are the records that may be stored under *)
(* it: a record stays possible until an insertion begun after its own had  *)
(* ended has ended itself.  A search must find every list under which only *)
(* accepted records could lie, each list once, and only records that were  *)
(* possible at some time during it.                                        *)
(*                                                                         *)
(* A trace is a sequential setup and several histories, as in LinV2.tla.   *)
(***************************************************************************)
EXTENDS Trie, Json, IOUtils

File == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == File.traces

VARIABLES
  tr, alt, l,   \* trace; history, 0 during the setup; place in it
  may,          \* store -> list of key values -> [r: record, b: when its insertion began, e: when it ended or 0]s
  pend,         \* calls begun and not ended: id -> [e: call, b: when it began]
  seen          \* queries under way: id -> [must: lists they have to find, all: records possible since they began]
lvars == <<vars, tr, alt, l, may, pend, seen>>

LinInit == /\ Init /\ tr \in 1..Len(Traces) /\ alt = 0 /\ l = 1 /\ may = << >> /\ pend = << >> /\ seen = << >>

Start == [t \in DOMAIN stores |-> [k \in DOMAIN stores[t] |-> {[r |-> stores[t][k], b |-> 0, e |-> 0]}]]
Setup ==
  /\ alt = 0
  /\ IF l <= Len(Traces[tr].setup)
     THEN Do(Traces[tr].setup[l]) /\ out' = Traces[tr].setup[l].res /\ l' = l + 1 /\ alt' = 0 /\ UNCHANGED may
     ELSE alt' \in 1..Len(Traces[tr].alts) /\ l' = 1 /\ UNCHANGED vars /\ may' = Start
  /\ UNCHANGED <<tr, pend, seen>>

Item == Traces[tr].alts[alt][l]
Call(i) == Traces[tr].evs[i]
At(M, t, k) == IF k \in DOMAIN M[t] THEN M[t][k] ELSE {}
Running == 1000000      \* end of an insertion that has not ended

\* records possible in store t of M, accepted by filter f
Possible(M, t) == UNION {{x.r : x \in M[t][k]} : k \in DOMAIN M[t]}
FilterOf(q) == IF q.op = "data" THEN [by |-> "all"] ELSE q.f
\* lists that hold some record for sure, whichever it is an accepted one
Sure(M, t, f) == {k \in DOMAIN M[t] : (\E x \in M[t][k] : x.e < Running) /\ \A x \in M[t][k] : Accepts(f, x.r)}

IsInsert(e) == e.op \in {"insert", "insertNil"}

Begin ==
  /\ Item.k = "c"
  /\ LET e == Call(Item.e) IN
     /\ \lnot ("crash" \in DOMAIN e)
     /\ IF e.op = "insert"
        THEN LET k == keys[e.h]
                 M == [may EXCEPT ![e.t] = Put(@, k, At(may, e.t, k) \cup {[r |-> e.h, b |-> l, e |-> Running]})]
             IN /\ may' = M
                /\ seen' = [q \in DOMAIN seen |->
                     [must |-> IF seen[q].t = e.t /\ ~Accepts(seen[q].f, e.h) THEN seen[q].must \ {k} ELSE seen[q].must,
                      all |-> IF seen[q].t = e.t THEN seen[q].all \cup {e.h} ELSE seen[q].all, t |-> seen[q].t, f |-> seen[q].f]]
        ELSE /\ may' = may
             /\ seen' = IF IsInsert(e) THEN seen
                        ELSE Put(seen, Item.id, [must |-> Sure(may, e.t, FilterOf(e)), all |-> Possible(may, e.t), t |-> e.t, f |-> FilterOf(e)])
     /\ pend' = Put(pend, Item.id, [e |-> e, b |-> l])
  /\ l' = l + 1 /\ UNCHANGED <<vars, tr, alt>>

\* what a query found, as it ends
Fine(q, must, all) ==
  LET found == {h \in all : Accepts(FilterOf(q), h)} IN
  IF SetValued(q)
  THEN /\ ToSet(q.res) \subseteq found
       /\ must \subseteq {keys[h] : h \in ToSet(q.res)}
       /\ Cardinality({keys[h] : h \in ToSet(q.res)}) = Len(q.res)
  ELSE IF q.res = "none" THEN must = {} ELSE q.res \in found

End ==
  /\ Item.k = "r"
  /\ LET x == pend[Item.id] IN
     /\ IF x.e.op = "insert"
        THEN LET k == keys[x.e.h] IN
             /\ x.e.res = "ok"
             \* what had ended before this one began is gone
             /\ may' = [may EXCEPT ![x.e.t][k] =
                          {[y EXCEPT !.e = IF y.b = x.b THEN l ELSE @] : y \in {z \in @ : ~(z.e < x.b) \/ z.b = x.b}}]
             /\ seen' = seen
        ELSE /\ may' = may
             /\ IF IsInsert(x.e) THEN x.e.res = "ok" /\ seen' = seen
                ELSE /\ Fine(x.e, seen[Item.id].must, seen[Item.id].all) = TRUE
                     /\ seen' = [q \in DOMAIN seen \ {Item.id} |-> seen[q]]
  /\ pend' = [y \in DOMAIN pend \ {Item.id} |-> pend[y]]
  /\ l' = l + 1 /\ UNCHANGED <<vars, tr, alt>>

Afterwards ==
  /\ Item.k = "q"
  /\ (\A i \in 1..Len(Item.qs) :
        LET q == Call(Item.qs[i]) IN \lnot ("crash" \in DOMAIN q) /\ Fine(q, Sure(may, q.t, FilterOf(q)), Possible(may, q.t))) = TRUE
  /\ PrintT(<<"ACCEPT", tr, alt>>)
  /\ l' = l + 1 /\ UNCHANGED <<vars, tr, alt, may, pend, seen>>

History == alt > 0 /\ l <= Len(Traces[tr].alts[alt]) /\ (Begin \/ End \/ Afterwards)
LinSpec == LinInit /\ [][Setup \/ History]_lvars
\* a list once filled stays so
LinInv == \A t \in DOMAIN may : \A k \in DOMAIN may[t] : may[t][k] # {}
=============================================================================
