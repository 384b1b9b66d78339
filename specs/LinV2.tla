------------------------------- MODULE LinV2 -------------------------------
(***************************************************************************)
(* Checks histories of concurrent calls recorded from package v2: is there *)
(* an order of the calls, each placed between its begin and its end, in    *)
(* which V2.tla gives every one of them the result it had?                 *)
(*                                                                         *)
(* A trace is a sequential setup and several histories, each with items    *)
(* [k: "c", id, e] (a call began; e holds its result already), [k: "r",    *)
(* id] (it ended), [k: "q", qs] (queries when all had ended) and [k:       *)
(* "dead"] (the calls begun will never end), which nothing explains.       *)
(* Calls stand in the trace's list evs, and in histories by their place.   *)
(***************************************************************************)
EXTENDS V2, Json, IOUtils, Match

File == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == File.traces
MatchTab == [p \in DOMAIN File.perms |-> {r \in DOMAIN File.reqs : MatchSeq(File.reqs[r], File.perms[p])}]
TraceMatches(p, r) == r \in MatchTab[p]

VARIABLES
  tr, alt, l,   \* trace; history, 0 during the setup; place in it
  pend,         \* calls begun and not ended: id -> call
  todo          \* ids of those that have not taken effect
lvars == <<vars, tr, alt, l, pend, todo>>

LinInit == Init /\ tr \in 1..Len(Traces) /\ alt = 0 /\ l = 1 /\ pend = << >> /\ todo = {}

Queries == {"authorize", "can", "perms", "kids", "getRole", "getTenant", "defTenant"}
Got(q) == IF SetValued(q) THEN ToSet(q.res) ELSE q.res

Setup ==
  /\ alt = 0
  /\ IF l <= Len(Traces[tr].setup)
     THEN Do(Traces[tr].setup[l]) /\ out' = Traces[tr].setup[l].res /\ l' = l + 1 /\ alt' = 0
     ELSE alt' \in 1..Len(Traces[tr].alts) /\ l' = 1 /\ UNCHANGED vars
  /\ UNCHANGED <<tr, pend, todo>>

Item == Traces[tr].alts[alt][l]
Call(i) == Traces[tr].evs[i]

Begin ==
  /\ Item.k = "c"
  /\ pend' = Put(pend, Item.id, Call(Item.e)) /\ todo' = todo \cup {Item.id}
  /\ l' = l + 1 /\ UNCHANGED <<vars, tr, alt>>

\* a call takes effect; only when the history waits for some call to have done so
Effect(id) ==
  /\ \lnot ("crash" \in DOMAIN pend[id])
  /\ LET e == pend[id] IN
     IF e.op \in Queries
     THEN Got(e) = Answer(e) /\ UNCHANGED vars
     ELSE Do(e) /\ out' = e.res
  /\ todo' = todo \ {id} /\ UNCHANGED <<tr, alt, l, pend>>

End ==
  /\ Item.k = "r"
  /\ IF Item.id \in todo THEN \E id \in todo : Effect(id)
     ELSE /\ pend' = [x \in DOMAIN pend \ {Item.id} |-> pend[x]]
          /\ l' = l + 1 /\ UNCHANGED <<vars, tr, alt, todo>>

Afterwards ==
  /\ Item.k = "q"
  /\ (\A i \in 1..Len(Item.qs) : LET q == Call(Item.qs[i]) IN \lnot ("crash" \in DOMAIN q) /\ Got(q) = Answer(q)) = TRUE
  /\ PrintT(<<"ACCEPT", tr, alt>>)
  /\ l' = l + 1 /\ UNCHANGED <<vars, tr, alt, pend, todo>>

History == alt > 0 /\ l <= Len(Traces[tr].alts[alt]) /\ (Begin \/ End \/ Afterwards)

LinSpec == LinInit /\ [][Setup \/ History]_lvars
LinInv == Acyclic
=============================================================================
