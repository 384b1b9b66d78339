------------------------------- MODULE MC_Trie -------------------------------
(* C19: every sequence of insertions of records with all key lists up to    *)
(* length 2 over an absent value, a text and a number that looks like it.   *)
EXTENDS Trie, Json, TLCExt, IOUtils
MDepth == atoi(IOEnv.DEPTH)
Vals == <<"nil", "s:1", "i:1">>
Lists == << << >> >> \o [i \in 1..3 |-> <<Vals[i]>>] \o [k \in 1..9 |-> <<Vals[((k - 1) \div 3) + 1], Vals[((k - 1) % 3) + 1]>>]
\* two records per list, and a third for some
Rec(i) == [op |-> "newRecord", h |-> "r" \o ToString(i), ks |-> Lists[((i - 1) % Len(Lists)) + 1]]
NRec == 2 * Len(Lists)
MSetup == <<[op |-> "newStore", t |-> "t"], [op |-> "newStore", t |-> "u"]>> \o [i \in 1..NRec |-> Rec(i)]
MOps == [i \in 1..NRec |-> [op |-> "insert", t |-> "t", h |-> "r" \o ToString(i)]] \o <<[op |-> "insertNil", t |-> "t"], [op |-> "insert", t |-> "u", h |-> "r2"]>>
Q(o, f) == [op |-> o, t |-> "t", f |-> f]
All == [by |-> "all"]
MQueries == << Q("data", All), Q("search", All), Q("first", All), Q("firstFunc", All), Q("searchFunc", [by |-> "none"]), Q("first", [by |-> "none"]),
  Q("searchFunc", [by |-> "at", i |-> 1, v |-> "s:1"]), Q("firstFunc", [by |-> "at", i |-> 2, v |-> "i:1"]), Q("search", [by |-> "like", ks |-> <<"nil", "s:1">>]),
  Q("first", [by |-> "like", ks |-> <<"i:1">>]), Q("searchFunc", [by |-> "len", n |-> 1]), [op |-> "data", t |-> "u", f |-> All] >>

VARIABLES hist, tab
mcvars == <<vars, hist, tab>>
NS == Len(tab.setup)
MCInit == Init /\ hist = << >> /\ tab = [setup |-> MSetup, ops |-> MOps, queries |-> MQueries, depth |-> MDepth]
MCNext ==
  /\ \/ Len(hist) < NS /\ Do(tab.setup[Len(hist) + 1]) /\ hist' = Append(hist, Len(hist) + 1)
     \/ /\ Len(hist) >= NS /\ Len(hist) < NS + tab.depth
        /\ \E i \in 1..Len(tab.ops) : Do(tab.ops[i]) /\ hist' = Append(hist, NS + i)
  /\ UNCHANGED tab
MCSpec == MCInit /\ [][MCNext]_mcvars
MCView == <<keys, stores, IF Len(hist) < NS THEN Len(hist) ELSE NS>>
Answers == [k \in 1..Len(tab.queries) |-> Answer(tab.queries[k])]
EmitState == Len(hist) < NS \/ PrintT("STATE " \o ToJson([f |-> TLCFP(MCView), a |-> Answers]))
EmitStep == Len(hist') < NS \/
  PrintT("STEP " \o ToJson([f |-> TLCFP(MCView'), p |-> [i \in 1..(Len(hist') - NS) |-> hist'[NS + i] - NS], o |-> out']))
ASSUME PrintT("MODEL " \o ToJson([setup |-> MSetup, ops |-> MOps, queries |-> MQueries]))

\* the record stored under a list is the one inserted last among those with that list
Inserted == {i \in 1..Len(hist) : i > NS /\ tab.ops[hist[i] - NS].op = "insert" /\ tab.ops[hist[i] - NS].t = "t"}
RecAt(i) == tab.ops[hist[i] - NS].h
LastWins == Len(hist) >= NS =>
  /\ Stored("t") = {RecAt(i) : i \in {j \in Inserted : \A k \in Inserted : k > j => keys[RecAt(k)] # keys[RecAt(j)]}}
  /\ Cardinality(Stored("t")) = Cardinality({keys[RecAt(i)] : i \in Inserted})
Firsts == Len(hist) >= NS => \A k \in 1..Len(tab.queries) : tab.queries[k].op \in {"first", "firstFunc"} => FirstIsFound(tab.queries[k])
Kept == [][Cardinality(UNION {Stored(t)' : t \in DOMAIN stores'}) >= 0 /\ \A t \in DOMAIN stores : DOMAIN stores[t] \subseteq DOMAIN stores'[t]]_mcvars
=============================================================================
