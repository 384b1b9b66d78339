------------------------------ MODULE MC_Lists ------------------------------
(* C27: every way of building lists from lists, with slices taken, changed  *)
(* and extended in between.                                                 *)
EXTENDS Lists, Json, TLCExt, IOUtils
MDepth == atoi(IOEnv.DEPTH)
MSetup == << [op |-> "empty", l |-> "a"], [op |-> "empty", l |-> "b"], [op |-> "append", l |-> "b", from |-> "b", x |-> "i:1"], [op |-> "take", s |-> "s", l |-> "b"], [op |-> "empty", l |-> "c"] >>
A(l, f, x) == [op |-> "append", l |-> l, from |-> f, x |-> x]
C(l, a, b) == [op |-> "concat", l |-> l, a |-> a, b |-> b]
MOps == << A("a", "a", "i:2"), A("b", "a", "s:1"), A("a", "b", "i:1"), A("c", "a", "nil"), A("c", "b", "i:3"), C("a", "a", "b"), C("b", "b", "a"), C("c", "a", "b"), C("a", "a", "a"), C("c", "c", "b"),
  [op |-> "take", s |-> "s", l |-> "a"], [op |-> "take", s |-> "v", l |-> "a"], [op |-> "take", s |-> "v", l |-> "b"], [op |-> "set", s |-> "s", i |-> 1, x |-> "i:9"], [op |-> "extend", s |-> "s", x |-> "i:7"],
  [op |-> "extend", s |-> "s", x |-> "i:8"] >>
MQueries == << [op |-> "slice", l |-> "a"], [op |-> "slice", l |-> "b"], [op |-> "slice", l |-> "c"], [op |-> "isEmpty", l |-> "a"], [op |-> "isEmpty", l |-> "b"], [op |-> "isEmpty", l |-> "c"], [op |-> "read", s |-> "s"] >>

VARIABLES hist, tab
mcvars == <<vars, hist, tab>>
NS == Len(tab.setup)
MCInit == Init /\ hist = << >> /\ tab = [setup |-> MSetup, ops |-> MOps, queries |-> MQueries, depth |-> MDepth]
MCNext ==
  /\ \/ Len(hist) < NS /\ Do(tab.setup[Len(hist) + 1]) /\ hist' = Append(hist, Len(hist) + 1)
     \/ /\ Len(hist) >= NS /\ Len(hist) < NS + tab.depth
        /\ \E i \in 1..Len(tab.ops) : Do(tab.ops[i]) /\ hist' = Append(hist, NS + i)
  /\ UNCHANGED tab
MCSpec == MCInit /\ [][MCNext]_mcvars
MCView == <<lists, slices, IF Len(hist) < NS THEN Len(hist) ELSE NS>>
Answers == [k \in 1..Len(tab.queries) |-> Answer(tab.queries[k])]
EmitState == Len(hist) < NS \/ PrintT("STATE " \o ToJson([f |-> TLCFP(MCView), a |-> Answers]))
EmitStep == Len(hist') < NS \/
  PrintT("STEP " \o ToJson([f |-> TLCFP(MCView'), p |-> [i \in 1..(Len(hist') - NS) |-> hist'[NS + i] - NS], o |-> out']))
ASSUME PrintT("MODEL " \o ToJson([setup |-> MSetup, ops |-> MOps, queries |-> MQueries]))

LastCall == IF Len(hist) < NS THEN tab.setup[Len(hist) + 1] ELSE tab.ops[hist'[Len(hist')] - NS]
\* a call changes at most the list or slice it names as its result
Persistent == [][/\ \A l \in DOMAIN lists : lists'[l] # lists[l] => LastCall.op \in {"empty", "append", "concat"} /\ LastCall.l = l
                 /\ \A s \in DOMAIN slices : slices'[s] # slices[s] => LastCall.op \in {"take", "set", "extend"} /\ LastCall.s = s]_mcvars
ASSUME \A n \in 0..4 : \A xs \in [1..n -> {"i:1", "s:1", "nil"}] : CompactLaws(xs)
ASSUME \A n, m \in 0..3 : \A xs \in [1..n -> {"i:1", "s:1", "nil"}], ys \in [1..m -> {"i:1", "s:1", "nil"}] : SetLaws(xs, ys)
=============================================================================
