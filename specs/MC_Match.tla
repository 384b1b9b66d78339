------------------------------ MODULE MC_Match ------------------------------
(***************************************************************************)
(* Every pattern and every value of bounded length over an alphabet with   *)
(* all special characters. In every state the two definitions of Match.tla *)
(* are compared and laws of the relation checked; the values each pattern  *)
(* matches are written out, to be compared with utils.MatchResource.       *)
(***************************************************************************)
EXTENDS Match, Json, TLC, IOUtils
PLen == atoi(IOEnv.PLEN)
VLen == atoi(IOEnv.VLEN)

Letters == <<97, 47, 32, 58, 42>>            \* a / space : *
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {<< >>} ELSE LET T == Texts(n - 1) IN T \cup {Append(t, Letters[i]) : t \in {x \in T : Len(x) = n - 1}, i \in 1..Len(Letters)}
Values == Texts(VLen)
Plain(s) == \A i \in 1..Len(s) : s[i] # Star /\ s[i] # Colon

VARIABLE p
Init == p = << >>
Next == Len(p) < PLen /\ \E i \in 1..Len(Letters) : p' = Append(p, Letters[i])
Spec == Init /\ [][Next]_p

Matched == {v \in Values : MatchSeq(v, p)}
Agreed == \A v \in Values : MatchSeq(v, p) = MatchText(v, p)
\* a pattern without special characters matches itself only
Literal == Plain(p) => Matched = {p} \cap Values
\* the end of the pattern lies in the name of a parameter, where '*' is a character of the name
InName == \E i \in 1..Len(p) : p[i] = Colon /\ NameEnd(p, i + 1) > Len(p)
\* a pattern ending in '*' matches every extension of what it matches without
Extends == (p # << >> /\ ~InName /\ p[Len(p)] = Star) =>
             Matched = {v \in Values : \E k \in 0..Len(v) : MatchSeq(SubSeq(v, 1, k), SubSeq(p, 1, Len(p) - 1))}
\* doubling a '*' changes nothing
Doubled == (Len(p) >= 2 /\ ~InName /\ p[Len(p)] = Star /\ p[Len(p) - 1] = Star) => Matched = {v \in Values : MatchSeq(v, SubSeq(p, 1, Len(p) - 1))}
\* a pattern that is one parameter matches the values that are not empty and hold no '/'
OneParameter == (p # << >> /\ p[1] = Colon /\ NameEnd(p, 2) > Len(p)) => Matched = {v \in Values : v # << >> /\ \A i \in 1..Len(v) : v[i] # Slash}
Laws == Agreed /\ Literal /\ Extends /\ Doubled /\ OneParameter
Emit == PrintT("PATTERN " \o ToJson([p |-> p, m |-> Matched]))
=============================================================================
