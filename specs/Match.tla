------------------------------- MODULE Match -------------------------------
(***************************************************************************)
(* Permission patterns (utils.MatchResource).  Texts are sequences of byte *)
(* values.                                                                 *)
(*                                                                         *)
(* MatchText is the meaning of a pattern in the form a reader would state  *)
(* it: the value can be divided along the pattern.  Matches is the same    *)
(* relation computed by following the set of positions reached, which is   *)
(* what the trace specifications evaluate; MC_Match checks that the two    *)
(* agree on every pattern and value within its bounds.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Star  == 42   \* '*'
Colon == 58   \* ':'
Slash == 47   \* '/'
Space == 32   \* ' '

Rest(s, i) == SubSeq(s, i, Len(s))

\* first index >= i of pattern p that holds '/' or ' ', or Len(p) + 1
RECURSIVE NameEnd(_, _)
NameEnd(p, i) == IF i > Len(p) \/ p[i] = Slash \/ p[i] = Space THEN i ELSE NameEnd(p, i + 1)

-----------------------------------------------------------------------------
(* Declarative: v can be divided along p. *)
RECURSIVE MatchText(_, _)
MatchText(v, p) ==
  IF p = << >> THEN v = << >>
  ELSE CASE Head(p) = Star ->
              \E k \in 0..Len(v) : MatchText(Rest(v, k + 1), Tail(p))
         [] Head(p) = Colon ->
              \E k \in 1..Len(v) : /\ \A j \in 1..k : v[j] # Slash
                                   /\ MatchText(Rest(v, k + 1), Rest(p, NameEnd(p, 2)))
         [] OTHER ->
              v # << >> /\ Head(v) = Head(p) /\ MatchText(Tail(v), Tail(p))

-----------------------------------------------------------------------------
(* Operational: pos is the set of lengths of prefixes of v matched by p[1..i-1]. *)
MinPos(S) == CHOOSE x \in S : \A y \in S : x <= y

RECURSIVE Follow(_, _, _, _)
Follow(v, p, i, pos) ==
  IF pos = {} THEN FALSE
  ELSE IF i > Len(p) THEN Len(v) \in pos
  ELSE CASE p[i] = Star -> Follow(v, p, i + 1, MinPos(pos)..Len(v))
         [] p[i] = Colon ->
              Follow(v, p, NameEnd(p, i + 1),
                     {e \in 1..Len(v) : v[e] # Slash /\ \E b \in pos : b < e /\ \A j \in (b + 1)..e : v[j] # Slash})
         [] OTHER -> Follow(v, p, i + 1, {e \in 1..Len(v) : v[e] = p[i] /\ (e - 1) \in pos})

MatchSeq(v, p) == Follow(v, p, 1, {0})
=============================================================================
