-------------------------------- MODULE Lists --------------------------------
(***************************************************************************)
(* The persistent list of package ds, and the slice, set, text and pool    *)
(* helpers of package utils.  A list is a sequence of elements; slices are *)
(* those obtained from lists, which their owner may change.  Elements are  *)
(* written with their type ("i:1", "s:1", "nil", ...).                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

VARIABLES
  lists,    \* list -> its elements
  slices,   \* slice -> its elements
  out
vars == <<lists, slices, out>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Init == lists = << >> /\ slices = << >> /\ out = "ok"

MakeEmpty(l) == lists' = Put(lists, l, << >>) /\ out' = "ok" /\ UNCHANGED slices
AppendTo(l, from, x) == lists' = Put(lists, l, Append(lists[from], x)) /\ out' = "ok" /\ UNCHANGED slices
ConcatTo(l, a, b) == lists' = Put(lists, l, lists[a] \o lists[b]) /\ out' = "ok" /\ UNCHANGED slices
TakeSlice(s, l) == slices' = Put(slices, s, lists[l]) /\ out' = "ok" /\ UNCHANGED lists
SetInSlice(s, i, x) == slices' = Put(slices, s, IF i <= Len(slices[s]) THEN ReplaceAt(slices[s], i, x) ELSE slices[s]) /\ out' = "ok" /\ UNCHANGED lists
ExtendSlice(s, x) == slices' = Put(slices, s, Append(slices[s], x)) /\ out' = "ok" /\ UNCHANGED lists

Do(e) ==
  CASE e.op = "empty"    -> MakeEmpty(e.l)
    [] e.op = "append"   -> AppendTo(e.l, e.from, e.x)
    [] e.op = "concat"   -> ConcatTo(e.l, e.a, e.b)
    [] e.op = "take"     -> TakeSlice(e.s, e.l)
    [] e.op = "set"      -> SetInSlice(e.s, e.i, e.x)
    [] e.op = "extend"   -> ExtendSlice(e.s, e.x)

-----------------------------------------------------------------------------
(* Helpers *)
RECURSIVE CompactSeq(_, _)
CompactSeq(xs, seen) ==
  IF xs = << >> THEN << >>
  ELSE IF Head(xs) \in seen THEN CompactSeq(Tail(xs), seen)
  ELSE <<Head(xs)>> \o CompactSeq(Tail(xs), seen \cup {Head(xs)})
\* all pairs of positions accepted by the condition, left-major
RECURSIVE JoinFrom(_, _, _, _, _)
JoinFrom(xs, ys, i, j, R) ==
  IF i > Len(xs) THEN << >>
  ELSE IF j > Len(ys) THEN JoinFrom(xs, ys, i + 1, 1, R)
  ELSE (IF <<xs[i], ys[j]>> \in R THEN <<<<xs[i], ys[j]>>>> ELSE << >>) \o JoinFrom(xs, ys, i, j + 1, R)
Related(pairs) == {<<pairs[k][1], pairs[k][2]>> : k \in 1..Len(pairs)}

Ordered(q) == q.op \in {"slice", "read", "compact", "join"}
Answer(q) ==
  CASE q.op = "slice"    -> lists[q.l]
    [] q.op = "isEmpty"  -> lists[q.l] = << >>
    [] q.op = "read"     -> slices[q.s]
    [] q.op = "compact"  -> CompactSeq(q.xs, {})
    [] q.op = "contains" -> \E i \in 1..Len(q.xs) : q.xs[i] = q.x
    [] q.op = "join"     -> JoinFrom(q.xs, q.ys, 1, 1, Related(q.pairs))
    [] q.op = "intersection" -> SelectSeq(q.ys, LAMBDA y : y \in ToSet(q.xs))
    [] q.op = "union"    -> q.xs \o SelectSeq(q.ys, LAMBDA y : y \notin ToSet(q.xs))
    [] q.op = "text"     -> IF q.how = "nil" THEN "" ELSE q.x
    [] q.op = "pool"     -> q.fill
    [] q.op = "filter"   -> \A i \in 1..Len(q.row) : q.row[i] # "nil" /\ q.row[i] = q.like[i]

-----------------------------------------------------------------------------
(* Laws of the helpers, checked by MC_Lists *)
CompactLaws(xs) ==
  LET c == CompactSeq(xs, {}) IN
  /\ ToSet(c) = ToSet(xs) /\ Len(c) = Cardinality(ToSet(xs))
  /\ \A i, j \in 1..Len(c) : i < j =>
       \E a \in 1..Len(xs) : xs[a] = c[i] /\ \A b \in 1..a : xs[b] # c[j]
SetLaws(xs, ys) ==
  LET i == SelectSeq(ys, LAMBDA y : y \in ToSet(xs))
      u == xs \o SelectSeq(ys, LAMBDA y : y \notin ToSet(xs)) IN
  /\ ToSet(i) = ToSet(xs) \cap ToSet(ys) /\ ToSet(u) = ToSet(xs) \cup ToSet(ys)
  /\ Len(i) + Len(u) = Len(xs) + Len(ys)
=============================================================================
