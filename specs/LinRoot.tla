------------------------------ MODULE LinRoot ------------------------------
(***************************************************************************)
(* Checks histories of concurrent calls recorded from the root package.    *)
(*                                                                         *)
(* Everything but locking and unlocking roles only adds.  So two states of *)
(* Root.tla bound what a query may see: lo, with what calls ended before   *)
(* it began have done, and hi, with what calls begun before it ends do.    *)
(* A query must answer at least what it answers on lo, and no more than on *)
(* hi; when all calls have ended, the two agree up to records that a       *)
(* default namespace set meanwhile did or did not give.                    *)
(*                                                                         *)
(* A trace is a sequential setup and several histories, as in LinV2.tla.   *)
(* In a workload a role is only locked or only unlocked, at most one       *)
(* default namespace is in use, and equal ids of attributes and of roles   *)
(* or tenants below others mean the same object.                           *)
(***************************************************************************)
EXTENDS Root, Json, IOUtils, Match

File == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == File.traces
MatchTab == [p \in DOMAIN File.perms |-> {r \in DOMAIN File.reqs : MatchSeq(File.reqs[r], File.perms[p])}]
TraceMatches(p, r) == r \in MatchTab[p]

VARIABLES
  tr, alt, l,   \* trace; history, 0 during the setup; place in it
  lo, hi,       \* the two states
  pend,         \* calls begun and not ended: id -> [e: call, at: lo when it began, ans: answer on lo]
  begun         \* handles whose registration has begun
lvars == <<vars, tr, alt, l, lo, hi, pend, begun>>

L == INSTANCE Root WITH regs <- lo.regs, ten <- lo.ten, role <- lo.role, grp <- lo.grp, rows <- lo.rows
H == INSTANCE Root WITH regs <- hi.regs, ten <- hi.ten, role <- hi.role, grp <- hi.grp, rows <- hi.rows

Now == [regs |-> regs, ten |-> ten, role |-> role, grp |-> grp, rows |-> rows]
LinInit == /\ Init /\ tr \in 1..Len(Traces) /\ alt = 0 /\ l = 1 /\ pend = << >> /\ begun = {}
           /\ lo = Now /\ hi = Now

Queries == {"authorize", "rows", "ids", "tenantsBy", "implicit", "children", "below"} \cup RoleQueries
AtRest == {"available", "scopesRoles"}          \* asked only when all calls have ended

-----------------------------------------------------------------------------
(* Effects on a state s.  c is the state that decides what the call found. *)
RowsOf(e, c) ==
  LET t == objs[e.h].id
      both(r) == {r} \cup IF c.ten[e.h].def = NIL THEN {} ELSE {[r EXCEPT !.n = c.ten[e.h].def]}
  IN CASE e.op = "tNs"      -> {Row(t, n, NIL, NIL, NIL, NIL) : n \in ToSet(e.ids)}
       [] e.op = "tRoles"   -> {Row(t, NIL, NIL, NIL, r, NIL) : r \in ToSet(e.ids)}
       [] e.op = "tScopes"  -> {Row(t, NIL, s, NIL, NIL, NIL) : s \in ToSet(e.ids)}
       [] e.op = "tNsScope" -> {Row(t, e.n, e.s, NIL, NIL, NIL)}
       [] e.op = "tPrNs"    -> {Row(t, e.n, NIL, e.p, e.r, NIL)}
       [] e.op = "tAssign"  -> UNION {both(Row(t, NIL, NIL, e.p, r, e.m)) : r \in ToSet(e.rs)}
       [] e.op = "tAssignS" -> UNION {both(Row(t, NIL, s, e.p, NIL, e.m)) : s \in ToSet(e.ss)}

GrantTo(s, h, g, as) == [s EXCEPT !.role[h].perms = Put(@, g, GiveFirst(Get(@, g, << >>), as))]

Adopted(s, e, c) ==
  LET kids == {e.hs[i] : i \in 1..Len(e.hs)}
      def == c.ten[e.h].def
  IN [s EXCEPT !.ten = [x \in DOMAIN s.ten |->
                          [kids |-> IF x = e.h THEN KeepAll(s.ten[x].kids, e.hs) ELSE s.ten[x].kids,
                           def |-> IF x \in kids /\ def # NIL THEN def ELSE s.ten[x].def]],
               !.rows = @ \cup IF def = NIL THEN {} ELSE {Row(objs[d].id, def, NIL, NIL, NIL, NIL) : d \in kids}]

Effect(s, e, c) ==
  CASE e.op = "reg"      -> [s EXCEPT !.regs[e.k] = Keep(@, objs[e.h].id, e.res)]
    [] e.op = "regs"     -> [s EXCEPT !.regs[e.k] = KeepAll(@, e.hs)]
    [] e.op = "data"     -> [s EXCEPT !.rows = @ \cup {e.row}]
    [] e.op = "tDef"     -> IF e.n \in DOMAIN c.regs["n"] THEN [s EXCEPT !.ten[e.h].def = e.n] ELSE s
    [] e.op = "tDesc"    -> Adopted(s, e, c)
    [] e.op \in {"tAssign", "tAssignS"} -> IF e.res = "ok" THEN [s EXCEPT !.rows = @ \cup RowsOf(e, c)] ELSE s
    [] e.op \in {"tNs", "tRoles", "tScopes", "tNsScope", "tPrNs"} -> [s EXCEPT !.rows = @ \cup RowsOf(e, c)]
    [] e.op = "lock"     -> [s EXCEPT !.role[e.h].lock = e.on]
    [] e.op = "grant"    -> IF e.res = "ok" THEN GrantTo(s, e.h, e.g, e.as) ELSE s
    [] e.op = "grantId"  -> IF e.res = "ok" /\ e.r \in DOMAIN hi.regs["r"] THEN GrantTo(s, hi.regs["r"][e.r], e.g, e.as) ELSE s
    [] e.op = "grantGrp" -> IF e.res = "ok" THEN [s EXCEPT !.role[e.h].perms = Keep(@, objs[e.g].id, s.grp[e.g])] ELSE s
    [] e.op = "rDesc"    -> IF e.res = "ok" THEN [s EXCEPT !.role[e.h].kids = KeepAll(@, e.hs)] ELSE s
    [] e.op = "gAttrs"   -> [s EXCEPT !.grp[e.g] = GiveLast(@, e.as)]

\* calls that find more once another has begun
Late(e) == e.op \in {"tDef", "tDesc", "tAssign", "tAssignS"}
RECURSIVE Fold(_, _)
Fold(s, ids) == IF ids = {} THEN s
  ELSE LET x == CHOOSE y \in ids : TRUE IN Fold(Effect(s, pend[x].e, s), ids \ {x})
Settled(s, e) ==
  LET ids == {x \in DOMAIN pend : Late(pend[x].e)}
  IN IF e.op \in {"reg", "regs", "tDef", "tDesc"} THEN Fold(Fold(Fold(s, ids), ids), ids) ELSE s
\* hi must know the role a call by id was made for
RECURSIVE FoldIds(_, _)
FoldIds(s, ids) == IF ids = {} THEN s
  ELSE LET x == CHOOSE y \in ids : TRUE
           e == pend[x].e
       IN FoldIds(IF e.r \in DOMAIN s.regs["r"] THEN GrantTo(s, s.regs["r"][e.r], e.g, e.as) ELSE s, ids \ {x})
SettledIds(s) == FoldIds(s, {x \in DOMAIN pend : pend[x].e.op = "grantId" /\ pend[x].e.res = "ok"})

-----------------------------------------------------------------------------
(* Results *)
MayLock(h, c)   == c.role[h].lock \/ hi.role[h].lock
MayUnlock(h, c) == ~c.role[h].lock \/ ~hi.role[h].lock
Registered(s, k, ids) == \A i \in 1..Len(ids) : ids[i] \in DOMAIN s.regs[k]
Can(s, e) == /\ e.r \in DOMAIN s.regs["r"] /\ e.g \in DOMAIN s.regs["g"]
             /\ \A i \in 1..Len(e.as) : objs[e.as[i]].id \in DOMAIN s.grp[s.regs["g"][e.g]]
\* c is lo when the call began, hi is as it ends
Legal(e, c) ==
  CASE e.op = "reg" -> e.res \in begun /\ hi.regs[e.k][objs[e.h].id] = e.res
    [] e.op \in {"tAssign", "tAssignS"} ->
         LET k == IF e.op = "tAssign" THEN "r" ELSE "s"
             xs == IF e.op = "tAssign" THEN e.rs ELSE e.ss
             good(s) == e.p \in DOMAIN s.regs["p"] /\ Registered(s, k, xs)
         IN IF e.res = "ok" THEN good(hi) ELSE e.res = "err" /\ ~good(c)
    [] e.op \in {"grant", "grantGrp", "rDesc"} -> IF e.res = "ok" THEN MayUnlock(e.h, c) ELSE e.res = "err" /\ MayLock(e.h, c)
    [] e.op = "grantId" ->
         IF e.res = "ok" THEN Can(hi, e) /\ MayUnlock(hi.regs["r"][e.r], c)
         ELSE e.res = "err" /\ (~Can(c, e) \/ MayLock(c.regs["r"][e.r], c))
    [] OTHER -> e.res = "ok"

Unique(s) == Len(s) = Cardinality(ToSet(s))
SetValued(q) == q.op \in {"rows", "ids", "tenantsBy", "implicit", "children", "below", "rolesBelow", "groupPerms", "list", "held"}
Groups(s) == {[g |-> s[i].g, as |-> ToSet(s[i].as)] : i \in 1..Len(s)}
Flat(G) == UNION {{<<x.g>>} \cup {<<x.g, a>> : a \in x.as} : x \in G}
\* a is the answer on lo when q began, b on hi as it ends
Between(q, a, b) ==
  CASE SetValued(q) -> a \subseteq ToSet(q.res) /\ ToSet(q.res) \subseteq b /\ Unique(q.res)
    [] q.op \in {"authorize", "has"} -> (a => q.res) /\ (q.res => b)
    [] q.op = "get" -> IF a # "none" THEN q.res = a ELSE q.res \in {"none", b}
    [] q.op = "totals" -> \A k \in DOMAIN b : a[k] <= q.res[k] /\ q.res[k] <= b[k]
    [] q.op \in {"perms", "implicitPerms"} ->
         /\ Flat(a) \subseteq Flat(Groups(q.res)) /\ Flat(Groups(q.res)) \subseteq Flat(b)
         /\ Cardinality({q.res[i].g : i \in 1..Len(q.res)}) = Len(q.res) /\ \A i \in 1..Len(q.res) : Unique(q.res[i].as)
    [] q.op = "available" ->
         a = b => /\ {[g |-> q.res[i].g, a |-> q.res[i].a, rs |-> ToSet(q.res[i].rs)] : i \in 1..Len(q.res)} = a
                  /\ Len(q.res) = Cardinality(a) /\ \A i \in 1..Len(q.res) : Unique(q.res[i].rs)
    [] q.op = "scopesRoles" -> lo = hi => {[s |-> q.res[i].s, rs |-> ToSet(q.res[i].rs)] : i \in 1..Len(q.res)} \in a

-----------------------------------------------------------------------------
Setup ==
  /\ alt = 0
  /\ IF l <= Len(Traces[tr].setup)
     THEN Do(Traces[tr].setup[l]) /\ out' = Traces[tr].setup[l].res /\ l' = l + 1 /\ alt' = 0 /\ UNCHANGED <<lo, hi, begun>>
     ELSE /\ alt' \in 1..Len(Traces[tr].alts) /\ l' = 1 /\ UNCHANGED vars
          /\ lo' = Now /\ hi' = Now /\ begun' = UNION {Range(regs[k]) : k \in Kinds}
  /\ UNCHANGED <<tr, pend>>

Item == Traces[tr].alts[alt][l]
Call(i) == Traces[tr].evs[i]

Begin ==
  /\ Item.k = "c"
  /\ \lnot ("crash" \in DOMAIN Call(Item.e))
  /\ LET e == Call(Item.e)
         isQ == e.op \in Queries
     IN /\ pend' = Put(pend, Item.id, [e |-> e, at |-> lo, ans |-> IF isQ THEN L!Answer(e) ELSE "ok"])
        /\ begun' = begun \cup (IF e.op = "reg" THEN {e.h} ELSE IF e.op = "regs" THEN ToSet(e.hs) ELSE {})
        /\ hi' = IF isQ THEN hi ELSE SettledIds(Settled(Effect(hi, e, hi), e))
  /\ l' = l + 1 /\ UNCHANGED <<vars, tr, alt, lo>>

End ==
  /\ Item.k = "r"
  /\ LET x == pend[Item.id]
         isQ == x.e.op \in Queries
     IN /\ (IF isQ THEN Between(x.e, x.ans, H!Answer(x.e)) ELSE Legal(x.e, x.at)) = TRUE
        /\ lo' = IF isQ THEN lo ELSE Effect(lo, x.e, x.at)
  /\ pend' = [y \in DOMAIN pend \ {Item.id} |-> pend[y]]
  /\ l' = l + 1 /\ UNCHANGED <<vars, tr, alt, hi, begun>>

Afterwards ==
  /\ Item.k = "q"
  /\ (\A i \in 1..Len(Item.qs) : LET q == Call(Item.qs[i]) IN \lnot ("crash" \in DOMAIN q) /\ Between(q, L!Answer(q), H!Answer(q))) = TRUE
  /\ PrintT(<<"ACCEPT", tr, alt>>)
  /\ l' = l + 1 /\ UNCHANGED <<vars, tr, alt, lo, hi, pend, begun>>

History == alt > 0 /\ l <= Len(Traces[tr].alts[alt]) /\ (Begin \/ End \/ Afterwards)

LinSpec == LinInit /\ [][Setup \/ History]_lvars
\* what has ended has begun
LinInv == alt > 0 => /\ lo.rows \subseteq hi.rows
                     /\ \A k \in Kinds : \A id \in DOMAIN lo.regs[k] : Get(hi.regs[k], id, "none") = lo.regs[k][id]
                     /\ \A h \in DOMAIN lo.role : \A g \in DOMAIN lo.role[h].perms :
                          g \in DOMAIN hi.role[h].perms /\ Range(lo.role[h].perms[g]) \subseteq Range(hi.role[h].perms[g])
=============================================================================
