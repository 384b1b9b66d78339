---------------------------- MODULE MC_V2_Removal ----------------------------
(* C07: every pattern against assignments that differ in single fields. *)
EXTENDS MC_V2, IOUtils
MDepth == atoi(IOEnv.DEPTH)
MSetup == <<
  ORole("R1", "r1"), OPerm("R1", <<"x">>), ORole("R2", "r2"), OPerm("R2", <<"y">>), ORoles("A", <<"R1", "R2">>),
  OTen("T1", "t1", TRUE, "n"), ONs("T1", "m", FALSE), OScopes("T1", "n", <<"s", "u">>), OScopes("T1", "m", <<"s">>),
  OTen("T2", "t2", TRUE, "n"), OScopes("T2", "n", <<"s">>), OTens(<<"T1", "T2">>),
  OAsg("A1", "p", "t1", "n", "s", "r1", FALSE), OAsg("A2", "q", "t1", "n", "s", "r1", FALSE), OAsg("A3", "p", "t2", "n", "s", "r1", FALSE),
  OAsg("A4", "p", "t1", "m", "s", "r1", FALSE), OAsg("A5", "p", "t1", "n", "u", "r1", FALSE), OAsg("A6", "p", "t1", "n", "s", "r2", FALSE),
  OAsg("A7", "p", "t1", "", "", "r1", FALSE) >>
Pats == {[p |-> p, t |-> t, n |-> n, s |-> s, r |-> r] : p \in {"", "p"}, t \in {"", "t1"}, n \in {"", "n"}, s \in {"", "s"}, r \in {"", "r1"}}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
MOps == << OHold(<<"A1", "A2", "A3", "A4", "A5", "A6", "A7">>), OHold(<<"A1">>), OHold(<<"A7", "A2">>), ORem("q", "", "", "", ""), ORem("", "", "m", "", ""),
           ORem("", "t2", "", "", ""), ORem("", "", "", "u", ""), ORem("", "", "", "", "r2"), ORem("z", "t1", "", "", "") >> \o
        SeqOf({[op |-> "remAsg", pat |-> x] : x \in Pats})
MQueries ==
  Cross2(LAMBDA t, r : Ask("p", t, "n", "s", r), <<"t1", "t2">>, <<"x", "y">>) \o
  << Ask("q", "t1", "n", "s", "x"), Ask("p", "t1", "m", "s", "x"), Ask("p", "t1", "n", "u", "x"), Ask("p", "t1", "n", "", "x"), Ask("p", "", "", "", "x"),
     AskCan("p", "t1", "n", "", <<"r1">>), AskCan("p", "t1", "n", "", <<"r2">>), AskCan("p", "t1", "m", "", <<"r1">>) >>
=============================================================================
