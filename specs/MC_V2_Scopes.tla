---------------------------- MODULE MC_V2_Scopes ----------------------------
(* C01, C03, C08: namespaces, default namespaces and scopes. *)
EXTENDS MC_V2, IOUtils
MDepth == atoi(IOEnv.DEPTH)
MSetup == <<
  ORole("R0", "r0"), OPerm("R0", <<"w">>), ORole("R1", "r1"), OPerm("R1", <<"x">>), ORole("R2", "r2"), OPerm("R2", <<"y">>), ORole("R3", "r3"),
  ORole("R4", "r4"), OPerm("R4", <<"z">>), ORoles("A", <<"R0", "R1", "R2", "R3", "R4">>),
  OTen("T1", "t1", FALSE, ""), OTens(<<"T1">>),
  OAsg("A0", "p", "t1", "", "", "r0", FALSE), OAsg("A1", "p", "t1", "a", "", "r1", FALSE), OAsg("A2", "p", "t1", "", "s", "r2", FALSE),
  OAsg("A3", "p", "t1", "b", "s", "r3", FALSE), OAsg("A4", "p", "t1", "a", "s", "r4", FALSE) >>
MOps == <<
  OHold(<<"A0">>), OHold(<<"A1">>), OHold(<<"A2">>), OHold(<<"A3">>), OHold(<<"A4">>),
  ONs("T1", "a", FALSE), ONs("T1", "b", TRUE), ONs("T1", "b", FALSE), ONs("T1", "a", TRUE),
  OScopes("T1", "a", <<"s">>), OScopes("T1", "b", <<"s", "u">>), OPerm("R3", <<"z">>), [op |-> "addPerm", h |-> "R0", ps |-> <<"* *">>] >>
MQueries ==
  Cross2(LAMBDA n, r : Ask("p", "t1", n, "", r), <<"", "a", "b">>, <<"w", "x", "y", "z">>) \o
  Cross2(LAMBDA n, r : Ask("p", "t1", n, "s", r), <<"", "a", "b">>, <<"w", "x", "y", "z">>) \o
  << Ask("p", "t1", "b", "u", "w"), Ask("p", "", "a", "s", "z"), AskCan("p", "t1", "a", "", <<"r2">>), AskCan("p", "t1", "b", "s", <<"r1", "r3">>),
     AskCan("p", "", "", "", <<"r4">>), AskCan("p", "t1", "a", "u", <<"r1">>) >>
=============================================================================
