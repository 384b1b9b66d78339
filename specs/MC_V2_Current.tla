---------------------------- MODULE MC_V2_Current ----------------------------
(* C05, C01: every kind of change, with decisions asked in between. *)
EXTENDS MC_V2, IOUtils
MDepth == atoi(IOEnv.DEPTH)
MSetup == <<
  ORole("R1", "r1"), ORole("R2", "r2"), OPerm("R2", <<"y">>), ORole("R3", "r1"), OPerm("R3", <<"z">>), ORoles("A", <<"R1", "R2">>), ORoles("D", <<"R1", "R2">>),
  OTen("T1", "t1", TRUE, "n"), OTens(<<"T1">>), OTen("T2", "t1", FALSE, ""), ONs("T2", "m", FALSE),
  OAsg("A1", "p", "t1", "", "", "r1", FALSE), OAsg("A2", "p", "t1", "", "s", "r2", FALSE), OAsg("A3", "p", "t1", "m", "", "r2", FALSE) >>
MOps == << OPerm("R1", <<"x">>), OUnperm("R1", <<"x">>), OPerm("R2", <<"x", "*">>), OUnperm("R2", <<"y", "q">>), OLink("A", "r1", <<"r2">>), OLink("D", "r1", <<"r2">>),
  ORoles("A", <<"R3">>), ORoles("D", <<"R3">>), ORoles("A", <<"R1">>), OHold(<<"A1">>), OHold(<<"A2", "A3">>), ORem("p", "", "", "s", ""), ORem("", "", "", "", "r1"),
  OTens(<<"T2">>), OTens(<<"T1">>), ONs("T1", "m", TRUE), OScopes("T1", "n", <<"s">>), OScopes("T2", "m", <<"s">>), ODef("t1") >>
MQueries ==
  Cross2(LAMBDA s, r : Ask("p", "t1", "", s, r), <<"", "s">>, <<"x", "y", "z">>) \o
  << Ask("p", "", "m", "", "y"), Ask("p", "t1", "n", "", "x"), AskCan("p", "t1", "", "", <<"r2">>), AskCan("p", "t1", "m", "", <<"r1">>),
     QPerms("D", "r1"), QKids("D", "r1"), QRole("r1"), QTenant("t1"), QDef >>
=============================================================================
