---------------------------- MODULE MC_V2_Expiry ----------------------------
(* C06: expiry of role-giving and of managing assignments. *)
EXTENDS MC_V2, IOUtils
MDepth == atoi(IOEnv.DEPTH)
MSetup == <<
  ORole("R1", "r1"), OPerm("R1", <<"x">>), ORole("R2", "r2"), OPerm("R2", <<"y">>), ORoles("A", <<"R1", "R2">>),
  OTen("T1", "t1", TRUE, "n"), OTen("T2", "t2", TRUE, "n"), OTens(<<"T1", "T2">>), OChild("T1", <<"T2">>),
  OAsg("A1", "p", "t1", "", "", "r1", TRUE), OAsg("A2", "p", "t2", "", "", "r2", FALSE), OHold(<<"A1", "A2">>) >>
MOps == << OTick(1), OTick(2),
  OSetExp("A1", 1), OSetExp("A1", 2), OSetExp("A2", 0), OSetExp("A2", 3), OSetDur("A1", 0), OSetDur("A1", 1), OSetDur("A2", 2), OSetDur("A2", 1),
  OBadDur("A1"), OPutExp("A1", 1), OPutExp("A2", 1), OClear("A1"), OClear("A2") >>
MQueries ==
  Cross2(LAMBDA t, r : Ask("p", t, "", "", r), <<"", "t1", "t2">>, <<"x", "y">>) \o
  Cross2(LAMBDA t, r : AskCan("p", t, "", "", <<r>>), <<"t1", "t2">>, <<"r1", "r2">>) \o
  << QExpired("A1"), QExpired("A2"), QExpiry("A1"), QExpiry("A2") >>
=============================================================================
