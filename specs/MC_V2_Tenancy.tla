---------------------------- MODULE MC_V2_Tenancy ----------------------------
(* C01, C02, C09, C26: hierarchies (also cyclic), management, status, default tenant, tenantless requests. *)
EXTENDS MC_V2, IOUtils
MDepth == atoi(IOEnv.DEPTH)
MSetup == <<
  ORole("R1", "r1"), OPerm("R1", <<"x">>), ORole("R2", "r2"), OPerm("R2", <<"y">>), ORoles("A", <<"R1", "R2">>),
  OTen("T1", "t1", TRUE, "n"), OTen("T2", "t2", TRUE, "n"), OTen("T3", "t3", TRUE, "n"), OTens(<<"T1", "T2">>),
  OAsg("A1", "p", "t1", "", "", "r1", TRUE), OAsg("A2", "p", "t2", "", "", "", TRUE), OAsg("A3", "p", "t3", "", "", "r2", FALSE),
  OAsg("B1", "q", "t2", "", "", "r2", TRUE), OAsg("B2", "q", "t1", "", "", "", FALSE) >>
MOps == <<
  OHold(<<"A1">>), OHold(<<"A2">>), OHold(<<"A3">>), OHold(<<"B1", "B2">>), ORem("p", "t2", "", "", ""), ORem("", "t1", "", "", ""),
  OChild("T1", <<"T2">>), OChild("T2", <<"T3">>), OChild("T3", <<"T1">>), OTens(<<"T3">>),
  OStatus("T2", 1), OStatus("T2", 0), OStatus("T1", 3), ODef("t1"), ODef("t3"), ODef("") >>
MQueries ==
  Cross2(LAMBDA p, t : Ask(p, t, "", "", "y"), <<"p", "q">>, <<"", "t1", "t2", "t3">>) \o
  Cross2(LAMBDA p, t : Ask(p, t, "n", "", "x"), <<"p", "q">>, <<"", "t1", "t3">>) \o
  Cross2(LAMBDA p, t : AskCan(p, t, "", "", <<"r2">>), <<"p", "q">>, <<"", "t1", "t2">>) \o
  << QTenant("t3"), QTenant("t1"), QDef >>
=============================================================================
