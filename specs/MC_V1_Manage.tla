---------------------------- MODULE MC_V1_Manage ----------------------------
(* C16, C24, C26: tenant hierarchies with cycles, built while being asked. *)
EXTENDS MC_V1, IOUtils
MDepth == atoi(IOEnv.DEPTH)
MSetup == <<
  ONew("t", "T1", "t1"), ONew("t", "T2", "t2"), ONew("t", "T3", "t3"), ONew("p", "P", "p"), ONew("p", "Q", "q"), ONew("r", "R1", "r1"), ONew("g", "G", "g"), OAttr("X", "x"),
  ORegs("t", <<"T1", "T2", "T3">>), OReg("r", "R1"), ORegs("p", <<"P", "Q">>), OGrant("R1", "g", <<"X">>) >>
MOps == <<
  ODesc("T1", <<"T2">>), ODesc("T2", <<"T3">>), ODesc("T3", <<"T1">>), ODesc("T2", <<"T2", "T1">>), OTRoles("T1", <<"r1">>), OTAssign("T1", "p", <<"r1">>),
  OAssign("T2", "p", "r1", "", "", FALSE), OAssign("T2", "p", "r1", "", "", TRUE), OAssign("T3", "q", "r1", "", "", TRUE), OAssign("T3", "p", "", "", "", FALSE) >>
MQueries ==
  Cross2(LAMBDA p, t : Ask(p, t, NIL, NIL), <<"p", "q">>, <<"t1", "t2", "t3">>) \o
  Cross2(LAMBDA p, t : Act(p, t, NIL, NIL, "x"), <<"p", "q">>, <<"t1", "t2", "t3">>) \o
  << QBelow("T1"), QBelow("T2"), QBelow("T3"), QImplicitRows("t1", "p"), QImplicitRows("t2", "p"), QTenantsFor("p") >>
=============================================================================
