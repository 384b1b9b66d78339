---------------------------- MODULE MC_Root_Manage ----------------------------
(* C15, C16, C26: tenant hierarchies with cycles, built while being asked. *)
EXTENDS MC_Root, IOUtils
MDepth == atoi(IOEnv.DEPTH)
MSetup == <<
  ONew("t", "T1", "t1"), ONew("t", "T2", "t2"), ONew("t", "T3", "t3"), ONew("n", "N1", "a"), ONew("s", "S1", "s"), ONew("p", "P", "p"), ONew("p", "Q", "q"),
  ONew("r", "R1", "r1"), ONew("g", "G", "g"), OAttr("X", "x"), ORegs("t", <<"T1", "T2", "T3">>), OReg("n", "N1"), OReg("s", "S1"), OReg("r", "R1"), ORegs("p", <<"P", "Q">>),
  OGrant("R1", "g", <<"X">>) >>
MOps == <<
  ODesc("T1", <<"T2">>), ODesc("T2", <<"T3">>), ODesc("T3", <<"T1">>), ODesc("T2", <<"T2", "T1">>),
  OAssign("T1", "p", <<"r1">>, TRUE), OAssign("T2", "p", <<"r1">>, FALSE), OAssign("T2", "p", <<"r1">>, TRUE), OAssign("T3", "q", <<"r1">>, TRUE),
  OData("t3", NIL, NIL, "p", "r1", "true"), OTDef("T1", "a") >>
MQueries ==
  Cross2(LAMBDA p, t : Ask(p, t, NIL, NIL), <<"p", "q">>, <<"t1", "t2", "t3">>) \o
  Cross2(LAMBDA p, t : Act(p, t, NIL, NIL, "x"), <<"p", "q">>, <<"t1", "t2", "t3">>) \o
  << Act("p", "t3", "a", NIL, "x"), Ask("p", "t3", "a", NIL), Ask("q", "t2", "a", NIL), QImplicit("p"), QImplicit("q"), QTenantsBy("p"),
     QChildren("t1"), QChildren("t2"), QChildren("t3"), QBelow("T1"), QBelow("T2"), QBelow("T3"), QScopesRoles("p", "t3", NIL), QScopesRoles("q", "t2", NIL) >>
=============================================================================
