---------------------------- MODULE MC_V1_Assign ----------------------------
(* C23: what every way of assigning stores, in any order. *)
EXTENDS MC_V1, IOUtils
MDepth == atoi(IOEnv.DEPTH)
MSetup == <<
  ONew("t", "T1", "t1"), ONew("t", "T2", "t2"), ONew("n", "N1", "a"), ONew("n", "N2", "b"), ONew("s", "S1", "s"), ONew("s", "S2", "u"),
  ONew("p", "P", "p"), ONew("p", "Q", "q"), ONew("r", "R1", "r1"), ONew("r", "R2", "r2"), ONew("g", "G", "g"), OAttr("X", "x"), OAttr("Y", "y"),
  ORegs("t", <<"T1", "T2">>), ORegs("n", <<"N1", "N2">>), ORegs("s", <<"S1", "S2">>), ORegs("r", <<"R1", "R2">>), ORegs("p", <<"P", "Q">>) >>
MOps == <<
  OTNs("T1", <<"N1", "N2">>), OTRoles("T1", <<"r1", "r2">>), OTScopes("T1", <<"s">>), OTDef("T1", "a"), OTNsScopes("T1", "b", <<"s", "u">>), OTAssign("T1", "p", <<"r1", "r2">>),
  OTAssignN("T1", "p", "a", <<"r1">>), OTAssignN("T1", "p", "b", <<>>), OTAssignS("T1", "p", <<"s">>), OTAssignSR("T1", "p", "r2", <<"u", "s">>),
  OAssign("T1", "p", "r2", "", "u", FALSE), OAssign("T2", "q", "r1", "b", "s", TRUE) >>
MQueries ==
  << QIn("t1"), QIn("t2"), QOf("t1", "p"), QOf("t1", ""), QOf("t1", "q"), QOf("t2", "q"), QTenantsFor("p"), QTenantsFor("q"), QScopesFor("p"), QScopesFor("z"),
     QTenantScopesFor("t1", "p"), QTenantScopesFor("t2", "p"), QPermsFor("t1", "p"), QImplicitRows("t1", "p"), Ask("p", "t1", "b", "s"), Ask("p", "t1", NIL, "s"), Ask("p", NIL, "b", NIL) >>
=============================================================================
