---------------------------- MODULE MC_Root_Member ----------------------------
(* C13, C15, C21: what principals, namespaces and scopes are given to whom. *)
EXTENDS MC_Root, IOUtils
MDepth == atoi(IOEnv.DEPTH)
MSetup == <<
  ONew("t", "T1", "t1"), ONew("t", "T2", "t2"), ONew("n", "N1", "a"), ONew("n", "N2", "b"), ONew("s", "S1", "s"), ONew("s", "S2", "u"),
  ONew("p", "P", "p"), ONew("p", "Q", "q"), ONew("r", "R", "r"),
  ORegs("t", <<"T1", "T2">>), ORegs("n", <<"N1", "N2">>), ORegs("s", <<"S1", "S2">>), OReg("r", "R"), ORegs("p", <<"P", "Q">>) >>
MOps == <<
  OData("t1", NIL, NIL, "p", "r", "false"), OData("t1", "a", NIL, "p", "r", NIL), OData("t1", NIL, "s", "p", NIL, NIL), OData("t1", "b", "s", "p", NIL, NIL),
  OData("t1", "a", "u", "q", NIL, NIL), OTNs("T1", <<"b">>), OTScopes("T1", <<"u">>), OTNsScope("T1", "a", "u"),
  ODesc("T1", <<"T2">>), OAssign("T1", "p", <<"r">>, TRUE), OData("t2", "b", "u", NIL, "r", NIL), OAssign("T2", "q", <<"r">>, TRUE) >>
MQueries ==
  Cross2(LAMBDA n, s : Ask("p", "t1", n, s), <<NIL, "a", "b">>, <<NIL, "s", "u">>) \o
  Cross2(LAMBDA n, s : Ask("p", "t2", n, s), <<NIL, "a", "b">>, <<NIL, "s", "u">>) \o
  Cross2(LAMBDA n, s : Ask("p", NIL, n, s), <<NIL, "a", "b">>, <<NIL, "s", "u">>) \o
  << Ask("q", "t1", "a", "u"), Ask("q", "t1", NIL, NIL), Ask("q", "t2", "b", NIL), Ask("p", "t1", "c", NIL), Ask("p", "t3", NIL, NIL),
     QRows("GetTenants", "p", NIL, NIL, NIL), QRows("GetScopesForPrincipalByTenant", "p", "t1", NIL, NIL),
     QRows("GetNamespacesByPrincipal", "p", NIL, NIL, NIL), QRows("GetScopesByTenant", NIL, "t1", NIL, NIL), QImplicit("p"),
     QScopesRoles("p", "t1", "a"), QScopesRoles("p", "t2", NIL) >>
=============================================================================
