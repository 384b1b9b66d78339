---------------------------- MODULE MC_Root_Activity ----------------------------
(* C14, C15: roles held in places, inheritance limited to the roles in use. *)
EXTENDS MC_Root, IOUtils
MDepth == atoi(IOEnv.DEPTH)
MSetup == <<
  ONew("t", "T1", "t1"), ONew("t", "T2", "t2"), ONew("n", "N1", "a"), ONew("n", "N2", "b"), ONew("s", "S1", "s"), ONew("s", "S2", "u"),
  ONew("p", "P", "p"), ONew("p", "Q", "q"), ONew("r", "R1", "r1"), ONew("r", "R2", "r2"), ONew("g", "G", "g"), OAttr("X", "x"), OAttr("Y", "y"),
  ORegs("t", <<"T1", "T2">>), ORegs("n", <<"N1", "N2">>), ORegs("s", <<"S1", "S2">>), ORegs("r", <<"R1", "R2">>), ORegs("p", <<"P", "Q">>),
  OGrant("R1", "g", <<"X">>), OGrant("R2", "g", <<"Y">>), OData("t1", NIL, NIL, "p", NIL, "false") >>
MOps == <<
  OData("t1", "a", NIL, "p", "r1", NIL), OData("t1", NIL, "s", "p", "r1", NIL), OData("t1", "b", "s", "p", "r2", NIL), OData("t1", NIL, NIL, "q", "r2", NIL),
  OTRoles("T1", <<"r2">>), ORDesc("R1", <<"R2">>), ODesc("T1", <<"T2">>), OAssign("T1", "p", <<"r1">>, TRUE), OData("t2", "b", "u", "p", "r2", NIL),
  OData("t2", "a", "u", "q", "r1", "true"), OGrant("R2", "g", <<"X">>) >>
Places == << <<NIL, NIL>>, <<"a", NIL>>, <<"b", NIL>>, <<NIL, "s">>, <<NIL, "u">>, <<"a", "s">>, <<"b", "s">>, <<"b", "u">> >>
MQueries ==
  Cross2(LAMBDA w, x : Act("p", "t1", w[1], w[2], x), Places, <<"x", "y">>) \o
  Cross2(LAMBDA w, x : Act("p", "t2", w[1], w[2], x), Places, <<"x", "y">>) \o
  Cross2(LAMBDA w, x : Act("p", NIL, w[1], w[2], x), Places, <<"x", "y">>) \o
  << Act("q", "t1", NIL, NIL, "x"), Act("q", "t1", NIL, NIL, "y"), Act("q", "t2", "a", "u", "x"), Ask("p", "t2", NIL, NIL),
     QRows("GetRolesByTenant", NIL, "t1", NIL, NIL), QRows("GetRolesForPrincipalByTenantNamespaceAndScope", "p", "t1", "a", "s"),
     QRows("GetRolesForPrincipalByTenantAndScope", "p", "t1", NIL, "s") >>
=============================================================================
