---------------------------- MODULE MC_V1_Activity ----------------------------
(* C25: roles held in places, inheritance limited to the roles allowed. *)
EXTENDS MC_V1, IOUtils
MDepth == atoi(IOEnv.DEPTH)
MSetup == <<
  ONew("t", "T1", "t1"), ONew("t", "T2", "t2"), ONew("n", "N1", "a"), ONew("n", "N2", "b"), ONew("s", "S1", "s"), ONew("s", "S2", "u"),
  ONew("p", "P", "p"), ONew("p", "Q", "q"), ONew("r", "R1", "r1"), ONew("r", "R2", "r2"), ONew("g", "G", "g"), OAttr("X", "x"), OAttr("Y", "y"),
  ORegs("t", <<"T1", "T2">>), ORegs("n", <<"N1", "N2">>), ORegs("s", <<"S1", "S2">>), ORegs("r", <<"R1", "R2">>), ORegs("p", <<"P", "Q">>),
  OTNs("T1", <<"N1", "N2">>), OTScopes("T1", <<"s", "u">>), OGrant("R1", "g", <<"X">>), OGrant("R2", "g", <<"Y">>), OGrant("R2", "", <<"X">>) >>
MOps == <<
  OTRoles("T1", <<"r1">>), OTRoles("T1", <<"r2">>), ORDesc("R1", <<"R2">>), OTNsRoles("T1", "a", <<"r1">>), ONRoles("N2", <<"r2">>), OTNsScopes("T1", "a", <<"s">>),
  OAssign("T1", "p", "r1", "", "", TRUE), OAssign("T1", "p", "r1", "a", "", TRUE), OAssign("T1", "p", "r1", "b", "s", FALSE), OAssign("T1", "p", "r2", "", "u", FALSE),
  OAssign("T1", "q", "r2", "", "", TRUE) >>
Places == << <<NIL, NIL>>, <<"a", NIL>>, <<"b", NIL>>, <<NIL, "s">>, <<NIL, "u">>, <<"a", "s">>, <<"b", "s">>, <<"a", "u">> >>
MQueries ==
  Cross2(LAMBDA w, x : Act("p", "t1", w[1], w[2], x), Places, <<"x", "y">>) \o
  << Act("q", "t1", NIL, NIL, "x"), Act("q", "t1", "a", "s", "y"), Act("p", "t2", NIL, NIL, "x"), Act("p", NIL, "a", "s", "x"), ActAlone("p", "x"), ActAlone("q", "x"), ActAlone("p", "y"),
     QAllowed("t1", "p", "", ""), QAllowed("t1", "p", "a", ""), QAllowed("t1", "p", "a", "s"), QAllowed("t1", "p", "b", "s"), QAllowed("t1", "p", "b", "u") >>
=============================================================================
