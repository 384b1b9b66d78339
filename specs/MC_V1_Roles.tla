---------------------------- MODULE MC_V1_Roles ----------------------------
(* C16, C17, C18, C26: role permissions, groups, locks and inheritance with cycles. *)
EXTENDS MC_V1, IOUtils
MDepth == atoi(IOEnv.DEPTH)
MSetup == <<
  ONew("r", "R1", "r1"), ONew("r", "R2", "r2"), ONew("r", "R3", "r3"), ONew("g", "G", "g"), ONew("g", "H", "h"), OAttr("X", "x"), OAttr("Y", "y"), OAttr("Z", "z"),
  OAttr("W", "*"), ORegs("r", <<"R1", "R2">>), OReg("g", "G"), OGAttrs("G", <<"X", "Y">>), OGAttrs("H", <<"W">>) >>
MOps == <<
  OGrant("R1", "g", <<"X">>), OGrant("R2", "g", <<"Y">>), OGrant("R3", "h", <<"Z">>), OGrantGrp("R1", "G"), OGrantGrp("R2", "G"), OGrantGrp("R3", "H"),
  OGrantId("r1", "g", <<"X", "Y">>), OGrantId("r1", "g", <<"Y", "Z">>), OGrantId("r3", "g", <<"X">>), OGAttrs("G", <<"Z">>),
  OLock("R1", TRUE), OLock("R1", FALSE), ORDesc("R1", <<"R2">>), ORDesc("R2", <<"R3">>), ORDesc("R3", <<"R1", "R3">>) >>
MQueries ==
  Cross2(LAMBDA h, x : QHas(h, "g", x, << >>), <<"R1", "R2", "R3">>, <<"x", "y", "z">>) \o
  Cross2(LAMBDA h, x : QHas(h, "h", x, <<"r3">>), <<"R1", "R2">>, <<"x", "z">>) \o
  << QHas("R1", "g", "y", <<"r3">>), QHas("R1", "g", "y", <<"r2">>),
     QPerms("R1"), QPerms("R2"), QPerms("R3"), QImplicitPerms("R1"), QImplicitPerms("R3"), QRBelow("R1"), QRBelow("R2"), QRBelow("R3"),
     QGroupPerms("R1", "g"), QGroupPerms("R2", "h"), QRolePerms("r1"), QRolePerms("r3") >>
=============================================================================
